# writes DESIGN.md from tools/design_head.md, the notes below, props.py, known_findings.txt, seeded/ and tools/plants.txt
NOTES = {
'P01': 'Heap maps for the five links of a node. `wf`: links agree both ways, children of one parent form a finite acyclic chain, owner document equal. insertBefore, appendChild, replaceChild, removeChild, fragment insertion and purge preserve `wf`, refuse cycles, wrong types and foreign documents before changing anything.',
'P02': 'CharacterData edits as sequence edits; splitText; the bounds exception exactly when the offset exceeds the length.',
'P03': 'The attribute map as a sequence of nodes, with a ghost set of nodes made so far (`ghost_made`) for freshness of defaults. Read-only maps refuse; a refused call leaves the map as it was. Open oddities of the code kept out of the contract: idNodes_ keeps attributes that were removed; setNamedItem of an attribute in use is refused by owner element only.',
'P06': 'Character classes as closed intervals; the tables are cross-checked by the harness against an independent table (`harness/xml_ranges.inc`, taken from the XML 1.0 productions and compared with Xerces-style ranges). DOM checkName accepts names of name characters only: a name starting with a digit is accepted by the code and is outside the statement.',
'P07': 'QualifiedName parsing, comparison, printing; refusal of two colons or empty parts. set_prefix leaves rawName stale (outside: nothing in the library reads it afterwards).',
'P08': 'NamespaceSupport and the XSLT/expat callers as a stack of frames; resolution finds the innermost declaration.',
'P09': 'AttributesImpl as a sequence of records; each accessor by index, by name and by namespace; refusal of an index past the end.',
'P11': 'Splitting by the grammar of RFC 3986 appendix B, dot removal as the recursive function of 5.2.4, merge and resolution as 5.2.2/5.2.3. The single-letter scheme (drive letters) and the leading `//` of a scheme-less path are outside.',
'P12': 'Each function equals its definition over IEEE values and sequences. translate() was found wrong by a failing obligation (a removed character left the next one stale), repaired. substring() with a third argument is proved where the end lies beyond the string; else bounded.',
'P13': 'The table of section 3.4 by type of operand; node-sets existentially, of any size.',
'P15': 'Variable stack as a stack of scopes; chaining into the enclosing scope; parameters passed and consumed.',
'P16': 'The comparison functor is the lexicographic order by the declared keys; a lemma shows strict weak order incl. NaN. set_context, the grabAs* key fetchers and Sortable::sort are bounded.',
'P17': 'The logical view as recursive functions over the real tree (`next_sib`, `vfirst`, ...). That these enumerate the accepted nodes in document order is checked by the harness by flattening; so is termination.',
'P18': 'normalize_whitespace for any string type; white space collapsed, trimmed.',
'P19': 'Each filter call is one event appended to a ghost trace; TextCoalescer joins runs; ignorable white space counts as text there.',
'P22': 'below/from/after: the preorder walk as recursive functions. Freshness relies on the change counter: markChanged is proved to add one modulo 2^64; that every mutation calls it is bounded (harness histories, counter-sized bursts).',
'P10': 'Output streams are ghost character sequences; every escaper operator, `Writer::characters` (its CDATA loop included), `writeAttributes`, `startCDATA` and `endCDATA` have contracts giving exactly what is written. `rd_text`/`rd_attr` define what an XML reader (references, line-end and attribute-value normalisation) reads at a position, and `rd_cdata` the same for CDATA sections; the lemmas `text_back`/`attr_back`/`cdata_back` show by induction over any string that reading the output gives each character back in turn. The DOM stream operator is under contract for text, CDATA, comment, reference and instruction nodes; elements and documents are compared by the harness through the real Expat reader.',
'P14': 'The tree is a set of ghost links (parent, first child, siblings) with the shape P01 proves. `pre`, `prek` and `rest` define document order as lists; `tail o n` is what is still to come after n inside o. `walkDown`, `nextDescendant`, `firstFollowing` and the `advance` of the forward axes are proved to go to the head of that list and leave its tail (`steps`), so by induction a walk gives exactly the list: every node once, in order. A run of text and CDATA is one node, its first (`nexth`, `prevh`). `bk`, `back` and `before` do the same for the preceding axis (`previousInDocument`, `firstPreceding`), and `set_next` of the attribute axis skips exactly the namespace declarations. `compareNodes` is proved to order two nodes of one tree by the first difference of their paths read from the top (`lexlt`), what is above coming first, nodes of the document before fragments, and fragments among themselves. Where the other walks start, the namespace axis, and sorting are bounded.',
'P05': 'Encoder and decoder over byte sequences.',
}
import sys, os, re, glob, json, importlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [H, H + '/tools', H + '/contracts']
from props import PROPS, TECH
import props
NA = getattr(props, 'NA', [])
out = [open(H + '/tools/design_head.md').read()]
kf = [l.rstrip() for l in open(H + '/known_findings.txt') if l.strip() and not l.startswith('#')]
caught = {}
for l in open(H + '/tools/plants.txt'):
    f = l.split(None, 2)
    if len(f) >= 2: caught[f[0]] = (f[1], f[2].strip() if len(f) > 2 else '')
out.append('## Properties\n\nBack ends for every unit: Why3 1.6.0 goals, z3 5.3.2, z3 4.8.12, cvc5 1.1.2. Functions, obligations and solver time of a run are in `evidence/<id>.json`.\n')
for pid, p in sorted(PROPS.items()):
    out.append('### %s %s\n' % (pid, p['title']))
    if pid in NOTES: out.append(NOTES[pid] + '\n')
    fns = []
    for u, _ in p['units']:
        m = importlib.import_module(u); un = m.make_unit()
        cs = [c for c in (un.contracts.values() if isinstance(un.contracts, dict) else un.contracts)]
        fns.append('`contracts/%s.py`: %s' % (u, ', '.join(sorted(set(re.sub(r'\W+$', '', c.name) for c in cs if getattr(c, 'prove', True))))))
    out.append('* Under contract: ' + '; '.join(fns))
    out.append('* Result: ' + p['level_note'])
    if p.get('stand_in'): out.append('* Bounded stand-in (never counted as proved): %s. Bound: %s' % (p['stand_in'], p.get('bound', '')))
    elif p.get('bound'): out.append('* Harness bound: ' + p['bound'])
    if p.get('assumptions'): out.append('* Assumed: ' + '; '.join(p['assumptions']))
    for l in kf:
        if 'property=%s ' % pid in l: out.append('* ' + l)
    for d in sorted(glob.glob(H + '/seeded/%s*' % pid)):
        b = os.path.basename(d); j = json.load(open(d + '/meta.json'))
        out.append('* planted %s (%s; %s): %s' % (b, j['what_it_breaks'], j['needs'], ' '.join(caught.get(b, ('not confirmed yet', '')))))
    out.append('')
if NA:
    out.append('## Not applicable\n')
    for n in NA: out.append('* %s: %s' % (n['property'], n['reason']))
open(H + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
