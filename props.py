"""The registry: one entry per property, read by run.py and gen_manifest.py."""
TECH = 'contract-based deductive verification (Why3 obligations generated from the clang AST of the real functions, z3/cvc5)'
PROPS = {}
def P(pid, title, units, harness, **k):
    k.setdefault('level', 'proof'); k.setdefault('assumptions', [])
    PROPS[pid] = dict(title=title, units=units, harness=harness, **k)

P('P09', 'A SAX attribute list is a faithful ordered list',
  [('sax_attrs', None)], 'h_attrs.cpp',
  bound='random histories of up to 40 operations over 4 URIs x 4 local names x 5 qualified names',
  stand_in='none of the operations (all under contract); equality of lists, copy construction',
  level_note='every accessor, lookup and mutator of AttributesImpl is proved for all lists and all indices; the source list of a copy is read through its interface contract')
P('P01', 'DOM tree edits keep the tree well formed and do what the DOM says',
  [('dom_lemmas', None), ('dom_tree', None)], 'h_dom.cpp', srcs=['src/XML/XMLCharacterClasses.cpp'],
  bound='random histories of up to 38 edits over up to 29 nodes of 10 kinds in up to 2 documents, every link and list compared with a reference tree after every call',
  stand_in='inserting or replacing by a document fragment (its children are moved one by one through the proved calls); purgeChild; setOwnerDoc of a doctype given to a document',
  assumptions=['virtual calls are resolved through one contract per method; every override in the tree is proved against it (own_*, leaf_*, attr_*, doc_*, nondoc_*), except DocumentTypeImpl::getNodeType, which DOM::DocumentType_impl fixes',
               'a node handed in without an owner document is a fresh doctype with no children (setOwnerDoc is then trusted to set the owner of that node only)',
               'nodes passed in are live; the history contains no call on a freed node'],
  level_note='insertBefore, appendChild, replaceChild and removeChild of every node class, with the checks they rely on, are proved for all trees; document fragments are the stated bounded part')
P('P02', 'DOM character data edits are exact string edits with checked bounds', [('dom_text', None)], 'h_text.cpp', srcs=['src/XML/XMLCharacterClasses.cpp'],
  bound='random histories of up to 10 edits on strings of up to 30 bytes; random trees of depth 3 for normalize',
  stand_in='normalize over a whole tree; splitText of a text node inside a tree (its insertBefore is P01\'s)',
  level_note='every data edit is proved for all strings, offsets and counts')
LIB = ['src/XML/XMLCharacterClasses.cpp', 'src/arabica.cpp', 'src/io/uri.cpp'] + ['src/convert/' + x for x in (
  'base64codecvt.cpp', 'iso88591utf8codecvt.cpp', 'rot13codecvt.cpp', 'ucs2utf8codecvt.cpp', 'utf16beucs2codecvt.cpp', 'utf16leucs2codecvt.cpp', 'utf16utf8codecvt.cpp',
  'utf8iso88591codecvt.cpp', 'utf8ucs2codecvt.cpp', 'impl/iso88591_utf8.cpp', 'impl/ucs2_utf16.cpp', 'impl/ucs2_utf8.cpp')] + ['src/SAX/helpers/InputSourceResolver.cpp']
P('P08', 'Namespace prefixes resolve to the innermost declaration in scope', [('ns_scopes', None)], 'h_ns.cpp', srcs=LIB, libs=['-lexpat'],
  bound='random histories of up to 28 operations over 8 prefixes and 5 URIs; random documents of depth 5 through the Expat reader',
  stand_in='getPrefix, getPrefixes, getDeclaredPrefixes (iteration over a std::map), processName, NamespaceTracker, the reader\'s own use of the scopes',
  assumptions=['autoNamespacePrefix (an ostringstream) returns a non-empty prefix that is not in use'],
  level_note='entering, leaving, declaring and resolving are proved for all scope stacks, in the SAX helper and in the XSLT output; the reverse lookups of the SAX helper are bounded')
P('P15', 'XSLT variables are scoped lexically with import precedence for globals', [('xslt_vars', None)], 'h_xslvars.cpp', srcs=LIB, libs=['-lexpat', '-lboost_system'],
  bound='random stylesheets of up to 5 modules and 4 templates run by the real processor against a reference interpreter; random import trees of up to 9 modules',
  stand_in='freezeTopLevel (iteration over a std::map), the compiler and the instructions that open and close the scopes',
  assumptions=['a binding (Variable_instance) reports a fixed name, precedence and value, and evaluating it changes no scope of the stack that holds it (it is evaluated over its own copy)'],
  level_note='opening, chaining, closing, declaring, passing and resolving are proved for all scope stacks, and the precedence comparison is proved to be the strict total order of the import tree')
P('P03', 'A DOM attribute map holds one attribute per name and tracks ownership', [('dom_attrs', None)], 'h_attrmap.cpp', srcs=LIB, libs=['-lexpat'],
  bound='random histories of up to 60 operations on 4 elements of 2 documents over 7 names and 4 namespaces; 300 random documents whose DTD declares defaults',
  stand_in='the forwarding calls of ElementImpl, cloneNode, getDefaults and the doctype side of defaults, setPrefix',
  assumptions=['the names, namespace and owner document of a node are read through its virtual accessors and change during no operation of the map',
               'a new attribute (new AttrImpl, new AttrNSImpl, cloneNode) is a node made by no earlier call, in no map, with the name and document it was asked for',
               'the attribute map a doctype declares defaults in is another map, of the same document'],
  level_note='lookup, set, remove and refusal, by name, by namespace and by node, are proved for all maps: exactly the first node of the name is replaced or removed, and getOwnerElement is the element whose map holds the attribute')
P('P18', 'White-space normalisation trims and collapses, and nothing else', [('ws_norm', None)], 'h_wsnorm.cpp', srcs=LIB, libs=['-lexpat', '-lboost_system'],
  bound='all byte strings up to length 5 over 11 bytes; 6000 random strings of up to 6000 bytes, wide strings, the stripping filter and normalize-space() against splitting into words',
  stand_in='the conversion of other string types to and from UTF-8 around the proved routine (a wide string with U+0000 is not covered), the filter and the XPath function that call it',
  level_note='normalize_whitespace and is_space are proved for all strings: the result is exactly the kept characters with one space between words, and normalising again gives the same string')

CH = ['is_base_char', 'is_char', 'is_letter', 'is_ideographic', 'is_digit', 'is_combining_char', 'is_extender', 'is_name_char', 'is_ncname_char', 'is_letter_or_digit', 'is_space']
NC = ['is_ncname_it', 'is_ncname', 'is_qname', 'is_ncname_it_w', 'is_ncname_w', 'is_qname_w']
P('P06', 'XML character classes and names match the XML Recommendation', [('xml_names', CH + NC + ['checkName', 'checkChars', 'Lemmas'])], 'h_chars.cpp', srcs=LIB, libs=['-lexpat'],
  bound='every code unit from -131072 to 0x11FFFF; random byte and wide strings of up to 12 characters drawn from the edges of the tables',
  stand_in='the DOM calls that check the names and text they are given',
  assumptions=['the ranges the specification lists were cross-checked against the tables of another XML implementation and are part of the trusted specification (contracts/xml_ranges.py)'],
  level_note='every predicate is proved equal to its production for every wchar_t, over the tables as they stand in the source, and the name tests for all strings, byte and wide; a byte string is taken byte by byte (known finding)')
P('P07', 'Qualified names are parsed, resolved and compared correctly', [('xml_names', NC + ['parse_map', 'parse_mapper', 'map_prefix'] + ['qn_' + x for x in 'eq ne clark prefix localName namespaceUri rawName has_prefix has_namespaceUri has_rawName set_prefix assign'.split()] + ['xq_create2', 'xq_create1', 'xq_create_q', 'xq_eq', 'Lemmas'])],
  'h_qname.cpp', srcs=LIB, libs=['-lexpat'],
  bound='random strings of up to 9 characters over letters, digits, colons, hyphens and others, with 5 prefix maps; 1500 random documents of depth 3 through the reader',
  stand_in='NamespaceSupport\'s mapper (P08) and the reader around the proved parser; the ordering of stylesheet names',
  assumptions=['a string is shorter than 2^63 characters'],
  level_note='parsing, refusing, resolving, comparing and writing out are proved for all strings and all prefix maps')

P('P19', 'SAX filters pass every event on once, in order and unaltered', [('sax_filters', None)], 'h_filter.cpp', srcs=LIB, libs=['-lexpat'],
  bound='random sequences of up to 60 events of all 27 kinds through chains of up to 3 filters, repeated parses, handlers that throw',
  stand_in='none of the forwarding calls (all under contract)',
  assumptions=['a handler does nothing to the filter that calls it', 'a call on a handler is recorded by a ghost log: which call, whose, and the arguments, in order'],
  level_note='each of the 27 calls of XMLFilterImpl is proved to add exactly that call to what the handler is told; each call of TextCoalescer to deliver the held text, if any, and then the event, and a lemma over all histories gives the whole-run statement')

P('P11', 'Relative URIs resolve as RFC 3986 prescribes', [('io_uri', None)], 'h_uri.cpp', srcs=['src/io/uri.cpp'],
  bound='300000 random references against random bases, 200000 pairs of character soups, the examples of RFC 3986 5.4, against a literal reading of RFC 3986 appendix B and 5.2',
  stand_in='the constructors (which only call the proved parse and absolutise)',
  assumptions=['a string is shorter than 2^63 characters', 'find, rfind, substr, append and erase of std::string do what the C++ standard says (tools/stdmodel.py)'],
  level_note='splitting, resolving, removing dot segments, writing out and comparing are proved for all strings, including that no character outside a string is read')

P('P12', 'XPath conversions and core functions follow the XPath Recommendation', [('xpath_fn', None)], 'h_xpathfn.cpp', srcs=LIB, libs=['-lexpat', '-lboost_system'],
  bound='random expressions, up to three deep, over all string, number and boolean functions and the arithmetic operators, with numbers up to 1e27 and strings up to 60 characters, run by the real engine',
  stand_in='substring() where the end lies inside the string; normalize-space(), string-length(), name(); number literals; how many digits stand for an integer of 2^53 or more is left open',
  assumptions=['boost::lexical_cast turns a decimal numeral into the nearest double and back', 'the argument of a function and the value of a node have the value their own contracts say (interfaces)',
               'IEEE 754 double arithmetic as axiomatised in contracts/floats.py (round to nearest, monotone, exact on representable results)', 'a string is shorter than 2^53 characters'],
  level_note='the conversions, the arithmetic operators and the functions of section 4 are each proved equal to their definition for every argument, NaN, infinities and signed zero included')
P('P13', 'XPath comparisons follow the XPath Recommendation', [('xpath_compare', None)], 'h_compare.cpp', srcs=LIB, libs=['-lexpat', '-lboost_system'],
  bound='random pairs of booleans, numbers, strings and node-sets of up to 5 nodes under all six operators, run by the real engine',
  stand_in='the string value of a node and its number (P12), the parser that builds the operator objects',
  assumptions=['a value reports a fixed type, boolean, number, string and node-set: its boolean is whether the set is empty, its number that of XPath 4.4 (P12)',
               'comparison of doubles follows IEEE 754 (contracts/floats.py)'],
  level_note='the table of section 3.4 is proved for all pairs of operands and node-sets of any size, from the comparison of two nodes up to the six operators, and that each operator applies to its two operands in order')
P('P16', 'XSLT sorting is a stable sort by the declared keys', [('xslt_sort', None)], 'h_sort.cpp', srcs=LIB, libs=['-lexpat', '-lboost_system'],
  bound='random documents of up to 120 items and up to 4 keys of all data types and directions, selected along forward and reverse axes, sorted by the real processor',
  stand_in='fetching a key from its expression, reading order and data-type from the stylesheet, the call of std::stable_sort',
  assumptions=['std::stable_sort sorts stably by a strict weak order', 'the key of a node is the same whenever it is asked for', 'string < is a strict total order'],
  level_note='the comparison is proved to be the lexicographic order by the declared keys for any number of keys and any values, and a lemma shows that order to be a strict weak order, NaN keys included')
P('P17', 'A tree walker visits exactly the accepted nodes in document order', [('tree_walk', None)], 'h_walk.cpp', srcs=['src/XML/XMLCharacterClasses.cpp'],
  bound='random trees of up to 24 nodes of 6 kinds, masks, filters and roots; up to 60 moves compared with a brute-force flattening',
  stand_in='that the recursive definition of the logical view is the flattening of the filtered tree; termination of the moves',
  assumptions=['the tree is finite and its links agree (P01)', 'a filter answers the same for the same node and changes nothing'],
  level_note='all seven moves and setCurrentNode are proved for all trees, masks, filters and positions against the logical view of DOM Traversal 1.3')
P('P22', 'Element lists by tag name are live and complete', [('elem_list', None)], 'h_list.cpp', srcs=['src/XML/XMLCharacterClasses.cpp'],
  bound='random histories of up to 60 edits over up to 20 elements with up to 8 lists of both kinds queried in between',
  stand_in='that every change to the tree raises the change count of its document (proved for insert, replace and remove in P01; setPrefix here)',
  assumptions=['the tree is finite and its links agree (P01)', 'two readings of the change count are equal only if the tree is the same'],
  level_note='the walk is proved to collect exactly the matching elements in document order for all trees, and length and item to answer from a list that is fresh')
P('P10', 'Writing a document out and reading it back gives the same document', [('write_out', None)], 'h_write.cpp', srcs=LIB, libs=['-lexpat', '-lboost_system'],
  bound='6000 random trees of depth 4 written by the DOM stream operator and 6000 random event sequences written by the SAX Writer, each parsed again by the Expat reader and compared name by name and character by character',
  stand_in='the DOM stream operator on documents and elements (the namespace declarations it writes included), and the Writer outside characters, CDATA sections and attributes',
  assumptions=['std::for_each applies the escaper to each character of the range in order; writing to a stream appends and does not fail',
               'the filter behind the Writer does not write on its stream; a cdata_escaper starts as its constructor leaves it, on the stream it was given', 'an XML reader reads references, line ends and attribute white space as the rd_text and rd_attr functions of the specification do'],
  level_note='the escapers, Writer::characters, writeAttributes, startCDATA and endCDATA, and the DOM stream operator on text, CDATA, comment, reference and instruction nodes, are proved for all strings and attribute lists, and lemmas show that reading what is written as text, as an attribute value or as CDATA sections gives back every character')

P('P14', 'XPath axes and document order agree with the tree', [('xpath_axes', None), ('xpath_order', None)], 'h_axes.cpp', srcs=LIB, libs=['-lexpat', '-lboost_system'],
  bound='500 random documents and fragments of up to 45 nodes with text runs, comments, instructions, attributes and namespace declarations: thirteen axes from every node, steps in expressions, positions, unions, sorting and comparison, against lists computed from the tree',
  stand_in='where each walk starts (the constructors of the walkers), the namespace axis, sorting and removing duplicates',
  assumptions=['the tree is well formed, as P01 shows, and does not change while an axis is walked', 'the text of an attribute is not walked, and a text node has no children', 'a node has fewer than 2 million siblings; that two nodes of a tree have different paths (an element has fewer than 1000 attributes) is left to the harness'],
  level_note='the steps of every axis but the namespace axis are proved for all trees: each goes to the first of what is still to come, in document order or, on the preceding axis, against it, runs of text counted once; compareNodes is proved to compare the paths of the two nodes from the top; the namespace axis and sorting are bounded')

NA = [dict(property='P20', reason='the HTML scanner is a table-driven state machine over a pushback stream with raw realloc buffers, and element restructuring mutates linked stacks through raw owning pointers; neither the character buffers nor the aliasing of the element stacks fits the heap model of the translator, so no contract here decides it, and a fuzzing run alone would be a different technique'),
      dict(property='P04', reason='the converters are codecvt facets working through raw pointers into caller-owned buffers with several out-parameters each; pointer arithmetic between separate buffers is outside the translated subset, so the obligations cannot be generated from the code'),
      dict(property='P05', reason='same shape as P04 (codecvt facet over raw pointers, state packed into a mbstate_t through a cast), outside the translated subset')]
