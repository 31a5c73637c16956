import json
L=[]
def P(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    L.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
S='include/DOM/Simple/'
P('P01','DOM tree edits keep the tree well formed and do what the DOM says',
 "After any history of insertBefore, appendChild, replaceChild and removeChild calls, every node with a parent occurs exactly once in that parent's child list, parent, previous/next-sibling and first/last-child links agree with the lists, and no node is its own ancestor. A successful call produces exactly the child sequence the DOM Recommendation prescribes and moves nothing else. A call moving one node that throws leaves the tree as it was.",
 ['histories','inputs'],'all histories of tree edits over all documents, fragments and node kinds',
 'the tests try a few fixed edit sequences; the links must agree after every history, including moves within one parent and failing calls',
 [S+'NodeImpl.hpp',S+'DocumentImpl.hpp',S+'DocumentFragmentImpl.hpp','include/DOM/Node.hpp'],
 [('child list edits',S+'NodeImpl.hpp: NodeImplWithChildren do_insertBefore/do_replaceChild/do_removeChild/do_appendChild'),('document element and doctype bookkeeping',S+'DocumentImpl.hpp')])
P('P02','DOM character data edits are exact string edits with checked bounds',
 "appendData, insertData, deleteData, replaceData, substringData and splitText on text, comment and CDATA nodes give exactly the string the DOM Recommendation prescribes for every offset and count, including counts that run past the end. An offset beyond the end, or a negative offset or count, is refused with an index-size error and changes nothing; splitting leaves two adjacent siblings whose data concatenate to the original. Normalising leaves no empty and no adjacent text nodes and keeps the concatenated text.",
 ['inputs','histories'],'all data strings, offsets and counts','the tests use a handful of offsets; off-by-one and overflow at the ends need all of them',
 [S+'CharacterDataImpl.hpp',S+'TextImpl.hpp',S+'CDATASectionImpl.hpp'],
 [('data edits',S+'CharacterDataImpl.hpp'),('splitText',S+'TextImpl.hpp')])
P('P03','A DOM attribute map holds one attribute per name and tracks ownership',
 "An element's attribute map never holds two attributes with the same name (or, through the namespace calls, the same namespace and local name); lookup finds exactly the attribute last set under that name and removal removes only that one. An attribute's owner element is the element whose map holds it and is null once it is removed or replaced; an attribute in use by another element, or from another document, is refused and nothing changes.",
 ['histories'],'all histories of set, get and remove of attributes by name, by namespace and by node','the tests set and get single attributes; the uniqueness and ownership invariant concerns every history',
 [S+'NamedNodeMapImpl.hpp',S+'AttrMap.hpp',S+'AttrImpl.hpp',S+'AttrNSImpl.hpp',S+'ElementImpl.hpp'],
 [('map operations',S+'NamedNodeMapImpl.hpp'),('ownership',S+'AttrMap.hpp')])
P('P04','Character-set conversions are exact and never leave their buffers',
 "Converting between UTF-8, UTF-16, UCS-2 and ISO-8859-1 produces exactly the encoding of the same characters, in both directions, however the input is cut into chunks and however small the output buffer is. No conversion call reads beyond the input it was given or writes beyond the output it was given, whatever the bytes.",
 ['inputs','histories'],'all byte and character sequences, all chunkings and output buffer sizes','the tests convert a few fixed strings through roomy buffers',
 ['src/convert','include/convert'],
 [('UTF-8 decoding and encoding','src/convert/utf8ucs2codecvt.cpp, src/convert/impl/ucs2_utf8.cpp'),('UTF-16','src/convert/utf16utf8codecvt.cpp, src/convert/impl/ucs2_utf16.cpp'),('ISO-8859-1','src/convert/iso88591utf8codecvt.cpp, src/convert/impl/iso88591_utf8.cpp')])
P('P05','Base64 encoding follows RFC 4648 and decodes back to the original bytes',
 "Encoding any byte sequence gives its RFC 4648 base64 text and decoding that text gives the bytes back, for every length and however the data is divided between calls. Bytes outside the base64 alphabet are rejected as an error and nothing is read or written out of bounds.",
 ['inputs','histories'],'all byte sequences and divisions into calls','the tests encode a few short strings in one call; padding and chunk boundaries depend on length and split',
 ['src/convert/base64codecvt.cpp','include/convert/base64codecvt.hpp'],[('encoder, decoder and flush','src/convert/base64codecvt.cpp')])
P('P06','XML character classes and names match the XML Recommendation',
 "Every character predicate (Char, Letter, Digit, CombiningChar, Extender, NameChar, white space) answers as the productions of XML 1.0 do for every code unit. A string is accepted as an NCName or a QName exactly when it matches the corresponding production; the DOM refuses a name exactly when it is empty or holds a character that is not a NameChar, and text for a processing instruction exactly when it holds one that is not a Char.",
 ['inputs'],'all 16-bit code units and all strings','the tests probe a few characters of tables with hundreds of ranges',
 ['include/text/UnicodeCharacters.hpp','include/XML/XMLCharacterClasses.hpp','src/XML/XMLCharacterClasses.cpp','include/XML/QName.hpp'],
 [('tables and search','include/text/UnicodeCharacters.hpp, src/XML/XMLCharacterClasses.cpp')])
P('P07','Qualified names are parsed, resolved and compared correctly',
 "A qualified name splits into prefix and local part at its single colon and is refused when a part is missing or is not a name; its namespace is the one bound to its prefix. Two names are equal exactly when namespace URI and local part are equal, and the written-out forms agree with the parts.",
 ['inputs'],'all strings and namespace contexts','the tests parse a few well-formed names',
 ['include/XML/QName.hpp'],[('parseQName, QualifiedName','include/XML/QName.hpp')])
P('P08','Namespace prefixes resolve to the innermost declaration in scope',
 "After any sequence of entering scopes, declaring prefixes and leaving scopes, a prefix resolves to the URI of its innermost live declaration and to nothing if it has none; leaving a scope restores exactly the bindings that held before it was entered. The xml prefix always resolves to its fixed URI and cannot be rebound.",
 ['histories'],'all well-nested sequences of scope entries, declarations and exits','the tests use a few fixed nestings',
 ['include/SAX/helpers/NamespaceSupport.hpp','include/XSLT/impl/xslt_namespace_stack.hpp'],
 [('scope stack','include/SAX/helpers/NamespaceSupport.hpp'),('stylesheet scope stack','include/XSLT/impl/xslt_namespace_stack.hpp')])
P('P09','A SAX attribute list is a faithful ordered list',
 "After any sequence of additions, replacements, removals, per-field changes and copies, an attribute list reports exactly the attributes, in the order and with the values those operations imply. Lookup by qualified name or by namespace and local name finds the first match and reports absence otherwise; an index outside the list yields the empty string from an accessor and an out-of-range error, with the list unchanged, from a mutator.",
 ['histories'],'all histories of list operations and all indices','the repository has no unit test of the list beyond what parsing exercises',
 ['include/SAX/helpers/AttributesImpl.hpp'],[('list operations','include/SAX/helpers/AttributesImpl.hpp')])
P('P10','Writing a document out and reading it back gives the same document',
 "Character data and attribute values written by the DOM stream operator and by the SAX writer are escaped so that an XML parser reads back exactly the same text and attribute values.",
 ['inputs'],'all strings of legal XML characters as text or attribute value','the tests write a few literal documents',
 ['include/DOM/io/Stream.hpp','include/SAX/filter/Writer.hpp','include/XML/escaper.hpp'],[('escaping','include/XML/escaper.hpp'),('writers','include/DOM/io/Stream.hpp, include/SAX/filter/Writer.hpp')])
P('P11','Relative URIs resolve as RFC 3986 prescribes',
 "Parsing a URI splits it into scheme, host, port and path that reassemble to the same URI. Resolving a relative reference against a base gives the RFC 3986 result with dot segments removed (a base that is itself relative keeps the segments which climb above its start), and never reads outside the strings, whatever they contain. A local path is accepted too: a single-letter scheme is a Windows drive, back-slashes become slashes, and a file URI is written with an empty authority.",
 ['inputs'],'all URI strings and base/reference pairs','the tests resolve a few dozen well-formed pairs',
 ['src/io/uri.cpp','include/io/uri.hpp'],[('parse and resolve','src/io/uri.cpp')])
P('P12','XPath conversions and core functions follow the XPath Recommendation',
 "Conversions between string, number and boolean, and the string, number and boolean core functions (substring and its relatives, translate, normalize-space, round, floor, ceiling, mod, and so on), give the result the XPath 1.0 Recommendation prescribes for every argument, including NaN, infinities, negative zero and empty or overlong ranges. None of them crashes on any argument. (A character is a code unit of the string type; id() and lang() are outside this.)",
 ['inputs'],'all argument values','the tests evaluate a few dozen literals',
 ['include/XPath/impl/xpath_value.hpp','include/XPath/impl/xpath_function.hpp','include/XPath/impl/xpath_arithmetic.hpp'],
 [('conversions','include/XPath/impl/xpath_object.hpp, xpath_value.hpp'),('functions','include/XPath/impl/xpath_function.hpp')])
P('P13','XPath comparisons follow the XPath Recommendation',
 "For every pair of operands, =, !=, <, <=, > and >= give the boolean the XPath 1.0 Recommendation prescribes for their types, with node-set comparisons true exactly when some choice of nodes satisfies the comparison.",
 ['inputs'],'all pairs of operand types and values, node-sets of any size','the tests compare a few values; the existential over node pairs is hardly sampled',
 ['include/XPath/impl/xpath_object.hpp','include/XPath/impl/xpath_relational.hpp','include/XPath/impl/xpath_value.hpp'],
 [('comparison','include/XPath/impl/xpath_object.hpp'),('relational operators','include/XPath/impl/xpath_relational.hpp')])
P('P14','XPath axes and document order agree with the tree',
 "Every axis enumerates exactly the nodes the XPath Recommendation assigns to it for every context node, each once and in axis order. Document order is a strict total order on the nodes of a document that agrees with the tree, and a node-set result is free of duplicates and sorted by it.",
 ['inputs'],'all documents and context nodes','the tests walk a few fixed small documents',
 ['include/XPath/impl/xpath_axis_enumerator.hpp','include/XPath/impl/xpath_object.hpp'],
 [('axis walkers','include/XPath/impl/xpath_axis_enumerator.hpp'),('document order','include/XPath/impl/xpath_object.hpp: compareNodes')])
P('P15','XSLT variables are scoped lexically with import precedence for globals',
 "A variable or parameter reference yields the innermost binding in scope, a global is visible unless shadowed, and leaving a template or block restores the bindings that held before; a binding made inside one template is never seen by another. Among globals of one name the one of highest import precedence wins, whatever the order of declaration.",
 ['histories','programs'],'all sequences of scope entry, declaration and exit, all stylesheets','the conformance suites use fixed stylesheets',
 ['include/XSLT/impl/xslt_variable_stack.hpp','include/XSLT/impl/xslt_precedence.hpp'],
 [('variable stack','include/XSLT/impl/xslt_variable_stack.hpp'),('precedence','include/XSLT/impl/xslt_precedence.hpp')])
P('P16','XSLT sorting is a stable sort by the declared keys',
 "Sorting orders nodes by the first key, then the next, each by its own data type and direction (text keys by their characters' codes: no collation, no case order), and leaves nodes equal on every key in document order. The comparison is a strict weak order for all key values, including strings that are not numbers.",
 ['inputs'],'all key values, key lists and node lists','the conformance suites sort small fixed lists',
 ['include/XSLT/impl/xslt_sort.hpp'],[('comparison','include/XSLT/impl/xslt_sort.hpp')])
P('P17','A tree walker visits exactly the accepted nodes in document order',
 "Each tree-walker move goes to the node the DOM Traversal Recommendation prescribes for the logical view defined by the root, the node-type mask and the filter, never leaves the root, and leaves the current node alone when there is no such node.",
 ['inputs','histories'],'all trees, masks, filters and move sequences','the tests walk one small tree',
 ['include/DOM/Traversal/TreeWalkerImpl.hpp'],[('moves','include/DOM/Traversal/TreeWalkerImpl.hpp')])
P('P18','White-space normalisation trims and collapses, and nothing else',
 "Normalising a string removes leading and trailing white space, replaces each inner run of white space by one space, and keeps every other character in order; normalising twice is the same as once.",
 ['inputs'],'all strings','the tests normalise a few strings',
 ['include/text/normalize_whitespace.hpp'],[('normalisation','include/text/normalize_whitespace.hpp')])
P('P19','SAX filters pass every event on once, in order and unaltered',
 "A pass-through filter forwards each event to the next handler exactly once, in order, with the same arguments. The text coalescer delivers each maximal run of character events (text and ignorable white space, held back until an event of the document's content follows) as one event with the concatenated text, before the event that ends the run, and loses, adds or reorders nothing.",
 ['histories'],'all event sequences','the tests feed a few documents through each filter',
 ['include/SAX/helpers/XMLFilterImpl.hpp','include/SAX/filter/TextCoalescer.hpp'],[('forwarding','include/SAX/helpers/XMLFilterImpl.hpp'),('coalescing','include/SAX/filter/TextCoalescer.hpp')])
P('P20','Tag-soup parsing always yields balanced events',
 "Whatever bytes it is given, the HTML parser terminates, reports start and end of every element in properly nested pairs between one document start and one document end, and does not touch memory outside its buffers.",
 ['inputs'],'all byte sequences','the tests parse a few HTML samples',
 ['include/Taggle/Taggle.hpp','include/Taggle/impl'],[('scanner and stack','include/Taggle/impl')])
P('P22','Element lists by tag name are live and complete',
 "A list of elements by tag name always reports exactly the matching descendants of its root in document order, at the time it is asked, however the tree was changed since the list was made; an index outside the list yields no node. Asked by namespace, an element in no namespace matches only the namespace '*'.",
 ['histories'],'all trees, names and edit histories between queries','the tests query lists on unchanging trees',
 ['include/DOM/Simple/ElementByTagImpl.hpp','include/DOM/Simple/ElementImpl.hpp'],[('list','include/DOM/Simple/ElementByTagImpl.hpp')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
