"""source of properties.jsonl and MANIFEST.json"""
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, technique='abstract interpretation of MIR (heap-segment domain) against a specification', note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, na=na))

TI = 'src/level2/trait_impls.rs'
NI = 'src/level2/node_impl.rs'
TR = 'src/level2/traits.rs'

P('C01', 'A parent accepts exactly the child types the DOM permits',
  'append_child, insert_before and replace_child accept a new child only if the DOM content model permits its node type under the parent\'s node type: Element, EntityReference, Entity and DocumentFragment take Element, Text, Comment, ProcessingInstruction, CDATASection and EntityReference; Attribute takes Text and EntityReference; Document takes Element, Comment and ProcessingInstruction; every other node takes none. A forbidden child is rejected with an error (HierarchyRequest, unless another error applies as well), and a permitted one is never rejected with HierarchyRequest, unless it would form a cycle or be a second document element.',
  ['inputs', 'histories'], 'all 144 pairs of parent and child node type, whatever else the two nodes hold and wherever they are attached',
  'The tests try a handful of the 144 type pairs, on fresh nodes only; the table is only right if every pair is.', [TI, NI], ['is_child_allowed', 'insert_before', 'replace_child'])
P('C02', 'The tree has no cycles and a document has one element child at most',
  'No sequence of append_child, insert_before, replace_child and set_attribute_node makes a node its own ancestor, through children or through the value of an attribute: inserting a node into itself or its descendants, or setting an attribute that contains the element, is rejected with HierarchyRequest. A Document never gets a second Element child: adding one is rejected with HierarchyRequest, while moving or replacing the existing one is accepted.',
  ['histories', 'inputs'], 'every parent, new child and reference child, including aliases of one another, and every position of the existing document element',
  'The tests never insert an ancestor and only try the simplest second document element; a cycle or a second root needs particular aliasing between the arguments.', [TI], ['insert_before', 'replace_child', 'is_self_or_ancestor'])
P('C03', 'Nodes of one document never enter the tree of another',
  'append_child, insert_before and replace_child reject a new child that belongs to another document with WrongDocument. After a successful insertion the new child\'s owner document is the parent\'s owner document, or the parent itself when the parent is the Document.',
  ['inputs', 'histories'], 'every parent and new child, attached or not, of the same and of different documents',
  'The tests use one document almost everywhere; the guarantee is about every pair of nodes of two documents.', [TI], ['check_same_document', 'insert_before', 'replace_child'])
P('C04', 'Child lists and parent links stay consistent, with exact positions',
  'A successful append_child, insert_before, replace_child or remove_child puts the child exactly where requested (before the reference child, at the end, in the place of the replaced child) and keeps the order of all other children; a child moved from elsewhere leaves its old parent\'s list; parent links always agree with child lists, and a removed or replaced child has no parent. The operation returns the inserted, respectively the removed or replaced node, changes nothing else, succeeds whenever no error condition holds, and reports NotFound when the reference or old child is not a child of the node.',
  ['histories', 'inputs'], 'every parent with any number of children, every relation of the new child with the parent (unattached, sibling before or after the reference, child of another node) and every reference child',
  'Position arithmetic goes wrong only for particular sibling orders (moving within one list, adjacent siblings, reference equal to the child); the tests sample very few of these.', [TI], ['insert_before', 'replace_child', 'remove_child', 'append_child'])
P('C05', 'An operation that fails changes nothing',
  'Whenever a tree, attribute, character data or value operation returns an error, every node, its links, attributes, namespace mappings and data, and its document\'s identifier map are as they were before the call.',
  ['inputs', 'histories'], 'every mutating operation, every error it can return and every state it can be called in',
  'The tests check that errors are returned, hardly ever that the tree is intact afterwards; each early mutation before a late check is a separate failing input.', [TI, NI], ['insert_before', 'replace_child', 'remove_child', 'set_attribute_node'])
NA = 'src/level2/ext/namespaced.rs'
NM = 'src/shared/name.rs'
TX = 'src/shared/text.rs'
CV = 'src/level2/convert.rs'
P('C06', 'Observing operations change nothing',
  'Operations that only observe (navigation, names, types, values, attribute and identifier look-ups, accessors, character data reads, conversions, namespace look-ups, feature tests, searches and display) leave every node, link, attribute, mapping, document and data exactly as it was.',
  ['inputs', 'histories'], 'every observing operation on every node type in every state',
  'The tests look at results, never at whether a look-up moved, created or cached something that later calls see.', [TI, NA, CV], ['node_name', 'get_attribute', 'child_nodes', 'resolve_namespace'])
P('C07', 'Shared handles never trip over each other',
  'No public operation panics because a node is already borrowed: handles to the same node may be passed as several arguments at once (a node with itself, its parent, its sibling, its document or its owner element), and every operation releases its access to a node before touching another one that may be the same.',
  ['inputs', 'histories'], 'every public operation and every aliasing between its arguments and the nodes reached from them',
  'A conflicting borrow shows only for a particular aliasing of arguments or neighbours (a node inserted before itself, an attribute put on its own element); the tests pass distinct, freshly made nodes.', [TI, 'src/shared/rc_cell.rs', NI], ['insert_before', 'set_attribute_node', 'RcRefCell::borrow_mut'])
P('C08', 'An element\'s attributes and their owner elements agree',
  'After every attribute operation an element has at most one attribute of any qualified name and at most one of any namespace and local name, and each attribute\'s owner element is the element that holds it. Setting an attribute replaces exactly the attributes of the same qualified name or same namespace and local name; removing one takes out exactly that attribute and clears its owner element (NotFound if the element does not hold it), and an attribute of another element is rejected with InUseAttribute, one of another document with WrongDocument.',
  ['histories', 'inputs'], 'every element with any number of attributes, every attribute name, and every relation of the attribute with the element',
  'The tests set and get a few plain names; replacement by namespace, re-adding, moving between elements and removal of foreign attributes are combinations they never reach.', [TI], ['set_attribute_node', 'remove_attribute_node', 'set_attribute'])
P('C09', 'get_element_by_id follows attribute changes',
  'A document\'s identifier map always maps an identifier to the element that last had an identifier attribute of that value set: setting an attribute that counts as an identifier (local name id with prefix xml or in the XML namespace, or with the assume-ids option) adds exactly that entry, removing or replacing it removes the entry, and attributes that are no identifiers leave the map alone. get_element_by_id returns exactly the element of that map.',
  ['histories', 'inputs'], 'every attribute name, value and document option, and every identifier map before the call',
  'The tests cover one identifier on one element with each option; replaced, removed and re-set identifiers among other entries are not sampled.', [TI, NM], ['set_attribute_node', 'remove_attribute_node', 'get_element_by_id', 'is_id_attribute'])
P('C10', 'Namespace declarations follow xmlns attributes',
  'Setting an attribute of the XMLNS namespace named xmlns or xmlns:p on an element declares the attribute\'s value as the default namespace, respectively as the namespace of prefix p, on exactly that element, and removing or replacing such an attribute removes exactly that declaration; any other attribute leaves the declarations alone.',
  ['histories', 'inputs'], 'every attribute name and value, and every set of declarations before the call',
  'The tests declare one or two namespaces; replacing and removing declarations among others, and attributes that merely look like declarations, are not sampled.', [TI, NA, NM], ['set_attribute_node', 'remove_attribute_node', 'insert_mapping', 'remove_mapping'])
P('C11', 'Factories create detached nodes of the right kind, name and content',
  'Every create operation of a document and of the implementation returns a new node of exactly the requested type, name and content, without parent and children, owned by the document it was created from (a document type becomes owned by the document it is put in), and changes no other node. A malformed name is rejected with InvalidCharacter or Syntax, a namespace not permitted for the prefix or local name with Namespace, and a document type already in use with WrongDocument.',
  ['inputs'], 'every factory with every name, namespace, prefix, data and identifier string',
  'The tests call each factory with one or two good names and look at few fields of the result.', [TI, 'src/level2/dom_impl.rs', 'src/level2/ext/dom_impl.rs', NI], ['create_element_ns', 'create_document', 'create_attribute_with'])
P('C12', 'Every conversion accepts exactly its node types and keeps the node',
  'For each interface, the is_ test is true, the shared conversion succeeds and the mutable conversion succeeds exactly for the node types that implement it (character data for Text, CDATASection and Comment), and otherwise they report false, respectively InvalidState. A conversion returns the very node it was given, and node_type is the type the node was created with.',
  ['inputs'], 'all 15 interfaces with all 12 node types',
  'The tests convert nodes to their own type; a wrong entry shows only for one of the 180 pairs.', [CV, 'src/level2/ext/convert.rs', 'src/shared/convert.rs', TI], ['as_element', 'is_text', 'as_character_data_mut'])
P('C16', 'Character data operations honour offsets and counts exactly',
  'substring_data, insert_data, delete_data, replace_data, append_data, set_data and unset_data compute exactly the string edit their arguments describe: an offset past the data or inside a character is IndexSize, a count reaching past the end stops at the end, and the text outside the range is kept byte for byte. No offset or count, however large, panics or overflows, and a failing call leaves the data alone.',
  ['inputs'], 'every data string, new string, offset and count, including multi-byte characters, the ends of the data and the largest integers',
  'Tests use short ASCII strings and small offsets; the contract is about all offsets and counts, including overflow and character boundaries.', [TI], ['insert_data', 'delete_data', 'replace_data', 'substring_data'])
P('C18', 'Navigation and names report the stored tree',
  'parent_node, owner_document, child_nodes, first_child, last_child, previous_sibling, next_sibling, has_child_nodes and attributes agree with one another and with the tree: siblings are the neighbours in the parent\'s child list, and an attribute has neither parent nor siblings. node_name, namespace_uri, prefix, local_name, tag_name and target report the name the node was created with.',
  ['inputs', 'histories'], 'every node type, any number of children and every position in the child list',
  'The tests navigate small fixed trees; first, middle, last and only child, detached nodes and attributes are separate cases for every operation.', [TI], ['previous_sibling', 'next_sibling', 'parent_node', 'child_nodes'])
P('C20', 'Attribute look-ups by name and by namespace agree with the attribute map',
  'has_attribute, get_attribute and get_attribute_node find exactly the attribute of the given qualified name, and their _ns forms exactly the attribute of the given namespace and local name, whatever its prefix; they report absence for a malformed name and for nodes that are no elements. remove_attribute and remove_attribute_ns remove exactly that attribute and succeed without effect if there is none.',
  ['inputs'], 'every element with any attributes and every name and namespace asked for',
  'The tests look up names they have just set; near misses (same local name, other prefix or namespace) are not sampled.', [TI], ['get_attribute_node_ns', 'has_attribute', 'remove_attribute'])
P('C21', 'Node values exist exactly where the DOM defines them',
  'node_value is the data of Text, CDATASection, Comment and ProcessingInstruction nodes; set_node_value and unset_node_value change exactly that value and succeed without any effect on every other node type. A processing instruction\'s data and length report that value.',
  ['inputs'], 'every node type, any present value and any new value',
  'The tests set values on a few node types; the absence of effects on the other types is not tested.', [TI], ['node_value', 'set_node_value', 'unset_node_value'])
P('C25', 'Feature tests answer the DOM feature table',
  'has_feature is true exactly for the features Core and XML, ignoring case, with version 1.0, 2.0 or the empty string, and is_supported on any node gives the same answer as has_feature.',
  ['inputs'], 'every feature and version string',
  'The tests try listed names; only the analysis covers all other strings and case variants.', ['src/level2/dom_impl.rs', TI], ['has_feature', 'is_supported'])
P('C29', 'Splitting a text node loses nothing',
  'Text::split at an offset within the data on a character boundary leaves the first part in the node and returns a new text node of the same document with the rest, inserted as its next sibling if the node has a parent; nothing else changes. A split that fails leaves the node and its siblings alone.',
  ['inputs', 'histories'], 'every data string and offset, with and without parent and siblings',
  'The tests split one ASCII string; escaped and multi-byte characters, the last position in the parent and detached nodes differ.', [TI], ['split', 'insert_before'])
P('C31', 'Public operations never panic',
  'No public operation on a node panics, whatever node types, aliases, strings and numbers it is given: a misuse is reported as an error, or answered with an empty result, and arithmetic never overflows. (The unimplemented normalize_mappings and creating an XML declaration with an invalid encoding name are outside this guarantee.)',
  ['inputs', 'histories'], 'every public operation, node type, argument and aliasing between arguments',
  'A panic needs a particular input (a wrong node type behind a handle, an offset inside a character, an empty name); the tests assert results on good inputs.', [TI, NI, NA, TX], ['unwrap', 'panic', 'borrow_mut'])
P('C35', 'Documents and declarations report what they were given',
  'A document reports its document type, its implementation, its XML declaration and, as document element, its first element child; a document type its public and system identifiers, internal subset, entities and notations; an entity and a notation their identifiers. Setting the XML declaration of a document replaces exactly that, and setting it on any other node is InvalidState.',
  ['inputs'], 'every document, document type, entity and notation in any state',
  'The tests read back single values; comments and instructions before the root, absent identifiers and swapped fields are not sampled.', [TI, 'src/level2/ext/trait_impls.rs'], ['document_element', 'doc_type', 'public_id', 'set_xml_declaration'])
DS = 'src/shared/display.rs'
P('C13', 'Only valid XML names become names, and they keep their parts',
  'A string is accepted as a name exactly if it is one or two non-empty XML name parts separated by at most one colon (bytes exactly if they are UTF-8 of such a string); otherwise the result is Syntax or InvalidCharacter. A qualified name with a namespace is rejected with Syntax if the namespace is empty, and with Namespace if its prefix or local name is xml or xmlns and the namespace is not the one reserved for it. An accepted name reports exactly the given prefix, local name and namespace, displays as prefix:local, and says correctly whether it names an identifier or a namespace declaration; replacing its prefix follows the same rules.',
  ['inputs'], 'every string, byte string and namespace given as a name',
  'Tests try a few good and bad names; every other position of a bad character, multi-byte first characters and combinations of prefix and namespace stay untested.', [NM, TX], ['from_str', 'new_ns', 'is_xml_name', 'is_id_attribute'])
P('C14', 'Character classes and escaping follow the XML specification',
  'The name start, name, XML 1.0 and 1.1 character, restricted character and white space classes contain exactly the code points that the XML productions list (0 is in none of them), and a string is a Name or Nmtoken exactly if its characters are. Comments and text report their data with exactly the five markup characters & < > \' " replaced by their decimal character references, CDATA sections and processing instructions unchanged.',
  ['inputs'], 'all 1,114,112 code points for every class, and every string',
  'The tests probe some range ends; one wrong bound of one range is one code point among a million.', [TX], ['is_xml_name_start_char', 'is_xml_name_char', 'is_xml_10_char', 'escape'])
P('C15', 'Display writes each node type\'s markup and passes errors on',
  'Displaying a node writes exactly the documented form of its type (element tags with all attributes and all children in order, name="value", escaped text, CDATA, comment, instruction, reference, declarations with the identifiers they have, and a document\'s declaration, type and children in this order), identically in the alternate form. When the sink refuses a write, the operation stops writing and returns the error; otherwise it succeeds.',
  ['inputs', 'fault points'], 'every node of all 12 types with any attributes, children and absent or present identifiers, and a refused write at any point',
  'The tests display a few documents into a string, which never refuses a write; absent identifiers, several children and the failing write are not sampled.', [DS], ['fmt_element', 'fmt_document_type', 'fmt_entity'])
P('C19', 'Tag-name searches find exactly the matching descendants, in order',
  'get_elements_by_tag_name on an element returns, in document order, exactly the descendant elements whose qualified name is the given one, or all for *; get_elements_by_tag_name_ns those with the given namespace and local name, * matching any of either. On a document the search covers the document element itself and everything below it.',
  ['inputs'], 'every element and document, every name and namespace asked for, every shape of the subtree (by induction over the tree)',
  'The tests search two small trees; order, depth, the starting element and wildcards combine in ways they do not sample.', [TI], ['get_elements_by_tag_name', 'get_elements_by_tag_name_ns'])
P('C22', 'Processing options are independent flags',
  'New and default options have none of the three flags; setting one flag turns on exactly that flag and leaves the others; a query reports exactly its flag and has_none exactly that all are off. Combining two options with & and | combines each flag separately, and display lists exactly the flags that are on.',
  ['inputs', 'histories'], 'all combinations of flags before every operation',
  'The tests set flags one at a time on fresh options; a bit shared by two flags shows only in combination.', ['src/level2/ext/options.rs'], ['set_assume_ids', 'has_none', 'bitor'])
P('C23', 'Options of a document decide namespace and identifier processing',
  'Namespace look-ups and prefix resolution find something only in documents with the add-namespaces option, and namespace declarations are recorded only there; without the assume-ids option only xml:id attributes enter the identifier map, with it every attribute whose local name is id.',
  ['inputs', 'histories'], 'every combination of options with every look-up and every attribute set or removed',
  'The tests create documents with the option they need; the behaviour with the option off, or the other one on, is not sampled.', [NA, TI, NM], ['is_namespaced', 'set_attribute_node', 'is_id_attribute'])
P('C24', 'Namespaces resolve to the nearest declaration',
  'In a document with the add-namespaces option, contains_mapping and get_namespace report the namespace an element itself declares for a prefix (or by default), get_prefix and contains_mapped_namespace a prefix it declares for a namespace; resolve_namespace and resolve_prefix report that of the nearest ancestor-or-self with such a declaration, and nothing if there is none. Nodes other than elements declare nothing themselves.',
  ['inputs'], 'every node, prefix and namespace, any declarations and any depth (by induction over the ancestors)',
  'The tests resolve through one or two levels; shadowing, several prefixes for one namespace and starting from other node types are not sampled.', [NA], ['resolve_namespace', 'resolve_prefix', 'get_prefix'])
P('C26', 'XML declarations keep and write what they were given',
  'A new XML declaration panics exactly if the encoding is not an encoding name (a letter, then letters, digits, dots, underscores and hyphens), and otherwise reports exactly the version, encoding and standalone flag given. Versions are read from and written as 1.0 and 1.1 and nothing else, the default declaration is version 1.0 alone, and display writes version, encoding and standalone in this order, each only if present.',
  ['inputs'], 'every version, encoding string and standalone value',
  'The tests write a few declarations; the encoding syntax and the combinations of absent parts are not sampled.', ['src/level2/ext/decl.rs'], ['XmlDecl', 'XmlVersion', 'fmt'])
P('C27', 'A clone is a detached copy of the node',
  'clone_node returns a new node of the same type, name, value and owner document without a parent, and leaves the original unchanged. A deep clone of a node other than a document has deep copies of all children in order with their parent set, a shallow one no children; an element\'s clone, deep or shallow, has copies of all attributes (with the clone as owner element) and the same namespace declarations, and clones of document types, entities and notations have the same identifiers.',
  ['inputs'], 'every node type, deep and shallow, any attributes and any subtree (by induction)',
  'The tests clone one small element; copied links to the original, missing attributes and identifiers and the order of children need other shapes.', [TI], ['clone_node'])
P('C28', 'normalize merges adjacent text and nothing else',
  'After normalize, every run of adjacent text nodes among the children is one text node (the first of the run) with their concatenated data, text nodes without data are gone, and removed nodes have no parent; all other children, their order and their data stay. The same holds in every subtree and in an element\'s attributes, and no other state changes.',
  ['inputs', 'histories'], 'every node type, any mix of children and any depth (by induction)',
  'The tests normalise two or three text nodes; runs at the end, empty nodes between others, nested runs and other node types with data are combinations they do not reach.', [TI], ['normalize'])
P('C32', 'The value of an attribute is its text',
  'The value of an attribute is absent without children and otherwise the escaped normal form of the concatenated text of its text and entity reference children. Setting it replaces all children by one text node of the same document with exactly that text and the attribute as parent, unsetting it removes all children; removed children have no parent, and nothing else changes.',
  ['inputs', 'histories'], 'every attribute with any children, and every new value',
  'The tests set plain values on new attributes; previous children, absent data and other child types are not sampled.', [TI], ['value', 'set_value', 'unset_value'])

P('C36', 'Attribute values are reported in normal form',
  'In the reported value of an attribute every line end (CR LF, CR NEL, CR, NEL, LINE SEPARATOR), tab and line feed of its text is one space, and spaces at both ends are removed. Decimal and hexadecimal character references are replaced by their characters as they are, references to entities declared in the document type by their value, normalised the same way but not trimmed; any other reference is kept as text, and reading never fails. The markup characters of the result are reported as decimal character references.',
  ['inputs'], 'every attribute text; decided for all texts of up to three characters, all two-character contents of decimal, hexadecimal and entity references, and listed longer texts',
  'The tests normalise four plain strings; references to characters that do not exist, digits of other scripts, unknown entities and multi-byte characters before a reference are not among them.', [TX, TI, 'src/level2/entity_resolver.rs'], ['normalize_attribute_value', 'normalize_end_of_lines', 'resolve'])
P('C37', 'A displayed document reads back as the same tree',
  'Reading the text that display writes for a document gives a document with the same tree, names, attributes and data.',
  ['inputs'], 'every document', 'Tests compare a few displayed strings; nothing is read back.', [DS, 'src/parser/mod.rs'], ['fmt_document', 'read_xml'],
  na='The parser feature does not compile at this commit with the locked dependencies, and the forms the existing tests pin (escaped comments, spaces inside CDATA, PUBLIC and SYSTEM keywords together) are not XML that reads back; there is no current code to decide this on.')
P('C38', 'Depth of the tree does not exhaust the stack',
  'Cloning, normalising, displaying, searching and dropping a tree work for trees of any depth.',
  ['inputs'], 'every depth of nesting', 'Tests use trees of depth two or three.', [TI, DS], ['clone_node', 'normalize', 'fmt_node'],
  na='All of these recurse once per level, so whether a depth fits is a matter of frame sizes and of the stack the calling thread has; no static argument about the source bounds either.')
