"""Every operation of every public interface on nodes of every type (the interfaces are implemented for the one
handle type, so nothing keeps a caller from using them on another kind of node), with the document alive or
dropped: none panics, reading operations change nothing, and failing ones neither."""
from suite import *

# operations that s_tree, s_attr, s_char, s_nav ... analyse for all types already with all their arguments
ELSEWHERE = {'insert_before', 'replace_child', 'append_child', 'remove_child'}
# excluded from the guarantee (see C31): unimplemented, and an accessor that cannot answer for other nodes
OUTSIDE = set()
TRAITS = ['Attribute', 'CharacterData', 'Document', 'DocumentType', 'Element', 'Entity', 'Node', 'Notation', 'ProcessingInstruction', 'Text', 'DocumentDecl', 'Namespaced']

API = {
    'Attribute': ['value', 'set_value', 'unset_value', 'specified', 'owner_element'],
    'CharacterData': ['length', 'data', 'set_data', 'unset_data', 'substring_data', 'append_data', 'insert_data', 'delete_data', 'replace_data'],
    'Document': ['doc_type', 'document_element', 'implementation', 'create_attribute', 'create_attribute_with', 'create_attribute_ns', 'create_cdata_section', 'create_document_fragment', 'create_entity_reference', 'create_comment', 'create_element', 'create_element_ns', 'create_processing_instruction', 'create_text_node', 'get_element_by_id'],
    'Element': ['tag_name', 'get_attribute', 'set_attribute', 'remove_attribute', 'get_attribute_node', 'set_attribute_node', 'remove_attribute_node', 'get_attribute_ns', 'set_attribute_ns', 'remove_attribute_ns', 'get_attribute_node_ns', 'has_attribute', 'has_attribute_ns'],
    'ProcessingInstruction': ['length', 'data', 'set_data', 'unset_data', 'target'],
    'Text': ['split'],
    'Namespaced': ['contains_mapping', 'get_namespace', 'resolve_namespace', 'contains_mapped_namespace', 'get_prefix', 'resolve_prefix'],
    'DocumentDecl': ['xml_declaration'],
    'Node': ['owner_document', 'parent_node', 'previous_sibling', 'next_sibling', 'namespace_uri', 'prefix', 'local_name'],
}
CASES = [(t, m) for t in API for m in API[t]]

def arg(X, t, n):
    """an arbitrary argument of type t"""
    s = t['s']
    if s.startswith('&') and t['e'] is not None and X.prog.T[t['e']]['k'] == 'str': return X.rs('arg%d' % n)
    if t['k'] in ('uint', 'int'): return X.usize('arg%d' % n)
    if t['k'] == 'bool': return Sym(X.P, 'bool', 'arg%d' % n)
    if 'NodeRef' in s or 'RcRefCell' in s: return X.h(X.node('arg%d' % n, ANYT - {'Document'}, owner=X.D, parent=None))
    if t['k'] == 'adt' and short(t['p']) == 'Option': return some(arg(X, X.prog.T[t['a'][0]], n)) if X.pick('arg%d' % n, ['none', 'some']) == 'some' else NONE
    raise Anchor('an argument of type %s' % s)

def run(X, dropped):
    tr, me = X.case
    D = X.D = X.doc('doc')
    o = X.node('self', ANYT - {'Document'} if dropped else ANYT, owner=D if dropped else 'lazy', parent=None if dropped else 'lazy')
    if dropped: D.dead = True
    t = [t for t in X.prog.d['traits'] if t['p'].endswith('traits::' + tr)]
    m = [m for x in t for m in x['m'] if m[0] == me]
    if not m: raise Anchor('%s::%s' % (tr, me))
    ins = [X.prog.T[i] for i in m[0][3]]
    args = [arg(X, t, i) for i, t in enumerate(ins[1:])]
    X.m(tr, me, X.r(o), *args)
    if not X.no_panic('C31'): return
    k, v = X.result()
    if not ins[0].get('m'): X.unchanged('C11' if me.startswith('create') else 'C06')
    elif k == 'err': X.unchanged('C05', 'failed')

@sc('any node', 'C31 C05 C06 C11', cases=CASES, K=1, KM=1)
def _(X): run(X, False)

@sc('document dropped', 'C31 C05 C06 C11', cases=CASES, K=1, KM=1)
def _(X): run(X, True)
