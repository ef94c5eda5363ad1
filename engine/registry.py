"""what runs for which property"""
import s_tree, s_attr, s_char, s_create, s_nav, s_text, s_ns, s_display, s_clone, s_misuse

STATIC = {}      # property -> [(id, function(env, tier) -> {'obligations', 'viol': [{'key','message',...}], 'analysed'})]

def static(id, props):
    def deco(f):
        for p in props.split(): STATIC.setdefault(p, []).append((id, f))
        return f
    return deco

RULE = ('every clause is evaluated on every element of the trace partition of the abstract pre-states of the listed scenarios; an element whose analysis met '
        'an unmodelled construct is counted as undecided and decides nothing; an element outside the bounds of the shape domain is counted, not analysed')
DEFAULT_EXPLANATION = ('Abstract interpretation of the type-checked MIR of the current tree: the public operations are interpreted over abstract heaps '
        '(nodes with lazily refined types and links, list and map segments, symbolic strings with linear length constraints); their abstract results, '
        'post-states, field writes and panics are compared with the specification of the property.')
EXPLANATION = {}
ASSUMPTIONS = [
    'the models of the standard library functions (engine/stdm.py) are faithful',
    'the pre-states satisfy the representation invariant that the C04 and C08 clauses re-establish',
    'MIR is produced by the pinned nightly compiler from the same source the stable compiler builds',
]
