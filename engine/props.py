"""Which rules, at which roots, make up each property.

A property is decided by: analyses of roots (each with the rules that speak about the property),
cross-root comparisons, and whole-program analyses.  The rules 'missing' and 'end' always count.  'undecided' is
no rule: it says that a path could not be analysed to its end, which is reported, and is no violation.
"""
from fnmatch import fnmatch

STEP = ['equiv_main', 'equiv_loop', 'edges_drain', 'callstack_main']
NEXT = ['queue_next', 'stack_next']
PUSH = ['queue_recur', 'stack_recur']
COLL = ['queue_*', 'stack_*', 'callstack_next', 'callstack_reset']
CLASSES = ['interleave_do_edges', 'class_*', 'rc_*', 'hash_map_*']
PREMADE = ['basic_equiv', 'deep_safe_equiv', 'wide_safe_equiv', 'cycle_safe_equiv', 'robust_equiv',
           'basic_limited_*', 'deep_safe_limited_*', 'wide_safe_limited_*',
           'cycle_safe_precheck_equiv', 'robust_precheck_equiv', 'precheck_interleave']
ANY = None

PROPS = {
    # the decision about a pair of nodes
    'C01': {'title': 'decision', 'parts': [
        (STEP, ['traverse', 'args', 'descend', 'branch', 'identity', 'node', 'edges', 'mismatch', 'result', 'first', 'loop', 'pairs']),
        (['cmp_*'], ANY), (NEXT + PUSH, ['pairs', 'result', 'mismatch']), (['unlimited_*', 'interleave_do_traverse'], ANY)]},
    'C02': {'title': 'edges', 'parts': [
        (['edges_drain', 'callstack_main'], ['pairs', 'first', 'args', 'mismatch', 'edges']),
        (['equiv_loop', 'equiv_main'], ['descend', 'loop', 'edges']),
        (NEXT + PUSH, ['pairs', 'result']), (['callstack_next'], ['pairs']), (['step_*'], ANY)]},
    'C03': {'title': 'mismatch', 'parts': [
        (STEP, ['mismatch', 'edges', 'pairs', 'first']), (NEXT, ['mismatch', 'pairs']), (['cmp_*_from_ord'], ANY)]},
    'C04': {'title': 'order', 'parts': [
        (['callstack_main', 'equiv_loop', 'edges_drain'], ['first', 'loop', 'pairs']),
        (NEXT + PUSH, ['order', 'pairs', 'result'])], 'cross': ['sides']},
    'C05': {'title': 'stack', 'parts': [
        (['interleave_do_edges', 'class_*'], ['weight', 'class', 'recursion', 'panic']),
        (['equiv_loop', 'equiv_main', 'queue_*', 'stack_*'], ['recursion'])], 'whole': ['stack']},
    'C06': {'title': 'skip', 'parts': [
        (['interleave_do_edges'], ['skip', 'record', 'class']),
        (['equiv_main', 'callstack_main'], ['branch', 'descend', 'args', 'result']),
        (['interleave_default', 'rc_*', 'hash_map_*', 'class_*'], ANY),
        (['cycle_safe_*', 'robust_*', 'precheck_interleave'], ['clean', 'modes', 'args'])]},
    'C07': {'title': 'classes', 'parts': [
        (CLASSES, ['class', 'weight', 'record', 'skip', 'handle', 'table', 'clean', 'panic', 'recursion', 'progress'])]},
    'C08': {'title': 'phases', 'parts': [
        (['interleave_do_edges'], ['phase', 'panic', 'draw']), (['const_*'], ANY), (['interleave_default'], ANY),
        (['rng_wyrng', 'rng_oorandom', 'rng_fastrand'], ['range', 'draw'])]},
    'C09': {'title': 'progress', 'parts': [
        (['interleave_do_edges'], ['phase', 'progress', 'record', 'class']), (['const_*'], ANY),
        (['hash_map_*', 'rc_*'], ['table', 'handle', 'clean']),
        (NEXT, ['pairs', 'lazy']), (['cycle_safe_*', 'robust_*'], ['modes', 'runs'])]},
    'C10': {'title': 'limit', 'parts': [
        (['limited_*'], ANY), (['equiv_main', 'equiv_loop', 'callstack_main'], ['traverse', 'error', 'pairs', 'first', 'loop', 'descend']),
        (NEXT + PUSH, ['pairs']),
        (['*_limited_*'], ['limit', 'modes', 'runs', 'error', 'result'])]},
    'C11': {'title': 'errors', 'parts': [
        (STEP, ['error', 'first', 'loop', 'result', 'traverse']), (PREMADE, ['error', 'result', 'runs']), (['precheck_interleave', 'precheck_error_*', 'interleave_error_*', 'limit_reached_*'], ANY)]},
    'C12': {'title': 'precheck', 'parts': [
        (['precheck_interleave', 'cycle_safe_precheck_equiv', 'robust_precheck_equiv'], ANY),
        (['precheck_error_*', 'interleave_error_*', 'limit_reached_*', 'equiv_from', 'equiv_into', 'queue_reset', 'stack_reset',
          'queue_from_callstack', 'stack_from_callstack', 'callstack_reset'], ANY),
        (['limited_do_traverse_u16', 'limited_do_edges_u16'], ANY)]},
    'C13': {'title': 'panics', 'parts': [(['*'], ['panic'])]},
    'C14': {'title': 'refid', 'parts': [(['refid_*'], ANY)]},
    'C15': {'title': 'step', 'parts': [(['step_*'], ANY), (['edges_drain', 'edges_next'] + NEXT, ['step'])]},
    'C16': {'title': 'cmp', 'parts': [(['cmp_*'], ANY)]},
    'C17': {'title': 'rng', 'parts': [(['rng_*'], ANY), (['interleave_do_edges'], ['draw']), (['const_interleave'], ANY)]},
    'C18': {'title': 'premade', 'parts': [(PREMADE, ANY), (['equiv_new', 'equiv_default'], ANY)],
            'whole': ['limits']},
    'C19': {'title': 'lazy', 'parts': [(NEXT, ['lazy', 'pairs', 'order']), (PUSH, ANY), (['queue_reset', 'stack_reset'], ANY)]},
    'C20': {'title': 'get_edge', 'parts': [
        (['edges_drain', 'callstack_main', 'equiv_main', 'equiv_loop'], ['count', 'pairs', 'branch', 'first']), (NEXT, ['count', 'pairs'])]},
    'C21': {'title': 'effects', 'parts': [
        (['interleave_default', 'equiv_default', 'equiv_new', 'hash_map_default', 'queue_default', 'stack_default'], ['clean']),
        (['*'], ['effect'])], 'whole': ['effects']},
    'C22': {'title': 'sides', 'parts': [
        (STEP, ['args', 'node', 'identity', 'pairs', 'branch', 'result', 'mismatch']), (NEXT, ['pairs', 'mismatch']), (PREMADE, ['args']),
        (PUSH, ['pairs'])]},
    'C23': {'title': 'reuse', 'parts': [
        (['equiv_from', 'equiv_into', 'equiv_new', 'equiv_default', 'queue_reset', 'queue_default', 'queue_from_callstack',
          'stack_reset', 'stack_default', 'stack_from_callstack', 'interleave_default', 'hash_map_default', 'class_default', 'rc_new'], ANY),
        (PREMADE, ['clean'])]},
    'C24': {'title': 'features', 'parts': [], 'whole': ['features']},
    'C25': {'title': 'unsafe', 'parts': [], 'whole': ['unsafe']},
    'C26': {'title': 'api', 'parts': [], 'whole': ['api']},
    'C34': {'title': 'room', 'parts': [(['room_*'], ANY)]},
    'C33': {'title': 'general', 'parts': [], 'whole': ['general']},
}

ALWAYS = ('missing', 'end')


def roots_of(pid, names):
    """{root: set of rules, or None for all}"""
    out = {}
    for pats, rules in PROPS[pid]['parts']:
        for n in names:
            if any(fnmatch(n, 'root_' + p) for p in pats):
                if rules is None or out.get(n, ()) is None:
                    out[n] = None
                else:
                    out[n] = out.get(n, set()) | set(rules)
    return out
