"""Which monitor goes with which root."""
from specs import *

INTS = ('u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128', 'usize', 'isize')
TICKERS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize')

UNL, LIM, INT = 'basic::modes::unlimited::Unlimited', 'basic::modes::limited::Limited', 'cycle_safe::modes::interleave::Interleave'
CS, RQ, RS = 'basic::recursion::callstack::CallStack', 'deep_safe::recursion::queue::RecurQueue', 'wide_safe::recursion::stack::RecurStack'


def run(d, r):
    return {'descend': d, 'recur': r}


def roots():
    """{root: function making its monitor}"""
    p = {
        'equiv_main': lambda: StepMon('main'),
        'equiv_loop': lambda: StepMon('loop'),
        'edges_drain': lambda: StepMon('drain'),
        'callstack_main': lambda: StepMon('callstack'),
        'equiv_new': lambda: NewMon('new'),
        'equiv_default': lambda: NewMon('default'),
        'equiv_from': lambda: NewMon('from'),
        'equiv_into': lambda: NewMon('from'),
        'callstack_next': NoneMon,
        'callstack_reset': PlainMon,
        'unlimited_do_edges': AlwaysMon,
        'unlimited_do_traverse': AlwaysMon,
        'interleave_do_edges': InterleaveMon,
        'interleave_do_traverse': AlwaysMon,
        'interleave_default': InterleaveDefaultMon,
        'const_only_limit': lambda: ConstMon('only'),
        'const_no_limit': lambda: ConstMon('no'),
        'const_interleave': lambda: ConstMon('interleave'),
        'precheck_error_from_limit': PlainMon,
        'precheck_error_from_infallible': PlainMon,
        'interleave_error_from_infallible': PlainMon,
        'limit_reached_from_infallible': PlainMon,
        'basic_equiv': lambda: CallsMon([run(UNL, CS)]),
        'deep_safe_equiv': lambda: CallsMon([run(UNL, RQ)]),
        'wide_safe_equiv': lambda: CallsMon([run(UNL, RS)]),
        'cycle_safe_equiv': lambda: CallsMon([run(INT, CS)]),
        'robust_equiv': lambda: CallsMon([run(INT, RQ)]),
        'cycle_safe_precheck_equiv': lambda: CallsMon([run(LIM, CS), run(INT, CS)], 'const', 400),
        'robust_precheck_equiv': lambda: CallsMon([run(LIM, RQ), run(INT, RQ)], 'const', 400),
        'precheck_interleave': lambda: CallsMon([run(LIM, '::PrecheckRecurMode'), run(INT, '::InterleaveRecurMode')], 'const'),
        'hash_map_get': TableGetMon,
        'hash_map_insert': TableInsertMon,
        'hash_map_default': lambda: FreshMon('table'),
        'room_table': RoomMon,
        'rc_new': lambda: HandleMon('new'),
        'rc_clone': lambda: HandleMon('clone'),
        'rc_deref': lambda: HandleMon('deref'),
        'class_default': lambda: ClassMon('default'),
        'class_clone': lambda: ClassMon('clone'),
    }
    for k in ('queue', 'stack'):
        p[k + '_recur'] = PushMon
        p[k + '_next'] = NextMon
        p['room_%s_default' % k] = p['room_%s_from' % k] = RoomMon
        for r in ('reset', 'default', 'from_callstack'):
            p['%s_%s' % (k, r)] = EmptyMon
    for t in TICKERS:
        p['limited_do_edges_' + t] = AlwaysMon
        p['limited_do_traverse_' + t] = LimitMon
        p['basic_limited_' + t] = lambda: CallsMon([run(LIM, CS)], 'arg')
        p['deep_safe_limited_' + t] = lambda: CallsMon([run(LIM, RQ)], 'arg')
        p['wide_safe_limited_' + t] = lambda: CallsMon([run(LIM, RS)], 'arg')
    for g in ('wyrng', 'oorandom', 'fastrand'):
        p['rng_' + g] = RandMon
        p['rng_default_' + g] = PlainMon
    for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'partial_cmp', 'cmp', 'max', 'min', 'hash', 'clone'):
        p['refid_' + op] = (lambda op: lambda: RefIdMon(op))(op)
    for ty in ('bool', 'ordering'):
        for op in ('new_equiv', 'is_equiv', 'from_ord'):
            p['cmp_%s_%s' % (ty, op)] = (lambda ty, op: lambda: CmpMon(ty, op))(ty, op)
    for t in INTS:
        p['step_' + t] = StepIncMon
    return {'root_' + k: v for k, v in p.items()}
