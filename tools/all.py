#!/usr/bin/env python3
"""Development aid: decides all properties at once (one extraction), and prints which of them alarm.
all.py [-v]   With -v, the alarms themselves.  FAST=1: without the builds of all sets of features, and the witnesses.
CFG='debug release': these configurations only."""
import os, sys, multiprocessing
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ThreadPoolExecutor
import check
from check import plan, props, whole

def main():
    verbose = '-v' in sys.argv
    check.build_driver()
    pick = os.environ.get('CFG', '').split()
    check._CFGS.update({c: x for c, x in check.configurations('quick').items() if not pick or c in pick})
    with ThreadPoolExecutor(8) as ex:
        got = dict(zip(check._CFGS, ex.map(lambda x: check.try_extract(*x), check._CFGS.values())))
    for c, r in got.items():
        if isinstance(r, check.Failed):
            print('DOES NOT COMPILE', c, [x for x in str(r).splitlines() if x.startswith('error')][:3])
            del check._CFGS[c]
    got = {c: got[c] for c in check._CFGS}
    check._FACTS.update({c: r[0] for c, r in got.items()})
    names = [(c, r) for c in got for r in sorted(plan.roots()) if check.there(r, check._CFGS[c][0])]
    miss = [x for x in names if x[1] not in got[x[0]][0]]
    first = {}
    for c, r in names:
        if (c, r) not in miss:
            first.setdefault(got[c][0][r]['hash'], (c, r))
    jobs = sorted(first.values(), key=lambda j: -len(got[j[0]][0][j[1]]['inst']) - (1000 if 'interleave_do' in j[1] or 'callstack_main' in j[1] else 0))
    with multiprocessing.get_context('fork').Pool(int(os.environ.get('J', '4'))) as pool:
        byjob = {(r['cfg'], r['root']): r for r in pool.imap(check.analyse, jobs, chunksize=1)}
    res = {x: byjob[first[got[x[0]][0][x[1]]['hash']]] for x in names if x not in miss}
    libs, refused = {c: x[1] for c, x in got.items()}, {c: x[2] for c, x in got.items()}
    wh = {w: check.whole_program(w, 'quick', libs, refused)[0] for w in ('stack', 'effects', 'general', 'unsafe', 'features', 'api', 'limits')
          if not (os.environ.get('FAST') and w in ('unsafe', 'features', 'api'))}
    al = {}
    for pid, spec in props.PROPS.items():
        want, vs = props.roots_of(pid, sorted(plan.roots())), []
        for c, r in names:
            if r not in want:
                continue
            rules = want[r]
            if (c, r) in miss and '*' in [x for ps, _ in spec['parts'] for x in ps]:
                continue
            if (c, r) in miss:
                vs.append('missing ' + r)
            else:
                vs += ['[%s] %s: %s (%s; %s)' % (v.rule, v.fn, v.msg, v.at, v.root) for v in res[c, r]['viol'] if rules is None or v.rule in rules or v.rule in props.ALWAYS or v.rule == 'undecided']
        if 'sides' in spec.get('cross', ()):
            vs += ['[%s] %s' % (v.rule, v.msg) for c in got if check.there('root_queue_next', check._CFGS[c][0])
                   for v in check.cross_sides([x for k, x in res.items() if k[0] == c])]
        for w in spec.get('whole', []):
            vs += ['[%s] %s' % (v.rule, v.msg) for v in wh.get(w, [])]
        if vs:
            al[pid] = sorted(set(vs))
    und = {p: [v for v in vs if v.startswith('[undecided]')] for p, vs in al.items()}
    al = {p: [v for v in vs if not v.startswith('[undecided]')] for p, vs in al.items()}
    al = {p: vs for p, vs in al.items() if vs}
    print('ALARMS:', ' '.join('%s(%s)' % (p, ','.join(sorted(set(v[1:v.index(']')] if v[0] == '[' else 'missing' for v in vs)))) for p, vs in al.items()) or 'none',
          ' UNDECIDED: ' + ' '.join(p for p in und if und[p]) if any(und.values()) else '')
    if verbose:
        allv = sorted(set(v for vs in list(al.values()) + list(und.values()) for v in vs))
        for v in allv[:int(os.environ.get('MAXV', '12'))]:
            print('   ', v[:400])
main()
