#!/bin/bash
# all planted bugs (or those given), with the property of each; output to /tmp/w/trial.out
cd /verif/seeded
{ if [ $# -gt 0 ]; then printf '%s\n' "$@"; else ls; fi; } | sed 's#.*#/verif/seeded/&/patch.diff#' | xargs -P ${PAR:-4} -n 1 timeout 800 /verif/tools/trial.sh > /tmp/w/trial.out 2>&1
python3 - <<'P'
import json, re
for l in open('/tmp/w/trial.out'):
    m = re.match(r'== (\S+)-patch: (.*)', l)
    if m:
        p = json.load(open('/verif/seeded/%s/meta.json' % m.group(1)))['property']
        print('%s %-32s %s %s' % ('caught' if p in m.group(2) or 'CLIENT' in m.group(2) else 'MISSED', m.group(1), p, m.group(2)))
    elif 'DOES NOT' in l: print(l.strip())
P
