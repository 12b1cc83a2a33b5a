#!/bin/bash
# validates given seeds (default: those without an entry "ok" in /tmp/w/val.ok)
cd /verif/tools; touch /tmp/w/val.ok
if [ $# -gt 0 ]; then printf '%s\n' "$@"; else for i in $(ls ../seeded); do grep -q "^$i\$" /tmp/w/val.ok || echo $i; done; fi | xargs -P 5 -I{} ./validate.sh {} > /tmp/w/val.out 2>&1
grep -E "tests=ok demo\(unpatched\)=0 demo\(patched\)=[1-9]" /tmp/w/val.out | cut -d: -f1 >> /tmp/w/val.ok
sort -u -o /tmp/w/val.ok /tmp/w/val.ok
