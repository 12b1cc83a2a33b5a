#!/bin/bash
# validate.sh ID: does the planted bug count?  (scratch copies under /tmp/w/v)
id=$1; s=/verif/seeded/$id; w=/tmp/w/v/$id
rm -rf "$w"; mkdir -p "$w"
cp -a /repo "$w/repo" && cd "$w/repo" || exit 2
git apply "$s/patch.diff" || { echo "$id: DOES NOT APPLY"; rm -rf "$w"; exit 1; }
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_BUILD_JOBS=3
mkdir "$w/logs"
cargo check -q --lib --features fastrand,oorandom --offline >"$w/logs/lib.txt" 2>&1 || { echo "$id: DOES NOT BUILD"; grep -E "^error" -A8 "$w/logs/lib.txt" | head -30; rm -rf "$w"; exit 1; }
timeout 800 cargo test --workspace --no-fail-fast --offline >"$w/logs/workspace.log" 2>&1
(cd test_no_std && timeout 800 cargo test --features graph_safe_compare/wyrng --no-fail-fast --offline >"$w/logs/no_std.log" 2>&1)
python3 /opt/vp/results.py "$w/out.json" "cargo:$w/logs/*.log" >/dev/null 2>&1
bad=$(python3 - "$w/out.json" <<'P'
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
try: o = json.load(open(sys.argv[1]))
except Exception as e: print('no results', e); sys.exit()
p = o.get('passed', o.get('pass', []))
p = set(p if isinstance(p, list) else p.keys())
m = sorted(b - p)
if m: print(len(m), m[:4])
P
)
mkdir "$w/demo"; cp -r "$s/." "$w/demo/"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
(cd "$w/repo" && timeout 300 sh "$w/demo/demo.sh" >"$w/d1" 2>&1); r1=$?
(cd /repo && timeout 300 sh "$w/demo/demo.sh" >"$w/d0" 2>&1); r0=$?
echo "$id: tests=${bad:-ok} demo(unpatched)=$r0 demo(patched)=$r1"
if [ -n "$bad" ]; then grep -E "^error" -A6 "$w/logs/workspace.log" | head -12; fi
if [ $r0 != 0 ]; then tail -12 "$w/d0"; fi
if [ $r1 != 0 ]; then echo "    $(grep -v '^note' "$w/d1" | tail -3 | tr '\n' ' ' | cut -c1-250)"; fi
rm -rf "$w"
