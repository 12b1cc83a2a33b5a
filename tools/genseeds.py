#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in seeds/*.py.   genseeds.py [id ...]"""
import json, os, runpy, shutil, subprocess, sys, glob

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
PRELUDE = open(os.path.join(HERE, 'prelude.rs')).read()

RUN = '''#!/bin/sh
# Run with cwd /repo, after a build.  Exit 0: the property holds in this demonstration.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here/demo.rs" "$tmp/src/main.rs" && cp "$here/Cargo.lock" "$tmp/" || exit 2
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[features]
default = ["alloc"]
alloc = []
[dependencies]
graph_safe_compare = { path = "$repo", default-features = false, features = [%(feat)s] }
%(extra)s
EOF
export RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/t" CARGO_INCREMENTAL=0
cd "$tmp" && timeout 280 cargo run --offline -q %(prof)s 2>"$tmp/err"
rc=$?
tail -5 "$tmp/err"
exit $rc
'''
BUILDS = '''#!/bin/sh
# Run with cwd /repo, after a build.  Exit 0: the property holds in this demonstration.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/t" CARGO_INCREMENTAL=0
%(cmds)s
'''
# demo.rs must build (ok), and demo_bad.rs must not
REJECT = '''#!/bin/sh
# Run with cwd /repo, after a build.  Exit 0: the property holds in this demonstration.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here/Cargo.lock" "$tmp/" || exit 2
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[features]
default = ["alloc"]
alloc = []
[dependencies]
graph_safe_compare = { path = "$repo", default-features = false, features = [%(feat)s] }
EOF
export RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/t" CARGO_INCREMENTAL=0
cd "$tmp" || exit 2
cp "$here/demo_ok.rs" src/main.rs && timeout 140 cargo check --offline -q 2>/dev/null || { echo "the proper use is rejected"; exit 2; }
cp "$here/demo_bad.rs" src/main.rs
if timeout 140 cargo check --offline -q 2>/dev/null; then echo "the misuse compiles"; exit 1; fi
exit 0
'''


def main():
    want = set(sys.argv[1:])
    defs = []
    for f in sorted(glob.glob(os.path.join(HERE, 'seeds', '*.py'))):
        defs += runpy.run_path(f)['SEEDS']
    assert len({d['id'] for d in defs}) == len(defs), 'ids not unique'
    work = '/tmp/w/gen'
    shutil.rmtree(work, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', work], check=True)
    for d in defs:
        if want and d['id'] not in want:
            continue
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=work, check=True)
        bad = False
        for file, old, new in d['edits']:
            p = os.path.join(work, file)
            s = open(p).read()
            if s.count(old) != 1:
                print('%s: %r occurs %d times in %s' % (d['id'], old[:60], s.count(old), file))
                bad = True
                break
            open(p, 'w').write(s.replace(old, new))
        if bad:
            continue
        diff = subprocess.run(['git', 'diff'], cwd=work, check=True, capture_output=True, text=True).stdout
        o = os.path.join(OUT, d['id'])
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(o + '/patch.diff', 'w').write(diff)
        json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        feat = ', '.join('"%s"' % f for f in d.get('features', ['std', 'wyrng']))
        if 'cmds' in d:
            sh = BUILDS % {'cmds': d['cmds']}
        elif 'bad' in d:
            sh = REJECT % {'feat': feat}
            open(o + '/demo_ok.rs', 'w').write(PRELUDE + d['ok'])
            open(o + '/demo_bad.rs', 'w').write(PRELUDE + d['bad'])
            shutil.copy(os.path.join(HERE, 'Cargo.lock'), o)
        else:
            sh = RUN % {'feat': feat, 'extra': d.get('extra', ''), 'prof': d.get('prof', '')}
            open(o + '/demo.rs', 'w').write(PRELUDE + d['demo'])
            shutil.copy(os.path.join(HERE, 'Cargo.lock'), o)
        open(o + '/demo.sh', 'w').write(sh)
        os.chmod(o + '/demo.sh', 0o755)
    shutil.rmtree(work, ignore_errors=True)


main()
