#!/bin/bash
# checkone.sh PATCH CHECK...: the real checks, with this patch  (in a private mount namespace, on a copy of /repo)
p=$(realpath "$1"); shift
w=$(mktemp -d /tmp/w/one.XXXXXX)
git clone -q /repo "$w/repo" && cp /repo/Cargo.lock "$w/repo/" 2>/dev/null
git -C "$w/repo" apply "$p" && unshare -m sh -c "mount --bind $w/repo /repo; for c in $*; do python3 /verif/check.py \$c quick; done"
rm -rf "$w"
