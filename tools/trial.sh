#!/bin/bash
# trial.sh PATCH...: which properties alarm with this patch?  (in a private mount namespace, on a copy of /repo)
for p in "$@"; do
    p=$(realpath "$p"); n=$(basename "$(dirname "$p")")-$(basename "$p" .diff)
    w=$(mktemp -d /tmp/w/trial.XXXXXX)
    git clone -q /repo "$w/repo" && cp /repo/Cargo.lock "$w/repo/" 2>/dev/null
    if ! git -C "$w/repo" apply "$p"; then echo "$n: DOES NOT APPLY"; rm -rf "$w"; continue; fi
    out=$(unshare -m sh -c "mount --bind $w/repo /repo && python3 /verif/tools/all.py -v" 2>&1)
    echo "== $n: $out"
    rm -rf "$w"
done
