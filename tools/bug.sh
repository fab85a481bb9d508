#!/bin/bash
# bug.sh verify <id>...   confirms a planted bug in a scratch copy
# bug.sh check <id> [prop] [tier]   runs a check against it in /repo and undoes it
here=$(cd "$(dirname "$0")/.." && pwd)
cmd=$1; shift
case $cmd in
verify)
    w=/tmp/bugrepo
    [ -d $w ] || cp -a /repo $w
    git -C $w fetch -q /repo HEAD && git -C $w checkout -q -- . && git -C $w reset -q --hard FETCH_HEAD
    for id in "$@"; do
        b=$here/seeded/$id
        git -C $w checkout -q -- .
        python3 - "$b/meta.json" <<'PY' || { echo "$id: meta.json"; continue; }
import json,sys
m=json.load(open(sys.argv[1])); assert set(m)>={"property","needs","what_it_breaks"}
PY
        d=$(mktemp -d); cp "$b"/* $d/; rm -f $d/*.diff $d/meta.json
        if [ -z "$SKIPCLEAN" ]; then
            (cd $w && timeout 290 bash $d/demo.sh) >/tmp/bug.out 2>&1 || { echo "$id: FAILS on the clean tree"; tail -5 /tmp/bug.out; rm -rf -- "$d"; continue; }
        fi
        if ! git -C $w apply "$b/patch.diff"; then echo "$id: does not apply"; rm -rf -- "$d"; continue; fi
        ok=1
        (cd $w && for p in svd-rs svd-parser svd-encoder; do cargo check -q --offline -p $p || exit 1; done) >/tmp/bug.out 2>&1 || { echo "$id: no build"; tail -20 /tmp/bug.out; ok=0; }
        (cd $w && cargo test -q --offline --workspace --all-features) >/tmp/bug.out 2>&1 || { echo "$id: tests fail"; grep -E 'FAILED|panicked|error' /tmp/bug.out | head; ok=0; }
        (cd $w && timeout 290 bash $d/demo.sh) >/tmp/bug.out 2>&1 && { echo "$id: demo does not notice"; ok=0; }
        tail -1 /tmp/bug.out | cut -c1-200
        git -C $w checkout -q -- .
        rm -rf -- "$d"
        [ $ok = 1 ] && echo "$id: ok"
    done
    ;;
check)
    id=$1
    b=$here/seeded/$id
    prop=${2:-$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" $b/meta.json)}
    git -C /repo diff --quiet || { echo "/repo is dirty"; exit 3; }
    git -C /repo apply "$b/patch.diff" || exit 3
    trap 'git -C /repo checkout -q -- .' EXIT
    "$here/check.sh" "$prop" "${3:-quick}" >/tmp/bugcheck.out 2>&1
    rc=$?
    git -C /repo checkout -q -- .
    echo "$id $prop rc=$rc $(grep -v '^VIOLATION' /tmp/bugcheck.out | head -1 | cut -c1-220)"
    ;;
esac
