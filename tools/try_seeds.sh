#!/bin/bash
# try_seeds.sh confirm|catch [id...]
#  confirm: in a scratch copy, the demo passes without the patch; with it the tests pass and the demo fails
#  catch:   applies the patch to /repo, runs the property's check (SECS of exploration), undoes it
export DEMO_TARGET=/tmp/demotarget
mode=$1; shift
cd "$(dirname "$0")/../seeded" || exit 3
[ $# -eq 0 ] && set -- *
[ -d /tmp/seedrepo ] || cp -a /repo /tmp/seedrepo
run() {
  s=$PWD/$1
  if [ $mode = confirm ]; then
    git -C /tmp/seedrepo checkout -q -- .
    ( cd /tmp/seedrepo && timeout 290 bash "$s/demo.sh" ) >/tmp/seed.out 2>&1; a=$?
    git -C /tmp/seedrepo apply "$s/patch.diff" || { echo "$1 DOES NOT APPLY"; return; }
    ( cd /tmp/seedrepo && . /opt/vp/env.sh && CARGO_TARGET_DIR=/tmp/seedrepo/target timeout 600 cargo test --workspace --offline -- --test-threads 8 ) >/tmp/seed.test 2>&1; t=$?
    ( cd /tmp/seedrepo && timeout 290 bash "$s/demo.sh" ) >/tmp/seed.out2 2>&1; b=$?
    git -C /tmp/seedrepo checkout -q -- .
    r=BAD; [ $a = 0 ] && [ $b != 0 ] && [ $t = 0 ] && r=ok
    echo "$1 $r (without: $a, tests: $t $(grep -m1 -o '[0-9]* passed' /tmp/seed.test), with: $b $(tail -1 /tmp/seed.out2))"
    [ $r = BAD ] && { tail -5 /tmp/seed.out; grep -E "^error|FAILED|panicked" /tmp/seed.test | head -5; }
  else
    p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" $s/meta.json)
    git -C /repo apply "$s/patch.diff" || { echo "$1 DOES NOT APPLY"; return; }
    t0=$SECONDS
    ../check.sh $p --secs ${SECS:-25} --verif /tmp/v >/tmp/seed.chk 2>&1; c=$?
    git -C /repo checkout -q -- .
    if [ $c = 1 ] && grep -q "^VIOLATION property=$p " /tmp/seed.chk; then
      echo "$1 caught by $p in $((SECONDS-t0)) s: $(grep -m1 -E '^  [a-z_]+:' /tmp/seed.chk | cut -c1-150)"
    else
      echo "$1 MISSED by $p (exit $c) $(tail -1 /tmp/seed.chk | cut -c1-100)"
    fi
  fi
}
for i in "$@"; do run $i; done
