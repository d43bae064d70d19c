#!/bin/bash
# bug.sh make ID : takes the uncommitted change in /repo as the patch of seeded/ID, confirms it (build, tests, demo both ways), undoes it
# bug.sh check ID PROP.. : applies it, runs the quick checks, undoes it
set -u
cmd=$1; id=$2; shift 2; d=/verif/seeded/$id
undo() { git -C /repo checkout -q -- . ; }
case $cmd in
make)
  git -C /repo diff --quiet && [ ! -f $d/patch.diff ] && { echo "no change"; exit 1; }
  mkdir -p $d; git -C /repo diff --quiet || git -C /repo diff > $d/patch.diff
  undo; bash /opt/vp/build.sh > /tmp/bug.build 2>&1 || { tail /tmp/bug.build; exit 1; }
  if [ ! -f $d/demo.sh ]; then cat > $d/demo.sh <<'X'
#!/bin/bash
# Builds the program beside it against the library in _build and runs it.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -g -O1 -w -o "$t/demo" "$d/demo.c" -I src -I _build/src $(pkg-config --cflags gio-unix-2.0) -L _build/src -ldex-1 $(pkg-config --libs gio-unix-2.0) -lpthread || exit 2
cd "$t" && LD_LIBRARY_PATH=$OLDPWD/_build/src timeout 100 ./demo
X
  fi
  (cd /repo && bash $d/demo.sh) > /tmp/bug.clean 2>&1; r=$?; [ $r = 0 ] || { echo "demo fails on the clean tree ($r)"; tail -5 /tmp/bug.clean; exit 1; }
  git -C /repo apply $d/patch.diff || exit 1
  bash /opt/vp/build.sh > /tmp/bug.build 2>&1 || { grep -E "error" /tmp/bug.build | head; undo; exit 1; }
  bash /opt/vp/test.sh /tmp/bug.json > /tmp/bug.test 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/bug.json'))
s=b.get('stable') or b.get('passed') or b.get('tests') or b
s=set(s if isinstance(s,list) else s.get('passed',[]))
print('baseline',len(s),'missing',sorted(s-set(r['passed'])))
P
  (cd /repo && bash $d/demo.sh) > /tmp/bug.demo 2>&1; r=$?; echo "demo with patch: $r"; tail -3 /tmp/bug.demo
  undo; bash /opt/vp/build.sh > /tmp/bug.build 2>&1
  ;;
check)
  git -C /repo apply $d/patch.diff || exit 1
  export DEXSIM_BUILD=/tmp/bugbuild; for p in "$@"; do python3 /verif/check.py $p 2>&1 | cut -c1-400; done
  undo ;;
esac
