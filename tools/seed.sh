#!/bin/bash
# usage: tools/seed.sh ID...   confirm planted bugs in the scratch copy /tmp/seed (clone of /repo): unchanged demo passes, patch applies,
# builds, keeps the test suite green, makes the demo fail; then run the check of its property against the scratch copy.
S=/tmp/seed
[ -d $S ] || git clone -q /repo $S
git -C $S fetch -q /repo main && git -C $S checkout -q -f FETCH_HEAD && git -C $S clean -fdq -e _build
[ -f $S/_build/build.ninja ] || CC=gcc CXX=g++ cmake -S $S -B $S/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DEDO=ON -DEDO_USE_LIB=Eigen3 -DSMP=ON -DMPI=ON -DENABLE_CMAKE_EXAMPLE=ON -DENABLE_CMAKE_TESTING=ON -DCCACHE_PROGRAM=OFF -DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON >/dev/null
ninja -C $S/_build > /tmp/seed.log 2>&1 || { echo "clean build failed"; tail /tmp/seed.log; exit 1; }
for id in "$@"; do
  D=/verif/seeded/$id; ok=1
  (cd $S && timeout 300 bash $D/demo.sh > /tmp/seed.demo0 2>&1) || { echo "$id: demo FAILS on the unchanged tree"; tail -5 /tmp/seed.demo0; continue; }
  git -C $S apply $D/patch.diff || { echo "$id: does not apply"; continue; }
  ninja -C $S/_build > /tmp/seed.log 2>&1 || { echo "$id: does not build"; grep -m5 error /tmp/seed.log; ok=0; }
  if [ $ok = 1 ]; then
    ctest --test-dir $S/_build -j8 --timeout 300 -E '^t-moTimeContinuator$' > /tmp/seed.ctest 2>&1 || { echo "$id: tests fail:"; grep -A20 "tests FAILED" /tmp/seed.ctest; ok=0; }
    (cd $S && timeout 300 bash $D/demo.sh > /tmp/seed.demo1 2>&1) && { echo "$id: demo PASSES with the change"; ok=0; }
  fi
  if [ $ok = 1 ]; then
    P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
    (cd /verif && VERIF_REPO=$S timeout 900 python3 run.py $P --no-evidence > /tmp/seed.run 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$P " /tmp/seed.run; then r="$P: $(grep -m1 ^FAILED /tmp/seed.run | sed 's/^FAILED \([^:]*\):.*/\1/')"; else r="missed"; fi
    echo "$id: good planted bug; $r (exit $rc)"
    python3 - "$id" "$r" <<'P'
import json, sys
f = '/verif/tools/seeded_results.json'
try: d = json.load(open(f))
except Exception: d = {}
d[sys.argv[1]] = sys.argv[2]
json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
P
  fi
  git -C $S checkout -q -- .
done
