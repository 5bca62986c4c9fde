#!/bin/bash
# confirm.sh ID...: checks planted bugs in a scratch copy: the patch applies, the
# tests build and pass with it, the demonstration is quiet without and loud with it.
ROOT=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/verif_scratch
FL="-O1 -g1 -Wno-error -include functional"
if [ ! -d $S/_b ]; then
  mkdir -p $S && rsync -a --exclude _build /repo/ $S/ 2>/dev/null || (cd /repo && tar cf - --exclude=_build . | tar xf - -C $S)
  cmake -S $S -B $S/_b -G Ninja -Wno-dev -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DPYTHON_EXECUTABLE=/usr/bin/python3 \
    -DCMAKE_BUILD_TYPE=RelWithDebInfo "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=$FL" -Dtinyxml2_DIR=/opt/vp/cmake/tinyxml2 > $S/configure.log 2>&1
  (cd $S/_b && nice ninja -j6 tests/all > build.log 2>&1)
fi
for id in "$@"; do
  d=$ROOT/seeded/$id
  git -C $S checkout -q -- . && git -C $S pull -q /repo HEAD 2>/dev/null
  cd $S
  bash $d/demo.sh > $S/demo0.log 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $d/demo.sh > $S/demo1.log 2>&1; r1=$?
  (cd $S/_b && nice ninja -j6 tests/all > build.log 2>&1); rb=$?
  (cd $S/_b && ctest -j6 --timeout 60 -E python > test.log 2>&1); rt=$?
  echo "$id: demo unchanged=$r0 patched=$r1 build=$rb tests=$rt $(grep -h "\*\*\*" $S/_b/test.log | sed "s,.*: ,," | tr "\n" ";")"
  git checkout -q -- .
done
