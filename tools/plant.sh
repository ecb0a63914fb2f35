#!/bin/bash
# Development: confirms a planted change in a scratch copy of /repo, then runs the property's check on it.
# usage: plant.sh ID [nocheck]      (scratch copy: /tmp/plant/repo, removed by hand)
id=$1; d=/verif/seeded/$id; w=/tmp/plant/repo
if [ ! -d $w ]; then
  mkdir -p /tmp/plant && cp -a /repo $w && rm -rf /tmp/plant/repo/_build
fi
git -C $w checkout -q -- . ; git -C $w fetch -q /repo HEAD && git -C $w reset -q --hard FETCH_HEAD
bld() { CC=gcc CXX=g++ cmake -S /opt/vp/cmake -B $w/_build -G Ninja -Wno-dev -Wno-deprecated -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_FLAGS=-Wno-error -DCMAKE_CXX_FLAGS=-Wno-error -DREPO=$w >/tmp/plant/log 2>&1 && ninja -C $w/_build >>/tmp/plant/log 2>&1; }
bld || { echo "base build failed"; tail -5 /tmp/plant/log; exit 1; }
(cd $w && timeout 300 bash $d/demo.sh >/tmp/plant/demo0 2>&1); r=$?
[ $r = 0 ] || { echo "$id: demo fails on the unchanged tree ($r)"; tail -5 /tmp/plant/demo0; exit 1; }
git -C $w apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
trap "git -C $w checkout -q -- ." EXIT
bld || { echo "$id: does not compile"; tail -20 /tmp/plant/log; exit 1; }
ctest --test-dir $w/_build -E "^ProjectTest\." -j8 --timeout 120 >/tmp/plant/ctest 2>&1 || { echo "$id: tests fail"; grep -E "Failed|\*\*\*" /tmp/plant/ctest | head; exit 1; }
(cd $w && timeout 300 bash $d/demo.sh >/tmp/plant/demo1 2>&1); r=$?
[ $r != 0 ] || { echo "$id: demo passes with the change"; exit 1; }
echo "$id: confirmed (demo rc=$r): $(tail -1 /tmp/plant/demo1 | cut -c1-150)"
[ "$2" = nocheck ] && exit 0
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd /verif && VERIF_REPO=$w VERIF_OBJCACHE= timeout 900 ./check $p ${2:-quick} 2>/tmp/plant/err | tail -1 | cut -c1-200; echo "   check rc=${PIPESTATUS[0]}")
