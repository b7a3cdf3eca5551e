#!/bin/bash
# try.sh ID [checks...]: confirms a planted change in a scratch copy of /repo, then runs checks against it.
id="$1"; shift
seed=/verif/seeded/$id
work=/tmp/seedwork
mkdir -p $work
rsync -rlpc --delete --exclude _build /repo/ $work/repo/ || exit 1
mkdir -p $work/recipe
sed "s#/repo#$work/repo#g" /opt/vp/recipe/CMakeLists.txt > $work/recipe/CMakeLists.txt.new
cmp -s $work/recipe/CMakeLists.txt.new $work/recipe/CMakeLists.txt || cp $work/recipe/CMakeLists.txt.new $work/recipe/CMakeLists.txt
build() { (cmake -S $work/recipe -B $work/repo/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug && ninja -C $work/repo/_build -j8) > $work/build.log 2>&1 || { tail -20 $work/build.log; echo "BUILD FAILED"; exit 1; }; }
build
(cd $work/repo && bash $seed/demo.sh) > $work/clean.log 2>&1; echo "clean demo: $? (want 0)"; grep "error:\|FAILED" $work/clean.log | head -5
git -C $work/repo apply $seed/patch.diff || exit 1
build
for t in $work/repo/_build/Test*; do [ -x "$t" ] && [ ! -d "$t" ] && (cd $work/repo/_build && timeout 100 $t > /tmp/seedwork/t.log 2>&1; r=$?; [ $r = 0 ] || { echo "TEST $t exits $r"; grep -i "fail" /tmp/seedwork/t.log | head -3; }); done
(cd $work/repo && bash $seed/demo.sh) > $work/bad.log 2>&1; echo "patched demo: $? (want != 0)"; tail -3 $work/bad.log
for c in "$@"; do
  (cd /verif && CRG_REPO=$work/repo CRG_BUILD=$work/cb timeout 900 ./check quick $c > $work/check.log 2>&1; echo "check $c: $?"; grep "VIOLATION\|  fail\|category" $work/check.log | head -5)
done
git -C $work/repo checkout -q -- .
