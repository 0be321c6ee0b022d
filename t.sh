# t.sh Cxx [goal...]  : dev helper
cd /verif; c=$1; shift
build/cppvc-dump build/$c.json contracts/$c.cpp --keep /repo --keep /verif -- -std=c++20 -DNDEBUG -DVC_VERIFY -I/repo/include -I/verif/include -I/verif/stubs || exit 1
gs="$@"; [ -z "$gs" ] && gs=$(grep -o 'GOAL([a-z_A-Z0-9]*)' contracts/$c.cpp | sed 's/GOAL(//;s/)//')
[ -z "$O" ] && O='{"v":0}'
for g in $gs; do (timeout ${T:-300} python3-vt cppvc/engine/goalrun.py build/$c.json $g "$O" > build/t.$c.$g.out 2>&1 || echo "exit $?" >> build/t.$c.$g.out) & done; wait
for g in $gs; do cut -c1-400 build/t.$c.$g.out | grep -v "^  proved\|^GOAL" | head -${L:-6}; grep -h "^GOAL\|^  proved" build/t.$c.$g.out | cut -c1-300 | tr "\n" " "; echo; done
