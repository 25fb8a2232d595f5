#!/bin/bash
# plant.sh ID : diff of /tmp/plant against /repo becomes /verif/seeded/ID/patch.diff; checks the demo both ways; resets /tmp/plant.
id=$1; d=/verif/seeded/$id; mkdir -p "$d"
cp /verif/sim/compat/msvc_compat.hpp "$d/"
cat > "$d/demo.sh" <<'S'
#!/bin/bash
# Exits 0 if the property holds. Works only in a scratch directory of its own.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 -w -include "$here/msvc_compat.hpp" -I"$repo/src" -I"$repo/src/ml" -I"$repo/src/lang/statements" "$here/demo.cpp" -o "$d/demo" -ltbb -lpthread -ldl || exit 2
mkdir -p "$d/work/run" && cd "$d/work/run" && timeout 200 "$d/demo" >"$d/out" 2>"$d/err"
rc=$?
tail -n 3 "$d/err"
exit $rc
S
chmod +x "$d/demo.sh"
cd /tmp/plant || exit 1
git -C /tmp/plant diff --quiet && git -C /tmp/plant apply "$d/patch.diff"
git -C /tmp/plant diff -- src > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "empty patch"; exit 1; }
( cd /repo && bash "$d/demo.sh" 2>&1 | grep -v "^In file\|note:" | head -8; exit ${PIPESTATUS[0]} ); a=$?
( cd /tmp/plant && bash "$d/demo.sh" 2>&1 | grep -v "^In file\|note:" | tail -3; exit ${PIPESTATUS[0]} ); b=$?
echo "$id: demo on unchanged tree $a (want 0), on planted tree $b (want nonzero)"
git -C /tmp/plant checkout -q -- .
