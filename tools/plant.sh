#!/bin/bash
# plant.sh ID PROPERTY "needs" "what it breaks": takes the change made in the
# scratch copy /tmp/sc and the demonstration /tmp/demo.py, confirms them and
# keeps them as seeded/ID. Then resets the copy.
export PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
id="$1"; d=/verif/seeded/$id
cd /tmp/sc || exit 1
trap 'git -C /tmp/sc checkout -q -- .' EXIT
git diff > /tmp/sc.patch
[ -s /tmp/sc.patch ] || { echo "no change"; exit 1; }
# only original lines may change
while read -r f; do
  git blame -s HEAD -- "$f" > /tmp/sc.blame
  git diff -U0 -- "$f" | grep '^@@' | sed -E 's/^@@ -([0-9]+)(,([0-9]+))? .*/\1 \3/' | while read -r a n; do
    n=${n:-1}; [ "$n" = 0 ] && continue
    sed -n "${a},$((a+n-1))p" /tmp/sc.blame | grep -v "^^" | sed 's/^/NOT ORIGINAL: /'
  done
done < <(git diff --name-only) > /tmp/sc.no; [ -s /tmp/sc.no ] && { cat /tmp/sc.no; exit 1; }
go build -buildvcs=false ./... || { echo "does not build"; exit 1; }
go test -vet=off -count=1 ./... > /tmp/sc.test 2>&1 || { tail -20 /tmp/sc.test; echo "tests fail"; exit 1; }
git -C /tmp/sc checkout -q -- . 2>/dev/null; git apply /tmp/sc.patch
mkdir -p "$d"
cp /tmp/sc.patch "$d/patch.diff"; cp /tmp/demo.py "$d/demo.py"; cp /verif/tools/seedlib/lib.py "$d/lib.py"
printf '#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n' > "$d/demo.sh"; chmod +x "$d/demo.sh"
python3 - "$@" > "$d/meta.json" <<'PY'
import json, sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, sys.stdout, indent=1)
PY
(cd /repo && "$d/demo.sh") || { echo "DEMO FAILS ON UNCHANGED TREE"; rm -r "${d:?}"; exit 1; }
(cd /tmp/sc && "$d/demo.sh"); [ $? = 0 ] && { echo "DEMO PASSES WITH THE CHANGE"; rm -r "${d:?}"; exit 1; }
for i in 1 2 3 4; do (cd /repo && "$d/demo.sh") || echo "UNSTABLE unchanged"; (cd /tmp/sc && "$d/demo.sh" >/dev/null) && echo "UNSTABLE changed"; done
git checkout -q -- .
echo "kept $id"
