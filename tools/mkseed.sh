#!/bin/bash
# mkseed.sh ID: makes seeded/ID/patch.diff from the scratch tree /tmp/seed (a changed copy of /repo) and verifies the
# planted change: it builds, passes the tests, its demonstration passes on /repo and fails with it; then runs the check.
set -u
id=$1; d=/verif/seeded/$id; cd /tmp/seed || exit 9
. /opt/vp/env.sh
cat > $d/demo.sh <<'D'
#!/bin/bash
# Run with the repository as working directory: exit 0 if the property holds in the demonstrated case.
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$D" > "$W/ov.json"
go test -overlay "$W/ov.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' .
rc=$?
rm -rf "$W"
exit $rc
D
chmod +x $d/demo.sh
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 9; }
go build ./... || exit 8
go test -count=1 ./... > /tmp/seed.test 2>&1 || { grep -E "^(---|FAIL|#)|Error" /tmp/seed.test | head -20; echo "TESTS FAIL"; exit 7; }
(cd /repo && bash $d/demo.sh > /tmp/seed.demo0 2>&1) || { tail -20 /tmp/seed.demo0; echo "demo fails on unchanged tree"; exit 6; }
(bash $d/demo.sh > /tmp/seed.demo1 2>&1) && { echo "demo passes with the change"; exit 5; }
grep -q "build failed" /tmp/seed.demo1 && { echo "demo does not build"; exit 4; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
echo "seed $id ok ($prop)"
cd /verif && VERIF_REPO=/tmp/seed timeout 900 bash check.sh $prop 2>&1 | cut -c1-400 | tail -${TAIL:-6}
