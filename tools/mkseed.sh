#!/bin/bash
# mkseed.sh ID: turns the uncommitted change in the scratch copy $M (default /tmp/m/repo) into seeded/ID/patch.diff,
# with the demonstration test seeded/ID/demo_test.go of the package named in seeded/ID/pkg already written; confirms it all.
set -u
ID=$1; M=${M:-/tmp/m/repo}; S=/verif/seeded/$ID
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
PKG=$(cat "$S/pkg")
cat > "$S/demo.sh" <<EOF
#!/bin/bash
# run with cwd at the repository: exit 0 when the behaviour is right
D=\$(cd "\$(dirname "\$0")" && pwd); T=\$(mktemp -d); trap 'rm -rf "\$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
printf '{"Replace":{"%s/$PKG/zz_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$D" > "\$T/o.json"
timeout 250 go test -vet=off -overlay "\$T/o.json" -run TestSeededDemo -count=1 ./$PKG
EOF
git -C "$M" diff > "$S/patch.diff"
python3 - "$M" "$S/patch.diff" <<'PY' || { echo "$ID: changes lines our own commits added"; exit 1; }
import sys,re,subprocess
m,p=sys.argv[1:]
base=subprocess.run(['git','-C',m,'rev-list','--max-parents=0','HEAD'],capture_output=True,text=True).stdout.split()[0][:7]
f=None;ok=True;n=0
for l in open(p):
    if l.startswith('--- a/'): f=l[6:].strip(); blame=subprocess.run(['git','-C',m,'blame','-s','--abbrev=7','HEAD','--',f],capture_output=True,text=True).stdout.split('\n')
    elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('-') and not l.startswith('---'):
        if base not in blame[n-1].split()[0]: ok=False; print(blame[n-1])
        n+=1
    elif l.startswith(' '): n+=1
sys.exit(0 if ok else 1)
PY
[ -s "$S/patch.diff" ] || { echo "no change"; exit 1; }
git -C "$M" checkout -q -- .
(cd "$M" && bash "$S/demo.sh" >/tmp/demo.out 2>&1) || { echo "$ID: demo FAILS on the unchanged tree"; tail -20 /tmp/demo.out; exit 1; }
git -C "$M" apply "$S/patch.diff" || exit 1
(cd "$M" && go build ./... ) || { echo "$ID: does not build"; exit 1; }
(cd "$M" && bash "$S/demo.sh" >/tmp/demo.out 2>&1) && { echo "$ID: demo PASSES with the change"; git -C "$M" checkout -q -- .; exit 1; }
(cd "$M" && go test -vet=off ./... 2>&1 | grep -v "^ok\|no test files") | tail -15
git -C "$M" checkout -q -- .
rm -f "$S/pkg.tmp"
echo "$ID: confirmed"
