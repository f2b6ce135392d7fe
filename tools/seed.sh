#!/bin/bash
# seed.sh ID PROPERTY PKGDIR EDIT.py DEMO_test.go "needs" "breaks": plants a bug, confirms it, keeps it under seeded/ID
# (the change is applied to /repo only while this runs)
set -u
ID=$1 PROP=$2 PKG=$3 EDIT=$4 DEMO=$5 NEEDS=$6 BREAKS=$7
D=/verif/seeded/$ID
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
(cd /repo && python3 "$EDIT") || { echo "EDIT FAILED"; exit 1; }
git -C /repo diff > /tmp/seedwork/p.diff
[ -s /tmp/seedwork/p.diff ] || { echo "no change"; exit 1; }
bash /opt/vp/build.sh || { echo "BUILD FAILS"; exit 1; }
bash /opt/vp/test.sh /tmp/seedwork/out.json >/dev/null 2>&1
python3 - <<'P' || { echo "TESTS FAIL"; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seedwork/out.json'))
def passed(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable','tests'):
            if k in x: return set(map(str,x[k] if not isinstance(x[k],dict) else [t for t,r in x[k].items() if r in('pass','passed',True)]))
    return set(map(str,x))
m=set(b['stable'])-set(o['passed'])
if m: print('failing:',list(m)[:5]); sys.exit(1)
P
mkdir -p $D && cp /tmp/seedwork/p.diff $D/patch.diff
cp "$DEMO" $D/demo_test.go.txt
MF=""
case $PKG in internal/index|pkg/opencorpora) # needs modules that are not here: stand-ins travel with the demo
  for m in logging libxml; do mkdir -p $D/$m; cp /verif/stubs/$m/$m.go $D/$m/$m.go.txt; done
  MF=' -modfile "$t/go.mod"'
esac
cat > $D/demo.sh <<S
#!/bin/bash
# runs demo_test.go.txt inside /repo/$PKG through an overlay
here="\$(cd "\$(dirname "\$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
cd /repo || exit 1
t=\$(mktemp -d) && trap 'rm -rf "\$t"' EXIT
echo "{\"Replace\": {\"/repo/$PKG/zz_demo_test.go\": \"\$here/demo_test.go.txt\"}}" > "\$t/o.json"
S
if [ -n "$MF" ]; then cat >> $D/demo.sh <<'S'
# logging and libxml cannot be fetched here: minimal stand-ins
for m in logging libxml; do mkdir -p "$t/$m"; cp "$here/$m/$m.go.txt" "$t/$m/$m.go"; printf 'module github.com/amarin/%s\n\ngo 1.16\n' $m > "$t/$m/go.mod"; done
cp go.sum "$t/"
printf 'module github.com/amarin/gomorphy\n\ngo 1.18\n\n' > "$t/go.mod"
for m in amarin/binutils stretchr/testify; do echo "require $(grep -o "github.com/$m v[0-9.]*" go.mod)" >> "$t/go.mod"; done
for m in logging libxml; do printf 'require github.com/amarin/%s v0.1.0\n\nreplace github.com/amarin/%s => %s\n' $m $m "$t/$m" >> "$t/go.mod"; done
S
fi
echo "go test$MF -overlay \"\$t/o.json\" -vet=off -count=1 -timeout 120s -run '^TestDemo\$' ./$PKG" >> $D/demo.sh
python3 -c "import json,sys; json.dump({'property':'$PROP','needs':sys.argv[1],'what_it_breaks':sys.argv[2]},open('$D/meta.json','w'),indent=1)" "$NEEDS" "$BREAKS"
if bash $D/demo.sh >/tmp/seedwork/demo.log 2>&1; then echo "DEMO PASSES WITH THE BUG"; exit 1; fi
grep -q "build failed\|undefined:\|syntax error" /tmp/seedwork/demo.log && { head -5 /tmp/seedwork/demo.log; echo "DEMO DOES NOT BUILD"; exit 1; }
(cd /verif && bash check.sh $PROP) > /tmp/seedwork/check.log 2>&1; rc=$?
git -C /repo checkout -q -- .
bash $D/demo.sh >/tmp/seedwork/demo2.log 2>&1 || { tail -5 /tmp/seedwork/demo2.log; echo "DEMO FAILS WITHOUT THE BUG"; exit 1; }
echo "$ID: check rc=$rc $(grep VIOLATION /tmp/seedwork/check.log)"; grep "FAILED-OBL\|FAILING-INPUT" /tmp/seedwork/check.log | head -4 | cut -c1-250
