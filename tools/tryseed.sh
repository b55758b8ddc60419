#!/bin/bash
# tryseed.sh ID [check]: confirm a planted bug in a scratch copy; with "check", run its property's check on it.
S=/verif/seeded/$1; W=/tmp/w/seed_$1
mkdir -p /tmp/w; rm -rf "$W"; cp -a /repo "$W"; cd "$W"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off
bash "$S/demo.sh" > /tmp/w/out_$1 2>&1 && echo "demo ok on unchanged" || { echo "DEMO FAILS ON UNCHANGED"; tail -20 /tmp/w/out_$1; }
git apply "$S/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 1; }
cp client/go.mod /tmp/w/m_$1.mod; cp client/go.sum /tmp/w/m_$1.sum
(cd client && go build -mod=mod -modfile=/tmp/w/m_$1.mod ./... ) || echo "DOES NOT BUILD"
(cd client && go test -mod=mod -modfile=/tmp/w/m_$1.mod -vet=off -count=1 ./model ./parser ./interop/... ./system ./repl ./transmitter 2>&1 | grep "^--- FAIL\|^FAIL" | head -5)
bash "$S/demo.sh" > /tmp/w/out_$1 2>&1 && echo "DEMO PASSES WITH BUG" || { echo "demo fails with bug:"; grep -v "^FAIL\|^---\|^ok\| DBG " /tmp/w/out_$1 | head -5; }
if [ "$2" = check ]; then
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  REPO="$W" bash /verif/check.sh $P quick 2>/tmp/w/err_$1 | tail -5; echo "exit ${PIPESTATUS[0]}"
fi
rm -rf "$W" /tmp/w/m_$1.* 
