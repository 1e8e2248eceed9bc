#!/bin/bash
# mkseed.sh ID PROP DIR: from the scratch copy /tmp/seed/repo (edited) and
# /tmp/seed/demo_test.go, /tmp/seed/needs, /tmp/seed/breaks, writes seeded/ID
# for package directory DIR, and confirms that it builds, passes the stable
# tests, and that its demonstration separates the two trees.
set -e
id=$1; prop=$2; dir=$3
out=/verif/seeded/$id
mkdir -p "$out"
git -C /tmp/seed/repo diff > "$out/patch.diff"
[ -s "$out/patch.diff" ] || { echo "no change"; exit 1; }
cp /tmp/seed/demo_test.go "$out/demo_test.go"
cat > "$out/demo.sh" <<E
#!/bin/bash
# Runs demo_test.go inside $dir of the repository in the current directory.
d=\$(cd "\$(dirname "\$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0 HOME=\${HOME:-/root}
export PROTOTOOL_PROTOC_BIN_PATH=/usr/bin/protoc PROTOTOOL_PROTOC_WKT_PATH=/usr/include
t=\$(mktemp -d) || exit 2
trap 'rm -rf "\$t"' EXIT
echo "{\"Replace\": {\"\$PWD/$dir/zz_demo_test.go\": \"\$d/demo_test.go\"}}" > "\$t/o.json"
go test -vet=off -count=1 -overlay "\$t/o.json" -run 'TestDemo' "./$dir"
E
python3 - "$out" "$prop" <<'E'
import json,sys
out,prop=sys.argv[1:]
json.dump({"property":prop,"needs":open('/tmp/seed/needs').read().strip(),"what_it_breaks":open('/tmp/seed/breaks').read().strip()},open(out+'/meta.json','w'),indent=1)
E
exec /verif/tools/seedtest.sh "$id"
