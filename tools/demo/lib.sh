# Builds the command from the current directory (/repo) into $W/tsgolint with the unpatched typescript-go of the
# module cache: internal/collections is taken from there, and the tsconfig lookup is replaced by a plain search
# for the nearest tsconfig.json. Everything else is the repository's own code.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
export GOROOT=/opt/veriftools/go1.26.10
export PATH="$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
REPO=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp "$REPO/go.mod" "$W/m.mod"
{ cat "$REPO/go.sum"; cat /opt/vp/mod/*.sum 2>/dev/null; } | sort -u > "$W/m.sum"
# replacements relative to the repository become absolute
sed -i "s#=> \./#=> $REPO/#" "$W/m.mod"
export GOFLAGS="-mod=mod -modfile=$W/m.mod"
TSGO=$(go list -m -f '{{.Dir}}' github.com/microsoft/typescript-go)
[ -d "$TSGO" ] || { echo "typescript-go is not in the module cache" >&2; exit 3; }
overlay() { # extra "path=file" pairs
  {
    echo '{"Replace":{'
    echo "\"$REPO/internal/utils/find_tsconfig.go\":\"$W/find_tsconfig.go\""
    for f in "$TSGO"/internal/collections/*.go; do
      case "$f" in *_test.go) continue;; esac
      cp "$f" "$W/coll_$(basename "$f")"
      sed -i -e 's#"github.com/microsoft/typescript-go/internal/json"#"github.com/go-json-experiment/json"; "github.com/go-json-experiment/json/jsontext"#' \
        -e 's#json\.\(Encoder\|Decoder\|BeginObject\|EndObject\)#jsontext.\1#g' "$W/coll_$(basename "$f")"
      echo ",\"$REPO/internal/collections/$(basename "$f")\":\"$W/coll_$(basename "$f")\""
    done
    for p in "$@"; do echo ",\"$REPO/${p%%=*}\":\"${p#*=}\""; done
    echo '}}'
  } > "$W/overlay.json"
}
cat > "$W/find_tsconfig.go" <<'G'
package utils

import (
	"github.com/microsoft/typescript-go/shim/tspath"
	"github.com/microsoft/typescript-go/shim/vfs"
)

type TsConfigResolver struct {
	fs  vfs.FS
	cwd string
}

func NewTsConfigResolver(fs vfs.FS, currentDirectory string) *TsConfigResolver {
	return &TsConfigResolver{fs, currentDirectory}
}

func (r *TsConfigResolver) FindTsConfigParallel(filePaths []string) map[string]string {
	res := make(map[string]string, len(filePaths))
	for _, f := range filePaths {
		res[f] = ""
		for d := tspath.GetDirectoryPath(f); ; {
			if c := d + "/tsconfig.json"; r.fs.FileExists(c) {
				res[f] = c
				break
			}
			up := tspath.GetDirectoryPath(d)
			if up == d {
				break
			}
			d = up
		}
	}
	return res
}
G
# keep_rules a b c: the command with these rules only (compiling all of them takes too long)
keep_rules() {
  python3 - "$REPO/cmd/tsgolint/main.go" "$W/main.go" "$@" <<'P'
import re,sys
src,dst,keep=sys.argv[1],sys.argv[2],set(sys.argv[3:])
out=[]
for l in open(src):
    m=re.search(r'"github.com/typescript-eslint/tsgolint/internal/rules/(\w+)"',l) or re.match(r'\s+(\w+)\.\w+Rule,\s*$',l)
    if m and m.group(1) not in keep: continue
    out.append(l)
open(dst,'w').write(''.join(out))
P
}
# headless PAYLOAD_FILE ARGS...: runs the command, decodes its frames to JSON lines on stdout
headless() {
  local p=$1; shift
  (cd "$W" && timeout 60 "$W/tsgolint" headless "$@" < "$p" > "$W/out.bin" 2> "$W/err.txt"); echo $? > "$W/rc"
  python3 - "$W/out.bin" <<'P'
import struct,sys
b=open(sys.argv[1],'rb').read()
while b:
    if len(b)<5: print('TRUNCATED'); break
    n,t=struct.unpack('<IB',b[:5])
    if len(b)<5+n: print('TRUNCATED'); break
    print(t,b[5:5+n].decode('utf-8','replace')); b=b[5+n:]
P
}
