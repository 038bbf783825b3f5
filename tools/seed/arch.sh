# sourced: a scratch archive in $D, removed at the end
AA=$PWD/_build/aardwarc
HERE=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX")
trap 'rm -rf "$D"' EXIT
cd "$D" || exit 99
mkdir silo
cfg() {	# [digits [maxsize]]
	cat > cfg <<EOF
WARC-Record-ID:
	http://example.com/ 	${1:-64}

warcinfo.body:
	description:	testrun

silo.directory:
	$D/silo/

silo.max_size:
	${2:-15k}

silo.basename:
	%08u.warc.gz

resource.mime-types:
	application/octet-stream
	text/plain

metadata.mime-types:
	text/plain
	application/json

EOF
}
cfg
shim() {	# spec command...
	S=$1; shift
	[ -f "$D/shim.so" ] || gcc -shared -fPIC -w -o "$D/shim.so" "$HERE/shim.c" -ldl || exit 99
	SHIM="$S" LD_PRELOAD="$D/shim.so" "$@"
}
aa() { timeout 60 "$AA" -c "$D/cfg" "$@"; }
bad() { echo "FAILED: $*"; exit 1; }
# random but reproducible data: name size seed
mk() { python3 -c "import random,sys;random.seed($3);sys.stdout.buffer.write(random.randbytes($2))" > "$1"; }
