# Sourced by the demonstrations: a scratch archive with the built program.
set -u
AA=$PWD/_build/aardwarc
T=$(mktemp -d) || exit 99
trap 'chmod -R u+rwX "$T"; rm -rf "$T"' EXIT
export TZ=UTC LC_ALL=C HOME=$T
PFX=http://ex.org/a/
MAX=${MAX:-100k}
BITS=${BITS:-128}
mkconf() {
	mkdir -p "$T/s"
	cat > "$T/conf" <<EOC
WARC-Record-ID:
	$PFX $BITS
warcinfo.body:
	description: demo
silo.directory:
	$T/s/
silo.max_size:
	$MAX
resource.mime-types:
	*
metadata.mime-types:
	*
${EXTRA:-}
EOC
}
aa() { "$AA" -c "$T/conf" "$@"; }
fail() { echo "FAIL: $*"; exit 1; }
# rnd N SEED: N reproducible random bytes
rnd() { python3 -c 'import random,sys; sys.stdout.buffer.write(random.Random(int(sys.argv[2])).randbytes(int(sys.argv[1])))' "$1" "$2"; }
mkconf
