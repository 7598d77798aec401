#!/bin/bash
# Offline sanity check of the toolchain; every check is self-contained.
set -e
cd "$(dirname "$0")"
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
PYTHONPATH=/repo/src JAX_PLATFORMS=cpu MPLBACKEND=Agg /opt/venv/bin/python -c 'import mpllayout.layout, jax, numpy, scipy, matplotlib'
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd spec
for f in *.tla; do
  java -Djava.io.tmpdir="$tmp" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > "$tmp/out" 2>&1 \
    || { cat "$tmp/out"; echo "cannot parse $f"; exit 1; }
done
echo setup ok
