#!/bin/bash
# Builds the simulator binary from the current tree of /repo into /verif/.build (tracked files stay untouched).
set -e
cd "$(dirname "$0")/.."
V=$PWD
. /opt/vp/env.sh
export CGO_ENABLED=0
B=${VERIF_BUILD:-$V/.build}
R=${VERIF_REPO:-/repo}
mkdir -p "$B"
exec 9>"$B/.lock"
flock 9
cd sim
[ -x "$B/simgen" ] && [ -z "$(find cmd/simgen shim cmd/shimgen -newer "$B/simgen" -name '*.go' | head -1)" ] || go build -o "$B/simgen" ./cmd/simgen
"$B/simgen" -repo "$R" -out "$B" > "$B/simgen.log" 2>&1 || { cat "$B/simgen.log" >&2; exit 3; }
{
  echo "module verifsim"; echo; echo "go 1.26"; echo
  sed -n '/^require/,$p' "$R/go.mod"
  echo; echo "require github.com/IfanTsai/metis v0.0.0"
  echo "replace github.com/IfanTsai/metis => $R"
} > "$B/go.mod.new"
cmp -s "$B/go.mod.new" "$B/go.mod" || cp "$B/go.mod.new" "$B/go.mod"
cp "$R/go.sum" "$B/go.sum"
go build -modfile="$B/go.mod" -overlay "$B/overlay.json" -o "$B/metisim" ./cmd/metisim || { echo "the simulator does not build" >&2; exit 3; }
