#!/bin/bash
# check.sh <property> [vmon flags]: build the monitors against /repo's working
# tree and run one property. VERIF_SEED and VERIF_TIER choose the cases.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GO111MODULE=on GOWORK=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=
unset GORACE GODEBUG GOEXPERIMENT
repo=${VERIF_REPO:-/repo}
build=$(mktemp -d "${TMPDIR:-/tmp}/vmonbuild.XXXXXX") || exit 3
trap 'rm -rf "$build"' EXIT
cp "$here/mod/go.mod" "$here/mod/go.sum" "$build/" || exit 3
{
  echo '{"Replace": {'
  echo "\"$repo/go.mod\": \"$build/go.mod\""
  for f in "$here"/harness/*.go; do
    echo ", \"$repo/zz_vmon/$(basename "$f")\": \"$f\""
  done
  echo '}}'
} > "$build/overlay.json"
race=
if [ "$prop" = C18 ]; then race=-race; fi
cd "$repo" || exit 3
if ! go build $race -overlay="$build/overlay.json" -modfile="$build/go.mod" -mod=mod -buildvcs=false -o "$build/vmon" ./zz_vmon; then
  echo "INCONCLUSIVE: the monitors do not build against $repo"
  exit 3
fi
if [ "$prop" = C23 ] || [ "$prop" = C25 ]; then # run the programs of the examples
  mkdir "$build/cli" || exit 3
  for c in parlexjson parlexmath scalc; do
    if ! go build -overlay="$build/overlay.json" -modfile="$build/go.mod" -mod=mod -buildvcs=false -o "$build/cli/$c" "./examples/$c/$c"; then
      echo "INCONCLUSIVE: $c does not build"
      exit 3
    fi
  done
  export VMON_CLI="$build/cli"
fi
cd "$here" || exit 3
"$build/vmon" -prop "$prop" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" \
  -evidence "${VERIF_EVIDENCE:-$here/evidence}" -findings "$here/known_findings.txt" "$@"
