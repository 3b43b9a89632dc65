#!/bin/bash
# Nothing to compile: checks the tools and parses every specification once.
cd "$(dirname "$0")" || exit 1
set -e
java -version >/dev/null 2>&1
/opt/venv/bin/python -c "import sys; sys.path.insert(0,'/repo'); import numpy, netCDF4, scipy, cloudnetpy"
t=$(mktemp -d)
fail=0
cd spec; for m in *.tla; do
  if ! java -Djava.io.tmpdir="$t" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >"$t/o" 2>&1; then
    cat "$t/o"; fail=1
  fi
done
rm -rf "$t"
cd ..; mkdir -p evidence replays
exit $fail
