#!/bin/bash
# nothing is compiled: parse every specification once and make the output folders
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out/replay
d=$(mktemp -d)
cd spec || exit 1
for m in *.tla; do
  java -Djava.io.tmpdir="$d" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$d/out" 2>&1 || { cat "$d/out"; exit 1; }
done
/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, '/repo'); import pyforecaster.formatter" || exit 1
echo setup ok
