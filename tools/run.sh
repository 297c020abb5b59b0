#!/bin/bash
# tools/run.sh ID...: run checks, show what matters
for i in "$@"; do s=$(date +%s); VERIF_MAXV=${MAXV:-40} /opt/venv/bin/python "$(dirname "$0")/../check.py" $i > /tmp/run_$i.out 2>/tmp/run_$i.err; r=$?
echo "== $i exit $r $(( $(date +%s)-s ))s"; grep -v "not all hours\|VIOLATION\|support of" /tmp/run_$i.out | cut -c1-${W:-260} | tail -${N:-30}; done
