#!/bin/bash
# development aid: symdbg.sh CHECK "mode=0,cfg=1" [budget]: build the symbolic executable of unit $UNIT and run it directly (stderr visible)
cd "$(dirname "$0")/.."
EXE=$(python3 - "$1" <<'P'
import sys, os; sys.path.insert(0,'engine'); import run, checks
print(run.build_sym(checks.CHECKS[sys.argv[1]]["units"][int(os.environ.get("UNIT","0"))], run.compile_tool("pass"), run.compile_tool("rt")))
P
)
SYM_ONLY="$2" $EXE --worker 0 --nworkers 1 --tier 0 --budget ${3:-60} --out /tmp/symdbg.jsonl --known /dev/null --samples 0; [ -n "$KEEP" ] && echo $EXE >&2 || rm -f $EXE
tail -3 /tmp/symdbg.jsonl | cut -c1-800
