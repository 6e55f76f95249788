#!/bin/bash
# tools/gdbcase.sh PROP REPLAY.json [secs]: backtrace of a crashing or hanging case
cd /verif; export ASAN_OPTIONS=detect_leaks=0; python3 -c "import json,sys; print(*json.load(open('$2'))['choices'])" > /tmp/rf.$1
timeout -s INT ${3:-10} gdb -q -batch -ex "set confirm off" -ex "handle SIGINT stop nopass" -ex "run --prop $1 --replay /tmp/rf.$1 --fail /tmp/ff.$1 </dev/null" -ex bt build/h_*/run_$1 2>&1 | tail -${L:-25} | cut -c1-200
