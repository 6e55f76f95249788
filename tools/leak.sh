#!/bin/bash
# debugging helper: where the memory lost by the latest L01 replay was allocated (LeakSanitizer)
f=$(ls -t /verif/replays/L01-* | head -1)
python3 -c "
import json
d=json.load(open('$f')); print(d['message'][:600]); open('/tmp/rf','w').write(' '.join(map(str,d['choices']))+'\n')"
ASAN_OPTIONS=detect_leaks=1 ${VF_BUILD:-/verif/build}/h_seq_leak/run_L01 --prop L01 --replay /tmp/rf --reps 1 2>&1 | grep -a "leak of\|^ *#" | grep -av "libc_start\|_start\|runOne\|in main\|asan_malloc\|__wrap" | sed 's/0x[0-9a-f]* in //' | head -${L:-24}
