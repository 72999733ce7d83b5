#!/bin/bash
# tools/crash.sh DRIVER REPLAY: backtrace of a crashing replay
grep -v '^#' "$2" > /tmp/crash.s
gdb -q -batch -ex run -ex bt --args /verif/build/bin/std/$1 /tmp/crash.s /tmp/crash.t 2>&1 | grep -E '^#' | cut -c1-200 | head -15
