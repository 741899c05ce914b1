#!/bin/bash
# debugging aid: backtrace candidates of a crash inside a replay
D=$(python3 /verif/build.py); export UCCSIM_INC=/repo/src/include UCCSIM_CORPUS=/verif/corpus/cases.txt
UCCSIM_DEBUG=1 $D/uccsim replay $1 q 2>&1 | grep -a '^crash' | head -1 | tr ' ' '\n' | sed -n '5p;7,$p' | xargs addr2line -f -p -e $D/uccsim | sed 's,/verif/.build/[^/]*/,,' 
