#!/bin/bash
# usage: simulator --trace output | sym.sh EXE : symbolises the "stack:" lines at the end of a trace
while IFS= read -r l; do case "$l" in *" stack:"*) echo "${l%%stack:*}"; addr2line -Cfpe "$1" ${l##*stack:} | grep -v '/sim/\|std::function\|std::_\|^_ZNSt\|??' | cut -c1-150 | sed 's/^/      /' | head -${2:-14};; *) echo "$l";; esac; done
