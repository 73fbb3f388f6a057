#!/bin/bash
# Runs a script on simulated robots with the built library and compares what they log with the expected lines.
D=$(cd "$(dirname "$0")" && pwd); B=$PWD/_build; W=$(mktemp -d) || exit 9; trap 'rm -r "$W"' EXIT
gcc -O1 -g -w -D_GNU_SOURCE -I"$PWD/src" -I"$B" -I"$B/include" "$D/host.c" -o "$W/host" -L"$B/buzz" -lbuzz -lm || exit 9
cp "$D/demo.bzz" "$W/demo.bzz"
"$B/buzz/bzzparse" "$W/demo.bzz" "$W/demo.basm" && "$B/buzz/bzzasm" "$W/demo.basm" "$W/demo.bo" "$W/demo.bdb" || exit 8
LD_LIBRARY_PATH="$B/buzz" timeout 60 "$W/host" "$W/demo.bo" $(cat "$D/args") > "$W/out" 2>"$W/err" || { echo "host failed"; exit 7; }
diff "$D/expected" "$W/out" && echo same
