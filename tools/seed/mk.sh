#!/bin/bash
# mk.sh ID: the script demo (host.c + template) for a seed whose folder has demo.bzz and args; expected from the clean tree
SR=${SR:-/tmp/sr}; H=$(cd "$(dirname "$0")" && pwd); S=$(cd "$H/../.." && pwd)/seeded/$1; cp $H/host.c $S/host.c; cp $H/demo_tmpl.sh $S/demo.sh
: > $S/expected; cd $SR/repo; bash $S/demo.sh | sed -n 's/^> //p' > /tmp/exp.$$; mv /tmp/exp.$$ $S/expected; cat $S/expected | head -${2:-20}
