#!/bin/bash
# dev helper: t.sh PROP pkgs [args]
cd /verif/engine && go build -o /verif/bin/engine . || exit 1
P=$1; K=$2; shift 2
/verif/bin/engine check -prop $P -pkgs $K -v "$@" 2>&1 | cut -c1-420 | awk '/^[a-z0-9]+\.[A-Za-z0-9]+\[/{ if (!/viol=0 err=""/ || n<12) {print}; n++; next} {print}'
