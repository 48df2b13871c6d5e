#!/bin/bash
# development helper: run.sh PROP [RUNS] [extra sim options]
P=$1; N=${2:-20000}; shift; shift
for l in $(python3 /verif/build.py ${V:-} | awk '{print $2}'); do
  timeout 300 $l --prop $P --runs $N --time ${TM:-60} --verbose --replay-out /tmp/rep-$P-$(basename $l).txt "$@"; echo "rc $?"
done
