#!/bin/bash
# development helper: rep.sh FILE [extra sim options] replays with a trace
f=$1; shift
v=$(basename $f .txt); v=${v##*-}
$(python3 /verif/build.py $v | awk '{print $2}') --replay $f --verbose "$@"
