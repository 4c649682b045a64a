#!/bin/bash
# sweep.sh SEEDS... : every check at quick size under other seeds, to look for false alarms
cd "$(dirname "$0")/.."
for seed in "$@"; do
  for i in 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20 21 22 23; do
    /opt/venv/bin/python check.py C$i --seed $seed > /tmp/sweep_$i.txt 2>&1; c=$?
    [ $c = 0 ] || { echo "C$i seed $seed exit $c"; tail -6 /tmp/sweep_$i.txt | cut -c1-1500; }
  done
  echo "seed $seed done"
done
