#!/bin/bash
# newbug.sh ID PROPERTY [extra driver sources]: skeleton of a seeded bug; patch.diff from `git diff` in /tmp/mut/repo
set -e
d=/verif/seeded/$1; mkdir -p $d
cp /verif/meta/demo/demo.sh /verif/meta/demo/d.py $d/
cp /verif/driver/core.cc /verif/driver/driver.h /verif/driver/mj.h $d/
for x in "${@:3}"; do cp /verif/driver/$x $d/; done
chmod +x $d/demo.sh
