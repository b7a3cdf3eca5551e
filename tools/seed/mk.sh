#!/bin/bash
# mk.sh ID: copies the shared demonstration files beside a seed and writes its patch from the edited scratch tree /tmp/seedrepo.
d=/verif/seeded/$1
mkdir -p $d
cp /verif/tools/seed/mini.hpp /verif/tools/seed/demo.sh $d/
git -C /tmp/seedrepo diff > $d/patch.diff
git -C /tmp/seedrepo checkout -q -- .
