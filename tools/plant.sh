#!/bin/bash
# plant.sh <id> <Cxx>: try a planted bug in a scratch copy: does it apply, pass the tests, fail its demo, get caught?
id=$1; shift
d=/verif/seeded/$id; w=/tmp/plant-$id
rm -rf "$w"; cp -a /repo "$w"; cd "$w" || exit 1
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH=$w bash $d/demo.sh >/tmp/plant-$id.out 2>&1; echo "demo clean: $?"
git apply $d/patch.diff || { echo "PATCH DOES NOT APPLY"; rm -rf "$w"; exit 1; }
PYTHONPATH=$w bash $d/demo.sh >>/tmp/plant-$id.out 2>&1; echo "demo patched: $?"
(cd $w/test && PYTHONPATH=$w:/opt/vp/plugin /opt/venv/bin/python -m pytest $w/test --rootdir=$w -q -p no:cacheprovider -p soynlp_corpus -o 'python_functions=*_test test_* main' --deselect test/basic_test.py::main 2>&1 | tail -1)
for c in "$@"; do (cd /verif; VERIF_REPO=$w /opt/venv/bin/python run_check.py $c 2>&1 | grep -v KNOWN | cut -c1-400 | tail -4); done
rm -rf "$w"
