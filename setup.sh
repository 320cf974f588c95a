#!/bin/bash
# Nothing has to be installed: checks build their drivers from /repo's working tree themselves.
# This parses every specification, so that a broken checkout is noticed here.
cd "$(dirname "$0")" || exit 1
set -e
for t in java g++ python3; do command -v $t > /dev/null; done
python3 -m py_compile tools/*.py
for m in spec/*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")") > .sany.log 2>&1 || { cat .sany.log; exit 1; }
done
rm -f .sany.log
echo ok
