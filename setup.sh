#!/bin/bash
# parse every specification module; nothing else has to be built
set -e
cd "$(dirname "$0")/spec"
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
out=$(java -cp $J tla2sany.SANY *.tla 2>&1) || { echo "$out"; exit 1; }
if echo "$out" | grep -q -i "error\|abort"; then echo "$out"; exit 1; fi
/opt/venv/bin/python -c 'import numpy, pandas, scipy'
echo "specification parsed"
