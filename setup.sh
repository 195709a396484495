#!/bin/sh
# Nothing is kept between runs: the checks compile the TLC overrides themselves
# (a second).  This verifies that the tools are there.
set -e
cd "$(dirname "$0")"
java -version 2>&1 | head -1
/opt/venv/bin/python -c "import pandas, numpy, scipy, sklearn; print('python ok')"
d=$(mktemp -d); javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d "$d" spec/java/*.java && echo "overrides ok"; rm -rf "$d"
