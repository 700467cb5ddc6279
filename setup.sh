#!/bin/sh
# Nothing is compiled: TLC interprets spec/*.tla and the drivers import the
# package from a scratch copy of /repo's working tree.  Only check the tools.
set -e
test -x /opt/venv/bin/python
test -f /opt/veriftools/tla/tla2tools.jar
java -version 2>&1 | head -1
cd "$(dirname "$0")"
python3 -c "import sys; sys.path.insert(0,'lib'); import plans; print(len(plans.PLANS), 'checks')"
