#!/bin/bash
# Nothing to build: checks that the tools answer and that every specification module parses.
set -e
cd "$(dirname "$0")/spec"
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
java -cp $CP tla2sany.SANY *.tla > /tmp/acv-sany.$$ 2>&1 || { cat /tmp/acv-sany.$$; rm -f /tmp/acv-sany.$$; exit 1; }
rm -f /tmp/acv-sany.$$
/opt/venv/bin/python -c "import numpy, onnx, onnxruntime, pystache"
gcc --version > /dev/null
