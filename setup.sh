#!/bin/bash
# Nothing to compile: the explorer is Python and drives /repo's working tree directly.  Check the interpreter.
cd "$(dirname "$0")" && chmod +x check && mkdir -p evidence
exec /opt/venv/bin/python -W ignore -c "
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, 'lib')
import numpy, scipy, quadpy_stub, mc, ref, gen
print('numpy', numpy.__version__, 'scipy', scipy.__version__, 'ready')"
