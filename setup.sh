#!/bin/bash
# Nothing to build: the checks import rf from /repo's working tree. Verify the environment.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -B -W ignore -c "
import vf, hypothesis, numpy, obspy, scipy
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'obspy', obspy.__version__, 'rf from', vf.REPO)"
