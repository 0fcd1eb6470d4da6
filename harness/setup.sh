#!/bin/bash
# Nothing to build: the checks import /repo's working tree directly.
cd "$(dirname "${BASH_SOURCE[0]}")/.." || exit 1
mkdir -p evidence
exec /opt/venv/bin/python -B -c "import numpy, scipy, h5py, numba, PIL, pywt"
