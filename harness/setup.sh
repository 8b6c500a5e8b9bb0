#!/bin/bash
# Nothing to build ahead: every check builds the extension it needs itself.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" && exec /opt/py27/usr/bin/python2.7 -s -B -c \
  'import numpy, h5py, bottleneck, Cython; print("setup ok")'
