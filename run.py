#!/usr/bin/env python3
import os
import sys
for _k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_k] = '1'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
