import os
import sys
for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'          # eight driver processes already use every core
from .core import main  # noqa
if __name__ == '__main__':
    sys.exit(main())
