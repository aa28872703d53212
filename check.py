#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough]: decide one property on /repo"""
import os
import sys

PYTHON = '/opt/venv/bin/python'         # has what /repo depends on
if not os.path.exists(PYTHON) or os.environ.get('SYMX_PYTHON'):
    PYTHON = sys.executable
if os.environ.get('PYTHONHASHSEED') != '0' or (
        os.path.abspath(sys.executable) != PYTHON and
        not os.environ.get('SYMX_PYTHON')):
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['SYMX_PYTHON'] = '1'
    os.execv(PYTHON, [PYTHON] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')

from symx.runner import main  # noqa

sys.exit(main())
