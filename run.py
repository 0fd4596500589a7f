#!/opt/venv/bin/python
"""Entry point of every registered check:  run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

os.environ["CUDA_VISIBLE_DEVICES"] = ""
os.environ["MPLBACKEND"] = "Agg"
os.environ["OMP_NUM_THREADS"] = "1"
os.environ["MKL_NUM_THREADS"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from hol.core import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main())
