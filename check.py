"""Entry point: check.py PROPERTY TIER [--seed N] [--only WORKLOAD] [--n K] [--replay FILE] [--jobs J] [-v]"""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mon.core import main
if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
