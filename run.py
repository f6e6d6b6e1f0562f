#!/opt/venv/bin/python
"""Run the check of one property:  run.py C01 [--tier quick|thorough]
Replay a counterexample:            run.py --replay FILE"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx.main import main
sys.exit(main(sys.argv[1:]))
