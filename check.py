"""python3-vt check.py ID [quick|thorough]: decide one property of /repo's current tree."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from qa import run
run.main(sys.argv[1:])
