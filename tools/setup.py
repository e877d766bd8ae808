"""setup_cmd: build the current tree once (each check rebuilds when needed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build
print(build.ensure("plain"))
