"""setup_cmd: build the IR dump tool (the checks rebuild it on demand as well)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
print(ir._irdump())
