"""setup: builds the helper library of the analyser and checks that the tools it needs are there."""
import os, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lin, ir
lin.lib()
for t in (ir.CLANG,):
    if not (os.path.exists(t) or shutil.which(t)): sys.exit('missing tool ' + t)
print('setup ok')
