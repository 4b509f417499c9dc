import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from stages import *

run("C04", "proof", lambda c: vm_ops(c, 4))
