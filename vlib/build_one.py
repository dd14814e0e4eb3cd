import sys; sys.path.insert(0, "/verif")
from vlib import build
print(getattr(build, sys.argv[1])(*sys.argv[2:]))
