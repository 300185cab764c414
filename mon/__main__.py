import importlib
import sys
from . import core

if __name__ == '__main__':
    core.load_gimpy()
    mod = importlib.import_module('props.' + sys.argv[1].lower())
    sys.exit(core.main(mod, sys.argv[2:]))
