import importlib
import sys
from mon import core

if __name__ == '__main__':
    mod = importlib.import_module('mon.' + sys.argv[1].lower())
    core.main(mod)
