import importlib, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
P = sys.argv[1]
mod = importlib.import_module(P.lower())
common.main(P, mod.run, sys.argv[2:])
