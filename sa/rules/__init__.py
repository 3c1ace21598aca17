import importlib
import os

for _f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if _f.endswith("_rules.py"):
        importlib.import_module("." + _f[:-3], __name__)
