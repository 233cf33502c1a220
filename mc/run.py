#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import engine

def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    e = engine.Engine(prop)
    mod = importlib.import_module(prop.lower())
    kw = mod.check(e, e.tier == 'thorough') or {}
    sys.exit(e.finish(**kw))

if __name__ == '__main__':
    main()
