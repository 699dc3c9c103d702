#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]"""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rules'))
import rcbase

if __name__ == '__main__':
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    sys.exit(rcbase.main(pid, mod.TITLE, mod.run, sys.argv[2:]))
