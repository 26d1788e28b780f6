#!/usr/bin/env python3
"""Entry point of every check: check.py PROPERTY [--tier quick|thorough]."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
from checks import REGISTRY

if __name__ == "__main__":
    sys.exit(vf.main(REGISTRY))
