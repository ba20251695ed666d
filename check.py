#!/usr/bin/env python3
"""usage: check.py <property id> [--tier quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.core import main  # noqa: E402

if __name__ == "__main__":
    main(sys.argv)
