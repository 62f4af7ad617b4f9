#!/usr/bin/env python3
"""Usage: check.py <property id>   (decides one property from /repo's source)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

if __name__ == "__main__":
    from sa.runner import main
    sys.stdout.flush()
    rc = main(sys.argv[1])
    sys.stdout.flush()
    os._exit(rc)
