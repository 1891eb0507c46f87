#!/usr/bin/env python3
"""Entry point of every check:  run.py <PROPERTY> [quick|thorough]
                                run.py <PROPERTY> replay <FILE>

Exit 0: the property held on everything explored.  Exit 1: violated, with a
line  VIOLATION property=<id> replay=<path>.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from mc import driver  # noqa: E402

if __name__ == "__main__":
    sys.exit(driver.main(sys.argv[1:]))
