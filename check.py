#!/usr/bin/env python
"""check.py <property> | check.py --replay <file>"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
    from vlib import harness
    if sys.argv[1] == '--setup':
        from vlib import ext
        sys.exit(0 if ext.locate_extension() else 1)
    if sys.argv[1] == '--replay':
        sys.exit(harness.replay(sys.argv[2]))
    sys.exit(harness.main(sys.argv[1]))
