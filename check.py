#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property of the
package in /repo from its source (exit 0 holds, 1 violated, 2 analysis broken)."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from analyzer.core import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
