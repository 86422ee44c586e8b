"""Decide one property of /repo's current source: python3 check.py <ID> [--thorough]."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from fpsa.harness import main  # noqa: E402

if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(code)
