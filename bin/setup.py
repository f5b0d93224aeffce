#!/usr/bin/env python3
"""builds everything the checks need"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import CheckError, make  # noqa: E402

try:
    print(make("sim", "dsim"))
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "tsimcheck.py")):
        import tsimcheck
        tsimcheck.build()
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "variantcheck.py")):
        import variantcheck
        variantcheck.build()
except CheckError as e:
    # a check reports it again; building is repeated there
    print("ERROR", e)
    sys.exit(1)
