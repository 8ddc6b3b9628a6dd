#!/usr/bin/env python
"""Entry point:  run.py <PROPERTY> [quick|thorough]   or   run.py --replay <file>"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vendor"))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("FGS_REPO", "/repo"))

from fgsverif.runner import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
