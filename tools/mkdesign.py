#!/usr/bin/env python3
"""Refresh the table of planted changes in DESIGN.md."""
import os
import re
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = subprocess.check_output([sys.executable, V + "/tools/design_seeds.py"],
                            text=True)
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)",
           lambda m: m[1] + t + m[2], s, flags=re.S)
open(p, "w").write(s)
