#!/usr/bin/env python3
"""edit.py FILE <<< 'OLD\n====\nNEW' : replace exactly one occurrence in $SCRATCH/FILE"""
import sys, os
p = os.path.join(os.environ["SCRATCH"], sys.argv[1]); s = open(p).read()
old, new = sys.stdin.read().rstrip("\n").split("\n====\n")
n = int(sys.argv[2]) if len(sys.argv) > 2 else 1
assert s.count(old) == n, f"{s.count(old)} occurrences"
open(p, "w").write(s.replace(old, new))
