"""appends property entries (python source on stdin) to properties.py"""
import os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.py")
s = open(p).read().rstrip()
assert s.endswith("]")
s = s[:-1] + sys.stdin.read().rstrip() + "\n]\n"
compile(s, p, "exec")
open(p, "w").write(s)
