"""addprop.py: append P(...) entries read from stdin (python text) before the end of PROPS"""
import sys
p = "/verif/tools/proptext.py"
s = open(p).read()
new = sys.stdin.read().rstrip() + "\n"
i = s.index("]\n\nNOT_APPLICABLE")
open(p, "w").write(s[:i] + new + s[i:])
