#!/usr/bin/env python3
"""Rewrites the 'fixed:' part of known_findings.txt from /repo's fix commits (the 'known:' lines stay as they are)."""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [(r"^BLBitSet", "P03"), (r"^BLBitArray", "P04"), (r"^BL(Array|String)", "P02"), (r"^CFF dictionary", "P20")]
f = os.path.join(V, "known_findings.txt")
old = [l for l in open(f).read().splitlines() if l.startswith("known:")] if os.path.exists(f) else []
out = ["# known: property=<id> key=<key> <text>   (reported as KNOWN-FINDING, not as a violation)", "# fixed: property=<id> <commit> <what failed>   (suppresses nothing)"] + old
for l in reversed(subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h%x09%s%x09%b%x00", "59cc8ee..HEAD"], text=True).split("\0")):
    l = l.strip("\n")
    if not l: continue
    h, s, b = l.split("\t", 2)
    if not s.startswith("fix:"): continue
    s = s[4:].strip()
    m = re.search(r"\[(P\d\d)\]", b)
    pid = m.group(1) if m else next((p for r, p in MAP if re.search(r, s)), None)
    assert pid, s
    out.append("fixed: property=%s %s %s (failed before)" % (pid, h, s))
open(f, "w").write("\n".join(out) + "\n")
print(len(out))
