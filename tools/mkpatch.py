#!/usr/bin/env python3
"""mkpatch.py ID FILE < edits   edits: blocks  <<<<\\nold\\n====\\nnew\\n>>>>  -> seeded/ID/patch.diff (made in /tmp/sr_edit)"""
import os, subprocess, sys, re
ID, f = sys.argv[1], sys.argv[2]
W = "/tmp/sr_edit"
if not os.path.isdir(W):
    subprocess.check_call(["git", "clone", "-q", "/repo", W])
subprocess.check_call(["git", "-C", W, "fetch", "-q", "/repo", "HEAD"])
subprocess.check_call(["git", "-C", W, "reset", "-q", "--hard", "FETCH_HEAD"])
d = f"/verif/seeded/{ID}"
os.makedirs(d, exist_ok=True)
pd = d + "/patch.diff"
if "--add" in sys.argv and os.path.exists(pd):
    subprocess.check_call(["git", "-C", W, "apply", pd])
s = open(f"{W}/{f}").read()
for old, new in re.findall(r"<<<<\n(.*?)\n====\n(.*?)\n?>>>>", sys.stdin.read(), re.S):
    if s.count(old) != 1:
        sys.exit(f"pattern occurs {s.count(old)} times: {old[:80]}")
    s = s.replace(old, new)
open(f"{W}/{f}", "w").write(s)
open(pd, "w").write(subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout)
print(open(pd).read())
