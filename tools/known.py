"""Writes known_findings.json.  FINDINGS: defects that are not repaired; FIXED: those that are, by the commit in /repo."""
import json, subprocess
FINDINGS = []
FIXED = """
66b8f03 P27
d0750fd P27
3dde9dc P27
41ce114 P02
14f9a8d P15
35a85fa P15 P10
88cff22 P03 P04
9a2e397 P04
d956253 P03
8df1b81 P12
adad37c P06 P08
c3798fc P06
7a34575 P06
37f7b83 P06 P11
33eef96 P12
9c07699 P11
9b9febd P11
eeb09f7 P10
a86c3d9 P09
e1df2bd P13
cebf389 P12
5a88ae6 P13
4222a36 P19
1c111aa P20 P19 P21 P22 P24
bee2fb6 P21 P24
4215279 P28
8a24020 P27
44ef3a3 P27
729e415 P27
de74612 P27
ae2f308 P27
d906ff8 P30
6762b59 Q01 Q02 Q03 Q04 Q05 Q06 Q07 Q08
d3c875a Q01 Q08
3a5a806 Q02 Q03
dc16a3e Q03
3d6e4e1 Q04
95b0edf Q05 Q06
a9347ad Q06 Q07 Q08
35a7468 Q06
c87c332 Q06
f1263d2 Q06
0b73d05 E02
f85c54a E02
bed9987 E03
824a156 E03
55ba6f9 E01
8cca49a E03 P25
b0a25e9 E01
b7cde99 P20
8c29d33 P21
9086ca8 P30
"""
log = dict(l.split("|", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h|%s", "--grep=^fix:"], capture_output=True, text=True, check=True).stdout.splitlines())
fixed = []
for l in FIXED.split("\n"):
    if l:
        c, *ps = l.split()
        fixed += [f"fixed: property={p} {c} {log[c][5:]}" for p in ps]
        del log[c]
assert not log, log
json.dump({"findings": FINDINGS, "fixed": fixed}, open("/verif/known_findings.json", "w"), indent=1)
