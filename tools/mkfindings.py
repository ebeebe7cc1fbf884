#!/usr/bin/env python3
"""Writes known_findings.txt from the fix commits in /repo (hand-made mapping to properties below)."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = """c350a17 X07
ae33c84 X07
fb26e11 X07
ca35717 X02
5b84d24 C11
8c08b70 R04
07cdacd X02
cecb423 D08
22769e4 D08
6eecd87 D08
23549cb C01
718ceb1 C04
6cb892a C04
97453d5 C03
8d2e222 C03
f7ae71e C03
4ade422 C02
4d81ed0 C02
176593a C10
906c167 C07
4aad682 C07
a7019b5 C09
c9ee688 C08
532c5b8 C08
aa8c96c C03
19d5694 C03
9cd9f6a C08
bc8d6fe C08
c1bad90 C08
cb09675 C08
d5074f4 C10
e9d9750 C05
26dfb17 C11
71e6f9a X04
e3a267e X03
1ba037e X03
fee5f14 X02
d87dba8 X02
8132365 X02
1a7df74 X06
4bf89d4 X05
d72189a X05
fdca444 X05
c0d213d R01
f4427f1 R01
1bb9986 R01
462b8dc R02
ffaf544 R05
e52d4cd R06
5ace72c R04
5d36ab5 R05
f34ddef R05
f46708c R07
d08623e R03
8ed2af1 R03
f0de05f R03
e57044c R03
0dd2a15 D01
c968faf D06
d8464e4 D08
82489e7 D06
03f7288 D06
fb572f6 D06
302fbfc D06
bc255f5 D04
afb7d38 D03
8850a72 D03
70473ee D05
3fab508 D05
63a196e D05
e85fa88 D08
0ebeeca D07
abfe744 D07
09f05c4 D07
d8f536a D07
9e51f12 D07
a628a3d D07
8f81251 D08
c631cbd D08
47d0db6 D08
95ded29 C04
4ad0f5b R02
543ef84 R07
6e509e6 X03
09bbcdf D08
2d3db44 D08
83fffb5 X01
bc5e6ab R07
40110df X09"""
MAP = dict(l.split() for l in MAP.splitlines())
out = ["# Defects of the original tree found with these checks. A 'fixed:' line suppresses nothing.",
       "# A line 'known: property=<id> <signature>' would name an unrepaired defect; there is none."]
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s", "3455bed..HEAD"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    p = next((MAP[k] for k in MAP if h.startswith(k)), None)
    assert p, l
    out.append("fixed: property=%s %s %s" % (p, h[:12], s[5:]))
open(os.path.join(V, "known_findings.txt"), "w").write("\n".join(out) + "\n")
