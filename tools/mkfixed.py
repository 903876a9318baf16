#!/usr/bin/env python3
"""Writes the fixed: lines of known_findings.txt from /repo's fix commits (finding: lines are kept)."""
import subprocess, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
prop={"StartSync":"C01","the lexer never ended":"C01","parse and import":"C03","an if branch":"C02","nested if":"C02","a var without":"C03","subtraction neg":"C05","multiplication and division of":"C02","equal(a,b)":"C02","addGate":"C02","sparse scalar":"C09","scaling a sparse":"C04","dividing a sparse":"C04","evaluating a sparse":"C04","removing an absent":"C04","dense division":"C04","interpolating in two":"C05","doubling a group":"C06","reading a group":"C06","a refused Unmarshal":"C07","GT.Unmarshal":"C07","a return inside":"C02","functions that wait":"C03","whatever stands":"C03","refuse texts whose":"C03","array indices":"C03","statements outside":"C03","public inputs declared":"C03","a declaration in the last":"C02","the bits of a split":"C02","dividing by a constantly":"C03","files that import":"C03","a recursion without":"C03","functions without a name":"C03","a variable of main":"C03",
"the bits of a value that":"C09","random field":"C08","a failing entropy":"C08","a witness":"C09","an unknown input":"C09","the sparse transposed":"C09","gates were":"C05","the verifier":"C11","proving":"C10","a setup":"C08"}
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
f=os.path.join(V,"known_findings.txt")
keep=[l for l in (open(f).read().splitlines() if os.path.exists(f) else []) if not l.startswith("fixed:")]
out=[]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    s=s[5:]
    p=[v for k,v in prop.items() if s.startswith(k)]
    assert p,s
    out.append("fixed: property=%s %s %s"%(p[0],h,s))
open(f,"w").write("\n".join(keep+out)+"\n")
