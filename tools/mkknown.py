"""Writes known_findings.json: recorded findings, and repaired defects."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = []
P = {"82e950e":"P02","8bea9da":"P06","d6dfc86":"P06","f18fff9":"P01","1091774":"P06","a3d17c2":"P02","82645cc":"P07","9bc2fe4":"P06","5455efd":"P02","2cda46e":"P02","8e8db51":"P07","8ceba9b":"P01","153e25e":"P02","533430b":"P17","f31ed02":"P15","da97e34":"P17","289ba1d":"P04","bb3c324":"P07","3f374d2":"P05","2579006":"P12","cb70995":"P12","7cf2df1":"P12","dc002ff":"P12","444bea1":"P12","d550e4e":"P13","1420653":"P13","7225596":"P10","b28b964":"P10","fe470f3":"P11","3581dcc":"P08","8e6d946":"P18","ac4d50d":"P18","be766a7":"P18","77139bf":"P06","50d34a6":"P07","8e962bb":"P06","15ae21b":"P06","ba0bf79":"P07","26694bb":"P10","a6b3059":"P16","cccb9fb":"P07","3ce033b":"P07","ff25ddc":"P21","5ac7b17":"P21","da46547":"P21","22ed8c2":"P06","e08265c":"P04","84bc1ac":"P07","c55ff84":"P06","68a045f":"P06","6a99b13":"P22","b223af0":"P22","778ca51":"P22","64e881f":"P22","cf70210":"P22","0a24d58":"P18","fb2be0d":"P17","a2c1b04":"P16"}
fixed = []
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines():
    h, s = l.split(" ",1)
    if s.startswith("fix: "):
        fixed.append("fixed: property=%s %s %s" % (P[h[:7]], h, s[5:]))
json.dump({"findings": FINDINGS, "fixed": fixed}, open(ROOT + "/known_findings.json","w"), indent=1)
