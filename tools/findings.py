#!/usr/bin/env python3
# Regenerates known_findings.json from the "fix:" commits in /repo (run by hand after a fix is committed; no check runs it).
import json, subprocess
MAP = [("a Ptr released the old","C01"),("Ptr::Detach","C01"),("ComPtr","C02"),("Ptr(new T)","C01"),("string operation that ran out","C05"),("wlower","C05"),("malloc failed","C06"),
 ("adding an element of a list to itself","C06"),("array leaked","C06"),("negative count","C06"),("kept a key without a value","C07"),("enumeration of a dictionary","C07"),("group does not hold","C07"),
 ("attaching or detaching a handler","C08"),("first handler of an event","C08"),("Skip reported","C09"),("lazy query leaked","C09"),("range-based for","C09"),("to a variant","C16"),("to an optional","C16"),("sorting duplicated","C17")]
try: MAP += [tuple(x) for x in json.load(open("/verif/tools/findings_map.json"))]
except FileNotFoundError: pass
out = [dict(property="C01", key="detach-leaks-counter", status="known", what="detaching the sole owner of an object hands the object over but never frees the separately allocated reference counter (8 bytes per call)")]
for l in subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s","78f0dcc..HEAD"],capture_output=True,text=True).stdout.splitlines():
    h, s = l.split(" ",1)
    if not s.startswith("fix: "): continue
    p = [b for a,b in MAP if a in s]; assert len(p)==1,(s,p)
    out.append(dict(property=p[0], key=h, status="fixed", what="fixed: property=%s %s %s"%(p[0],h,s[5:])))
json.dump(dict(findings=out), open("/verif/known_findings.json","w"), indent=1)
