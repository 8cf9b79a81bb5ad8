#!/usr/bin/env python3
"""Run each planted bug's own check against a scratch copy: catch.py [ID...]; results are kept in tools/catch.json"""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + "/seeded"; W = "/tmp/catch-wt"; J = V + "/tools/catch.json"
ids = sys.argv[1:] or sorted(os.listdir(S))
res = json.load(open(J)) if os.path.exists(J) else {}
for i in ids:
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    subprocess.run(["git", "-C", W, "apply", S + "/" + i + "/patch.diff"], check=True)
    p = json.load(open(S + "/" + i + "/meta.json"))["property"]
    r = subprocess.run(["python3", V + "/check.py", p], env=dict(os.environ, VERIF_REPO=W), capture_output=True, text=True, errors="replace")
    l = [x for x in r.stdout.splitlines() if x.strip() and not x.startswith("KNOWN-FINDING")]
    print("%-28s %s rc=%d %s" % (i, p, r.returncode, (l[0] if l else r.stderr)[:230]), flush=True)
    res[i] = dict(rc=r.returncode, kind=l[0].split(":")[0].replace("REPRODUCED ", "") if r.returncode == 1 and l else "")
    json.dump({k: res[k] for k in sorted(res) if os.path.isdir(S + "/" + k)}, open(J, "w"), indent=1)
shutil.rmtree(W, ignore_errors=True)
