#!/usr/bin/env python3
"""Make and confirm a planted bug: seed.py <dir with spec.py>; spec.py defines ID, PROPERTY, EDITS={file:[(old,new)]}, NEEDS, BREAKS, DEMO (C++ source), FLAGS.
Confirms in /repo (and undoes it): demo passes unchanged, the patch builds, the 285 stable tests pass, the demo fails. Then writes /verif/seeded/<ID>/."""
import sys, os, json, subprocess, runpy, shutil
R="/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def edit(p, reps):
    raw=open(p,'rb').read(); crlf=b'\r\n' in raw; bom=raw[:3]==b'\xef\xbb\xbf'
    s=(raw[3:] if bom else raw).decode().replace('\r\n','\n')
    for a,b in reps:
        assert s.count(a)==1,(p,s.count(a),a)
        s=s.replace(a,b)
    if crlf: s=s.replace('\n','\r\n')
    open(p,'wb').write((b'\xef\xbb\xbf' if bom else b'')+s.encode())
DEMO_SH='''#!/bin/bash
# run with cwd = the repository, after the build: exit 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
for f in $(find Source -name '*.cpp' ! -name '*.Windows.cpp'); do
  g++ %(flags)s -I. -c "$f" -o "$t/$(echo "$f" | tr / _).o" &
done
g++ %(flags)s -I. -c "$d/demo.cpp" -o "$t/demo.cpp.o" &
wait
g++ %(flags)s "$t"/*.o -pthread -o "$t/demo" || exit 3
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 200 ./demo
'''
def main():
    for spec in sys.argv[1:]:
        s=runpy.run_path(spec); i=s["ID"]; d="/verif/seeded/"+i
        os.makedirs(d, exist_ok=True)
        open(d+"/demo.cpp","w").write(s["DEMO"].lstrip())
        flags="-std=c++20 -g -O1 -w "+s.get("FLAGS","-fsanitize=address,undefined -fno-sanitize-recover=undefined")
        open(d+"/demo.sh","w").write(DEMO_SH % dict(flags=flags)); os.chmod(d+"/demo.sh",0o755)
        json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(d+"/meta.json","w"), indent=1)
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty repo"
        ok=[]
        try:
            r=sh("bash %s/demo.sh"%d, cwd=R); ok.append(r.returncode==0)
            if r.returncode: print("  demo fails unpatched:", r.stdout[-1500:], r.stderr[-1500:])
            for f,e in s["EDITS"].items(): edit(R+"/"+f, e)
            open(d+"/patch.diff","w",newline="").write(subprocess.run(["git","-C",R,"diff"],capture_output=True).stdout.decode())
            b=sh("bash /opt/vp/build.sh"); ok.append(b.returncode==0)
            if b.returncode: print("  build:", b.stdout[-2000:])
            sh("bash /opt/vp/test.sh /tmp/seed-o.json")
            base=json.load(open("/opt/vp/BASELINE.json")); base=base if isinstance(base,list) else base.get("passed") or base.get("stable") or base.get("tests")
            got=set(json.load(open("/tmp/seed-o.json"))["passed"]); miss=[t for t in base if t not in got]; ok.append(not miss)
            if miss: print("  tests lost:", miss[:3], len(miss))
            r=sh("bash %s/demo.sh"%d, cwd=R); ok.append(r.returncode!=0 and r.returncode!=3)
            if r.returncode in (0,3): print("  demo patched:", r.returncode, r.stdout[-800:], r.stderr[-800:])
            else: print("  demo says:", (r.stdout+r.stderr).strip()[:200])
        finally: sh("git -C /repo checkout -- .")
        print(i, "OK" if all(ok) else "BAD", ok, flush=True)
        if not all(ok): shutil.rmtree(d)
        if "--" in sys.argv: pass
main()
