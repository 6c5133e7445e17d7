"""mk.py SEEDS.py : for every seed make patch in scratch copy, verify build/tests/demo, write /verif/seeded/<id>"""
import sys, os, subprocess, json, shutil, importlib.util
spec=importlib.util.spec_from_file_location("seeds",sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only=set(sys.argv[2:])
W="/repo"   # tests import /repo paths: apply in place, undo straight after
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
assert not sh("git -C /repo status --porcelain").stdout.strip()
base=json.load(open("/opt/vp/BASELINE.json"))
stable=set(base.get("passed") or base.get("stable") or base.get("tests") or [])
for s in m.SEEDS:
    if only and s["id"] not in only: continue
    d="/verif/seeded/"+s["id"]
    shutil.rmtree("/tmp/seed/d",ignore_errors=True); os.makedirs("/tmp/seed/d")
    py=s["demo"]
    hdr='import sys\nsys.dont_write_bytecode = True\nsys.path[:0] = ["/repo/Python/research"]\n' if not s.get("pacman") else 'import sys\nsys.dont_write_bytecode = True\nsys.path[:0] = ["/repo/Python/research/scripts/demo", "/repo/Python/research"]\n'
    open("/tmp/seed/d/demo.py","w").write(hdr+py)
    open("/tmp/seed/d/demo.sh","w").write('#!/bin/bash\n%sexec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'%("export PYTHONHASHSEED=%s\n"%s["hs"] if "hs" in s else ""))
    os.chmod("/tmp/seed/d/demo.sh",0o755)
    for f in s.get("files", []): shutil.copy(f,"/tmp/seed/d/")
    r0=sh("bash /tmp/seed/d/demo.sh",cwd="/repo")
    try:
        for f,a,b in s["edits"]:
            p="/repo/Python/research/scripts/"+f
            t=open(p).read()
            assert t.count(a)==1,(s["id"],t.count(a),a)
            open(p,"w").write(t.replace(a,b))
        diff=sh("git -C /repo diff").stdout
        r1=sh("bash /tmp/seed/d/demo.sh",cwd="/repo")
        rb=sh("bash /opt/vp/build.sh")
        rt=sh("bash /opt/vp/test.sh /tmp/seed/t.json")
        res=json.load(open("/tmp/seed/t.json"))
        failed=[x for x in stable if x not in set(res["passed"])]
    finally:
        sh("git -C /repo checkout -- .")
    ok = r0.returncode==0 and r1.returncode!=0 and rb.returncode==0 and not failed
    print(s["id"],s["property"],"OK" if ok else "BAD", r0.returncode,r1.returncode,rb.returncode,failed[:3])
    if not ok: print(r0.stdout[-800:] if r0.returncode else "", r1.stdout[-300:] if r1.returncode==0 else "")
    if ok:
        shutil.rmtree(d,ignore_errors=True); shutil.copytree("/tmp/seed/d",d)
        open(d+"/patch.diff","w").write(diff)
        json.dump(dict(property=s["property"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
