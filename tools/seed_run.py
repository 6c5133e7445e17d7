import sys, os, subprocess, json, time
ids=sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
def sh(c): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
res={}
for i in ids:
    m=json.load(open("/verif/seeded/%s/meta.json"%i)); p=m["property"]
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    a=sh("git -C /repo apply /verif/seeded/%s/patch.diff"%i)
    assert a.returncode==0,a.stdout
    try:
        t=time.time(); r=sh("cd /verif && python3 check.py "+p)
    finally: sh("git -C /repo checkout -- .")
    hit=r.returncode==1 and "VIOLATION property=%s "%p in r.stdout
    print("%-40s %s %s rc=%d %.0fs %s"%(i,p,"CAUGHT" if hit else "MISSED",r.returncode,time.time()-t, "" if hit else r.stdout[-500:]),flush=True)
