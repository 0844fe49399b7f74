"""tool.py spec.py [ids...]: build/validate seeded bugs"""
import sys, os, subprocess, shutil, json, runpy, re, concurrent.futures as cf
BASE="4990a69"
def sh(cmd, **k): return subprocess.run(cmd, shell=isinstance(cmd,str), capture_output=True, text=True, **k)
def one(b):
    id=b["id"]; w="/tmp/seed/w-"+id
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    for f,o,n in b["edits"]:
        p=os.path.join(w,f); s=open(p).read()
        if s.count(o)!=1: return id,"EDIT %s count %d: %s"%(f,s.count(o),o[:60])
        open(p,"w").write(s.replace(o,n))
    d=sh(["git","-C",w,"diff"]).stdout
    out=[]
    # removed lines original?
    cur=None; ln=0; orig=mine=0
    for l in d.splitlines():
        if l.startswith("--- a/"): cur=l[6:]
        elif l.startswith("@@"): ln=int(re.match(r"@@ -(\d+)",l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            bl=sh(["git","-C","/repo","blame","-s","-L%d,%d"%(ln,ln),"--porcelain","HEAD","--",cur]).stdout.split()[0]
            new=sh(["git","-C","/repo","merge-base","--is-ancestor",bl,BASE]).returncode!=0
            if new: mine+=1
            else: orig+=1
            ln+=1
        elif l.startswith(" "): ln+=1
    out.append("orig=%d mine=%d"%(orig,mine))
    sd="/tmp/seed/out/"+id
    shutil.rmtree(sd, ignore_errors=True); os.makedirs(sd)
    open(sd+"/patch.diff","w").write(d)
    open(sd+"/demo.py","w").write("import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n"+b["demo"].lstrip())
    open(sd+"/demo.sh","w").write('#!/bin/bash\n# exit 0: the property holds, 1: it is broken\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(sd+"/demo.sh",0o755)
    json.dump({"property":b["property"],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(sd+"/meta.json","w"),indent=1)
    a=sh(["bash",sd+"/demo.sh"],cwd="/repo",timeout=300); c=sh(["bash",sd+"/demo.sh"],cwd=w,timeout=300)
    out.append("demo clean=%d bug=%d"%(a.returncode,c.returncode))
    if a.returncode: out.append("CLEAN: "+(a.stdout+a.stderr)[-300:])
    if not c.returncode: out.append("BUG not shown")
    else: out.append("["+(c.stdout+c.stderr).strip().splitlines()[-1][:100]+"]")
    t="/tmp/seed/t-"+id; shutil.rmtree(t,ignore_errors=True); os.makedirs(t+"/tmp"); shutil.copytree("/opt/vp/testrepo.git",t+"/testrepo.git")
    env=dict(os.environ,TMPDIR=t+"/tmp",GITDB_TEST_GIT_REPO_BASE=t+"/testrepo.git",PYTHONDONTWRITEBYTECODE="1",PYTHONHASHSEED="0")
    r=sh("ulimit -n 48; /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 2>&1 | tail -4",cwd=w,env=env)
    out.append(r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "NOTEST")
    if "failed" in out[-1]: out.append(r.stdout[-200:])
    props=b.get("check",[b["property"]])
    for p in props:
        r=sh(["/opt/venv/bin/python","/verif/run.py",p],cwd="/verif",env=dict(os.environ,VERIF_REPO=w,VERIF_SEED="1",VERIF_NOEVIDENCE="1"))
        ls=[l for l in (r.stdout+r.stderr).splitlines() if l.startswith("case ")]
        out.append("%s exit=%d %s"%(p,r.returncode,(ls[0][:150] if ls else (r.stdout+r.stderr)[-100:].replace("\n"," ") if r.returncode==2 else "")))
    shutil.rmtree(w, ignore_errors=True); shutil.rmtree(t, ignore_errors=True)
    return id," | ".join(out)
bugs=runpy.run_path(sys.argv[1])["BUGS"]
sel=sys.argv[2:]
bugs=[b for b in bugs if not sel or b["id"] in sel]
with cf.ThreadPoolExecutor(3) as ex:
    for r in ex.map(one,bugs): print(*r,flush=True)
