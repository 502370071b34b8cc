"""Say, for each planted bug, how many of the lines it removes come from the original repository."""
import re, subprocess, pathlib
BASE="bc3364c"
for d in sorted(pathlib.Path("/verif/seeded").iterdir()):
    f=None; o=0; m=0; ins=0
    for l in (d/"patch.diff").read_text().splitlines():
        if l.startswith("--- "): f=l[6:]; bl=subprocess.run(["git","-C","/repo","blame","-s",f],capture_output=True,text=True).stdout.splitlines()
        elif l.startswith("+++ "): pass
        elif l.startswith("@@"): n=int(re.match(r"@@ -(\d+)",l).group(1))
        elif l.startswith("-"):
            if bl[n-1].lstrip("^").startswith(BASE): o+=1
            else: m+=1
            n+=1
        elif l.startswith("+"): ins+=1
        elif f and not l.startswith(("diff","index","\\")): n+=1
    print(d.name,"base",o,"mine",m,"added",ins, "" if o else "  <-- no original line removed")
