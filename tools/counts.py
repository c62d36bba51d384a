#!/usr/bin/env python3
"""Lists seeded changes that touch no line of the original repository."""
import subprocess,re,os
base=subprocess.run(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],capture_output=True,text=True).stdout.strip()
bl={}
def orig(f):
    if f not in bl:
        o=subprocess.run(['git','-C','/repo','blame','-s','--line-porcelain',f],capture_output=True,text=True).stdout
        bl[f]={int(k[2]):k[1]==base for k in (re.match(r'^([0-9a-f]{40}) \d+ (\d+)',l) for l in o.split('\n')) if k}
    return bl[f]
for d in sorted(os.listdir('/verif/seeded')):
    f=None;n=0;hit=0;near=[]
    for l in open(f'/verif/seeded/{d}/patch.diff'):
        if l.startswith('--- '): f=l[6:].strip()
        elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l)[1])
        elif l.startswith('-'):
            hit+=orig(f)[n]; n+=1
        elif l.startswith('+') and not l.startswith('+++'): near.append((orig(f).get(n-1),orig(f).get(n)))
        elif l.startswith(' '): n+=1
    if not hit: print(d,'adds between original lines' if any(a and b for a,b in near) else 'DOES NOT COUNT', set(near))
