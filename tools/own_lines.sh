#!/bin/bash
# lists planted bugs that change only lines added by our own commits in /repo
BASE=845beb2
for d in "$(dirname "$(readlink -f "$0")")"/../seeded/*/; do python3 - "$d" $BASE <<'P'
import sys,re,subprocess
d,base=sys.argv[1:]
ok=False; f=None; bl=None; at=0
for l in open(d+'patch.diff'):
    m=re.match(r'--- a/(.*)',l)
    if m: f=m[1].strip(); bl=None; continue
    if l.startswith(("+++","diff","index")): continue
    m=re.match(r'@@ -(\d+)(?:,(\d+))?',l)
    if m: at=int(m[1]); continue
    if bl is None:
        o=subprocess.run(['git','-C','/repo','blame','-s','-l','HEAD','--',f],capture_output=True,text=True).stdout.split('\n')
        bl=[x.startswith('^') for x in o]
    if not f: continue
    if l.startswith('-'): ok|=bl[at-1]; at+=1
    elif l.startswith('+'): ok|= at>=2 and bl[at-2] and bl[at-1]
    elif l.startswith(' '): at+=1
if not ok: print('only own lines:',d.rstrip('/').split('/')[-1])
P
done
