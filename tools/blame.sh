#!/bin/bash
# lists planted bugs whose removed lines were added by our own commits
for d in /verif/seeded/*/; do python3 - "$d" <<'P'
import subprocess,sys,re
d=sys.argv[1]; f=None; bad=[]; n=0; add=0
for l in open(d+'patch.diff'):
    if l.startswith('--- a/'): f=l[6:].strip(); bl=subprocess.run(['git','-C','/repo','blame','-s',f],capture_output=True,text=True).stdout.splitlines()
    elif l.startswith('@@'): ln=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('---') or l.startswith('+++') or l.startswith('diff'): pass
    elif l.startswith('-'):
        n+=1
        if not bl[ln-1].startswith('^'): bad.append(l.strip())
        ln+=1
    elif l.startswith(' '): ln+=1
print(d.split('/')[-2], n, bad if bad else '')
P
done
