#!/usr/bin/env python3
"""mkbounds.py > BOUNDS.md: what every tier enumerates, as the checks themselves state it
(each check is started with a deadline of one second: the statements of the bounds do not need the runs)."""
import subprocess, json, os, tempfile, shutil
V='/verif'; ENV=dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOSUMDB='off')
d=tempfile.mkdtemp(); b=d+'/vp'
subprocess.run(['go','build','-o',b,'.'],cwd=V+'/harness',env=ENV,check=True)
shutil.copy(V+'/KNOWN_FINDINGS.txt',d)
print('# Bounds of the explorations\n\nGenerated by tools/mkbounds.py from the statements of the checks.\n'
 'C13 additionally runs the schedules of two threads (DESIGN.md), C15 the iteration orders.\n')
for n in range(1,22):
    p='C%02d'%n; print('##',p)
    o={}
    for t in ('quick','thorough'):
        subprocess.run([b,'-prop',p,'-tier',t,'-root',d,'-deadline','1'],env=ENV,capture_output=True)
        o[t]=json.load(open(f'{d}/evidence/{p}.json'))['coverage']['bounds']
    for t in o: o[t]=[x for x in o[t] if 'could not be' not in x]
    both=[x for x in o['quick'] if x in o['thorough']]
    for x in both: print('-',x)
    for t in ('quick','thorough'):
        l=[x for x in o[t] if x not in both]
        if l: print(f'\n{t} only:\n')
        for x in l: print('-',x)
    print()
shutil.rmtree(d)
