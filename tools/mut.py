#!/usr/bin/env python3
"""mut.py FILE OLD NEW ID[:cases]... : apply replacement in /repo/rstar/src/FILE, run checks, undo"""
import sys,subprocess,os
f='/repo/rstar/src/'+sys.argv[1]; old,new=sys.argv[2:4]
s=open(f).read()
n=s.count(old)
if n<1: sys.exit('pattern not found')
open(f,'w').write(s.replace(old,new,1))
try:
    if os.environ.get('TESTS'):
        r=subprocess.run('cd /repo && cargo test --offline -q -p rstar --all-features 2>&1 | grep -E "test result|error|FAILED|failed" | head',shell=True,capture_output=True,text=True); print(r.stdout)
    for i in sys.argv[4:]:
        i,_,c=i.partition(':')
        env=dict(os.environ); 
        if c: env['RCHECK_CASES']=c
        r=subprocess.run(['/verif/check.sh',i,'quick'],env=env,capture_output=True,text=True)
        print(i,r.returncode,'\n'.join(x[:300] for x in r.stdout.splitlines()[-4:]))
finally:
    open(f,'w').write(s)
    subprocess.run(['git','-C','/repo','status','--short'])
