#!/bin/bash
# dev helper: rp.sh C09 KIND-PREFIX [N]: minimises and shows the shortest failures of a kind found by dev.sh
cd /verif
python3 - "$1" "$2" "${3:-1}" <<'P'
import glob,json,sys,subprocess,os
pid,kind,n=sys.argv[1],sys.argv[2],int(sys.argv[3])
o=f'/tmp/dev_{pid}_fast'
l=[]
for f in glob.glob(o+'/fail.*'):
    if f.endswith('.tmp'): continue
    j=json.load(open(f))
    if j['kind'].startswith(kind): l.append((len(j['tape']),f))
l.sort()
for _,f in l[:n]:
    r=subprocess.run([f'build/fast/p_{pid}','minimise',f,'--wall','20'],capture_output=True,text=True)
    r=subprocess.run([f'build/fast/p_{pid}','replay',f],capture_output=True,text=True,errors='replace')
    print(f, r.returncode); print((r.stdout+r.stderr)[-2500:])
P
