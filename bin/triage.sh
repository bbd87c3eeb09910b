#!/bin/bash
# triage.sh SPEC DRIVER CASES SEED [MODE]: run a driver and list every rejected case (development aid)
W=/tmp/w; cd $W; rm -f l? e?
for i in 0 1 2 3 4 5 6 7; do MALLOC_PERTURB_=165 ./$2 --cases $3 --shard $i --nshards 8 --out l$i --seed $4 ${5:+--mode $5} ${SC:+--scripts $SC} 2>e$i & done; wait
python3 - <<'P'
import sys
sys.path.insert(0,'/verif/bin')
import check,json
cases={};pend={}
for i in range(8):
    for line in open('/tmp/w/l%d'%i,errors='replace'):
        k,c,j=line.rstrip('\n').split(' ',2); c=int(c)
        if k=='C': cases[c]=[]
        elif k=='E': cases[c].append(j)
        elif k=='P': pend[c]=j
        elif k=='X': cases.setdefault(c,[]).append(json.dumps({'op':'CRASH','how':json.loads(j)['how'],'during':pend.get(c,'')}))
check.write_cases(cases,'/tmp/w/t/tr.ndjson')
P
for k in $(seq ${MAX:-25}); do
cd /verif/spec
VT_TRACE=/tmp/w/t/tr.ndjson timeout ${T:-600} java -XX:+UseParallelGC -Xmx8g -Xss64m -cp /tmp/w/t/java:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noTE -workers 8 -metadir /tmp/w/t/md -config ${CFG:-Trace.cfg} $1 > /tmp/w/t/out.txt 2>&1
python3 - <<'P' || break
import re,json,sys,os
out=open('/tmp/w/t/out.txt').read()
lines=open('/tmp/w/t/tr.ndjson').read().splitlines()
c=re.findall(r'/\\ c = (\d+)',out); l=re.findall(r'/\\ l = (\d+)',out)
if 'Deadlock reached' in out and c:
    cs=json.loads(lines[int(c[-1])-1]); e=cs['ev'][int(l[-1])-1]
    print(cs['id'],l[-1],json.dumps(e)[:int(os.environ.get('CH','160'))])
    # the cases before it were not all finished: keep them
    del lines[int(c[-1])-1]
    open('/tmp/w/t/tr.ndjson','w').write('\n'.join(lines)+'\n')
    sys.exit(0)
m=re.findall(r'.*states generated.*',out)
print(m[-1] if m else '', '' if 'No error' in out else out[-1500:])
sys.exit(1)
P
done
