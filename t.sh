#!/bin/bash
# t.sh harness scenario variant count [tags] : quick triage batch, one line per distinct message
E=$(python3 /verif/simbuild.py $1 | cut -d' ' -f2); 
for w in 0 1 2 3 4 5 6 7; do echo "B $((w+${BASE:-1})) 8 $4 ${WALL:-60000} 100000 -" | timeout 300 $E --scenario $2 --variant $3 ${5:+--tags $5} 2>/dev/null > /tmp/t.$w & done; wait
cat /tmp/t.[0-7] | python3 -c "
import sys,json,re,subprocess
agg={};runs=0;inc=0;to=0;oth={};pr={}
for l in sys.stdin:
    try: r=json.loads(l)
    except Exception: continue
    if r.get('summary'):
        runs+=r['runs'];inc+=r['inconclusive'];to+=r['timeouts'];
        for k,v in r['probes'].items(): pr[k]=pr.get(k,0)+v
        continue
    k=(r['tag'],re.sub(r'0x[0-9a-f]+|\d+','N',re.sub(r'^t=[0-9.]+s: ','',r['msg']))[:110]); a=agg.setdefault(k,[0,r['seed'],r]); a[0]+=1
    if r['ndec']<a[2]['ndec']: a[1]=r['seed'];a[2]=r
print('runs',runs,'inconcl',inc,'timeouts',to,pr)
for k,a in sorted(agg.items(),key=lambda x:-x[1][0]):
    print(a[0],k[0],'seed',a[1],a[2]['msg'][:int('${W:-230}')])
    if a[2]['bt']:
        o=subprocess.run(['addr2line','-Cfpe','$E']+['0x'+b for b in a[2]['bt']],capture_output=True,text=True).stdout
        print('\n'.join('      '+x[:150] for x in o.splitlines() if '??' not in x and '/sim/' not in x and 'std::' not in x[:6])[:1400])
"
