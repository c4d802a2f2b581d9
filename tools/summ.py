import json,collections
S=collections.Counter();R=collections.Counter()
nf=0;inc=collections.Counter()
for l in open('/tmp/irs.jsonl'):
    d=json.loads(l)
    if d['t'] in('stats','engine'):
        for k,v in d.items():
            if k=='reached':
                for a,b in v.items(): R[a]+=b
            elif isinstance(v,(int,float)):
                if k.startswith('max'): S[k]=max(S[k],v)
                else: S[k]+=v
    if d['t']=='run': run=d
    if d['t']=='fail':
        nf+=1
        if nf<=3: print('FAIL',d['kind'],d['id'],d['msg'][:120],d['at'][:260],d['inputs'][:12])
    if d['t']=='incomplete': inc[d['msg'][:80]]+=1; at=d['at'][:250]
keep=['done','panics','fails','incomplete','queries','solver_s','max_query_s','insts','checks_solver']
print(run['wall_s'],'s',{k:round(S[k],2) for k in keep if S[k]},dict(R),dict(inc) and (dict(inc),at))
