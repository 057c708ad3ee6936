cd /verif
for id in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C15 C16 C17 C18 C19 C20 C21 C22; do
 for w in 8 3 1; do
  GSIM_RUNS=1500 GSIM_WORKERS=$w VERIF_SEED=$1 sim/target/debug/gsim check $id >/dev/null 2>&1; cp evidence/$id.json /tmp/det_$w.json; done
 python3 - $id <<'P'
import json,sys
a=[json.load(open(f'/tmp/det_{w}.json'))['coverage'] for w in (8,3,1)]
def flat(d,p=''):
    o={}
    for k,v in d.items():
        if isinstance(v,dict): o.update(flat(v,p+k+'.'))
        else: o[p+k]=v
    return o
a=[flat(x) for x in a]
ks=set().union(*a)
print(sys.argv[1],[ (k,[x.get(k) for x in a]) for k in sorted(ks) if len({json.dumps(x.get(k)) for x in a})>1 and not isinstance(a[0].get(k),list)])
P
done
