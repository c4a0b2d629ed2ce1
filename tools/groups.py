import os,sys,threading
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
threading.stack_size(512*1024*1024); sys.setrecursionlimit(400000)
from sa import registry as r, driver, confine
SETS={'wots.c':[r.wots,r.leaf],'xmss_commons.c':[r.leaf,r.verify],'hash.c':[r.hashes,r.leaf],'fips202.c':[r.shake],'utils.c':[r.codec,r.hashes,r.wots16,r.verify],
 'hash_address.c':[r.codec,r.wots16],'randombytes.c':[r.randomb,r.purity],'xmss.c':[r.wrap('keypair','sign','sign_open')],'params.c':[r.params],
 'xmss_core.c':[r.treehash,r.sign_ref,r.keygen_ref],'xmss_core_fast.c':[r.traversal,r.sign_fast,r.keygen_fast],
 'ui/sign.c':[r.tools('sign')],'ui/open.c':[r.tools('open')],'ui/keypair.c':[r.tools('keypair')]}
def go():
    mode=sys.argv[1]; files=sys.argv[2].split(','); filt=sys.argv[3:] 
    ts={}
    for f in files:
        for g in SETS[f]:
            for x in g(): ts[x[0]]=x+(None,)
    if mode=='confine': confine.ON=True
    if mode=='pure': confine.PURE=True
    ts=list(ts.values())
    if filt: ts=[x for x in ts if any(a in x[0] for a in filt)]
    v=e=ok=0
    seen=set()
    for st,nm,res in driver.run_tasks(ts):
        if st=='err':
            e+=1
            if e<4: print('  UNDECIDED',nm,(res.strip().splitlines() or [''])[-1][:250])
            continue
        ok+=sum(map(sum,res['by'].values()))
        for x in res['lost']:
            e+=1
            if e<4: print('  LOST',nm,str(x)[:250])
        for x in res['viol']:
            v+=1
            if (x[0],x[1]) not in seen and len(seen)<6: seen.add((x[0],x[1])); print('  ALARM',nm,str(x)[:500])
    print(f'  {mode}: {len(ts)} groups, {ok} hold, {v} alarms, {e} undecided',flush=True)
    os._exit(0)
t=threading.Thread(target=go); t.start(); t.join()
