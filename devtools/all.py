#!/usr/bin/env python3
# all.py harness [args...]: all shards, list of failures grouped
import sys,subprocess,json,os,shutil,time
sys.path.insert(0,'/verif/bin'); sys.path.insert(0,'/verif')
import vpbuild
from checks import HARNESSES
h=sys.argv[1]; args=sys.argv[2:]
b=vpbuild.build(h,HARNESSES[h])
env=dict(os.environ,ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:new_delete_type_mismatch=0")
N=int(os.environ.get('N','8')); T=int(os.environ.get('T','900'))
ps=[];t=time.time()
for i in range(N):
    d=f'/dev/shm/vscratch_all_{os.getpid()}_{i}'; os.makedirs(d)
    o=f'/tmp/all_{os.getpid()}_{i}'
    ps.append((subprocess.Popen(['timeout',str(T),b,'--shard',f'{i}/{N}','--fails',os.environ.get('FAILS','100000'),'--scratch',d,'--out',o+'.json','--progress',o+'.prog']+args,stdout=open(o+'.log','w'),stderr=subprocess.STDOUT,env=env,cwd=d),d,o))
fails=[];kn={};ran=0;cnt={};outs=set()
import struct
for p,d,o in ps:
    rc=p.wait()
    if rc or not os.path.exists(o+'.json'):
        print('rc',rc,'case',struct.unpack('q',open(o+'.prog','rb').read(8))[0] if os.path.exists(o+'.prog') else '?',''.join(open(o+'.log',errors='replace').readlines()[-int(os.environ.get('L','12')):]))
    else:
        r=json.load(open(o+'.json')); fails+=r['fails']; ran+=r['ran']
        for k in r['known']: kn.setdefault(k['key'],k)
        for k,v in r['counters'].items(): cnt[k]=cnt.get(k,0)+v
        outs.update(open(o+'.json.hashes','rb').read()[i:i+8] for i in range(0,os.path.getsize(o+'.json.hashes'),8))
    shutil.rmtree(d,ignore_errors=True)
    for e in('.json','.log','.prog','.json.hashes'):
        try: os.unlink(o+e)
        except OSError: pass
print(f'ran {ran} fails {len(fails)} outcomes {len(outs)} {cnt} {time.time()-t:.1f}s')
for k in kn.values(): print('KNOWN',k)
for f in sorted(fails,key=lambda f:f['idx'])[:int(os.environ.get('M','25'))]: print(f['idx'],f['desc'][:300],'|',f['msg'][:500])
