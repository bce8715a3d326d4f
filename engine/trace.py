import sys; sys.path.insert(0,'/verif/engine')
from terms import *; import interp, models, time
p=interp.Program('/verif/build/mir/lib/spl_token_wrap.json')
it=interp.Interp(p,{'spl_token_wrap'})
name=sys.argv[1]
inst=p.find(name)[int(sys.argv[2]) if len(sys.argv)>2 else 0]
st=interp.State()
nm=dict((a,b) for a,b in inst['names'])
args=[T('param',nm.get(i+1,'arg%d'%i)) for i in range(inst['argc'])]
t=time.time()
r=it.exec_inst(st,inst['id'],args)
print(len(r),'paths',time.time()-t,'s',it.steps,'steps')
for s,v in r:
    v=it.freeze(s,v)
    if '-a' in sys.argv or not(v.op=='adt' and v.a[1]=='Err'):
        print('=== ',show(v))
        for f in s.facts.show(): print('    F',f)
        for e in s.events():
          if e.kind!='print': print('    E',e.kind,{k:(show(x) if not hasattr(x,'lid') else (x.seqs,x.init,[(o[0].show(),o[1],o[2]) for o in x.outs],[(o[0].show(),o[1],o[2]) for o in x.aborts])) for k,x in e.d.items()})
print('opaque',sorted(it.opaque))
