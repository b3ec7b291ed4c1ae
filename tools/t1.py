import sys,time; sys.path.insert(0,'/verif')
from fvc import build
from fvc.lib import *
from fvc.specs import mutexes
t=time.time()
p,l=build.build(['mutex.cpp','timed_mutex.cpp','recursive_mutex.cpp','recursive_timed_mutex.cpp'])
print('build',time.time()-t)
for props in ({'C01'},{'C02'},{'C03'}):
  for u in mutexes.units(l,props):
    r=run_unit(p,l,u)
    bad=[o for o in r.obls if o.status!='proved']
    print(props,r.name,len(r.obls),'bad',len(bad),'%.2fs'%r.time,'q',r.nq, r.err or '', [k[1] for k,v in r.covers.items() if v])
    for o in bad: print('   ',o.status,o.name,o.loc,(o.model or '')[:500])
