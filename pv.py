"""developer tool: python3-vt pv.py [substring ...]"""
import sys
sys.dont_write_bytecode = True
sys.path.insert(0,'/verif')
import contracts
from pyver.src import Source
from pyver.verify import verify, prove_lemma
reg=contracts.load(); src=Source()
pats=[a for a in sys.argv[1:] if not a.startswith('-')]
tr='-t' in sys.argv
mod='-m' in sys.argv
bad=0
for c in reg.all:
    if pats and not any(p in c.qual+c.name for p in pats): continue
    r=verify(src,reg,c,jobs=8,tmo=float(__import__('os').environ.get('TMO','10')))
    print(f"{r.status:12} {c.name:60} obl={len(r.obls)} paths={r.paths} {r.wall_s:.2f}s (solver {r.solver_s:.1f}s) {r.detail}")
    for o in r.failed:
        print("      ",o.label,o.status)
        if '-d' in sys.argv:
            from pyver.verify import to_smt2
            open('/tmp/obl_'+o.name.replace('/','_').replace(':','_')+'.smt2','w').write(to_smt2(o,r.axioms))
        if mod and o.model is not None: print(str(o.model)[:3000])
    if r.status!='proved':
        bad+=1
        if tr and hasattr(r,'trace'): print(r.trace)
for n,l in reg.lemmas.items():
    if pats and not any(p in n for p in pats): continue
    s=prove_lemma(l); print(f"{s:12} lemma {n}")
    bad+= s!='proved'
print("bad:",bad)
