"""developer tool: print one cube of the first failing obligation / event"""
import sys
sys.path.insert(0,'/verif/engine')
import run1
I=run1.run(sys.argv[1],entry=sys.argv[2],cfg=eval(sys.argv[3]))
B=I.d.b
for r in [(r['msg'],r['cond'],r['detail']) for r in I.results if not r['ok']][:1]+[(e[0]+str(e[1]),e[3],'') for e in I.events][:1]:
    print('==',r[0],r[2]); f=r[1]; w={}
    while f!=1:
        n=B.names.get(B.lvl[f])
        v=bool(B.hi[f])
        if n[0] in ('lt','eq'): print('  ',n[0], I.d.show_leaf(I.d.cmp_desc[n][0]), v)
        else: w.setdefault(n[0],[]).append((n[1],v))
        f=B.hi[f] if v else B.lo[f]
    for k,l in w.items(): print('  ',k,sum(v<<i for i,v in l if isinstance(i,int)), len(l))
