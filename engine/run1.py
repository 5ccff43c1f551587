import sys,time
sys.path.insert(0,'/verif/engine')
import build,ll,interp
def run(spec,cfg=None,entry='spec_main'):
    t=time.time()
    p,u=build.build([spec,'/verif/spec/stub.c'])
    m=ll.Module(p)
    cfg=dict(cfg or {}); cfg.setdefault('stubs',{}).setdefault('sid_to_string','stub_sid_to_string'); I=interp.Interp(m,cfg)
    st=interp.State(1,{})
    import threading
    threading.stack_size(1<<30)
    err=[]
    def go():
        try: I.call(st,m.funcs[entry],[])
        except BaseException as e:
            import traceback; print(''.join(traceback.format_exc().splitlines(True)[-6:])); print('at',I.loc(),I.stack)
    th=threading.Thread(target=go); th.start(); th.join()
    bad=[r for r in I.results if not r['ok']]
    print('results',len(I.results),'bad',len(bad),'events',len(I.events),I.stats,'time',time.time()-t,'bdd',len(I.d.b.lvl),'leaves',len(I.d.leaf_list))
    for r in bad[:20]: print(' BAD',r['kind'],r['msg'],r['at'],'cond',I.d.show_cond(r['cond'])[:300] if r['kind']!='cover' else '','\n     ',r['detail'][:600])
    for e in I.events[:20]: print(' EV',e[0],e[1],e[2],I.d.show_cond(e[3]),e[4])
    return I
if __name__=="__main__": run(sys.argv[1],entry=sys.argv[2],cfg=eval(sys.argv[3]) if len(sys.argv)>3 else None)
