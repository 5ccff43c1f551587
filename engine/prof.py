"""developer tool: BDD node growth per source line"""
import sys, collections
sys.path.insert(0, '/verif/engine')
import interp, run1
cnt = collections.Counter()
last = [0, None]
orig = interp.Interp.instr
def instr(self, act, st, i, env):
    n = len(self.d.b.lvl)
    cnt[last[1]] += n - last[0]
    last[0] = n
    r = orig(self, act, st, i, env)
    n = len(self.d.b.lvl)
    if i.op != 'call':
        cnt[(i.file, i.line, i.op)] += n - last[0]
    last[0] = n
    last[1] = (i.file, i.line, i.op + '/edge')
    return r
interp.Interp.instr = instr
I = run1.run(sys.argv[1], entry=sys.argv[2], cfg=eval(sys.argv[3]) if len(sys.argv) > 3 else None)
for k, v in cnt.most_common(14):
    print(v, k)
if len(sys.argv)>4:
    import pprint
    vs=collections.Counter(I.d.b.lvl)
