"""developer runner: dev.py spec.c [entry ...]  -- all entries in parallel, concise output"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner, props
f = sys.argv[1]
WC = int(os.environ.get('WC', 200))
ents = [e for e in sys.argv[2:] if not e.startswith(('{','-'))]
cfg = eval([e for e in sys.argv[2:] if e.startswith('{')][0]) if sys.argv[-1].startswith('{') else {}
cf = {(h[0], h[1]): h[2] for p in props.PROPS.values() for h in list(p['hs']) + list(p.get('thorough', ())) if len(h) == 3}
if not ents:
    ents = re.findall(r'^void (h_\w+)\(void\)', open(os.path.join(runner.VERIF, 'spec', f)).read(), re.M)
hs = [(f, e, dict(cf.get((f, e), {}), **cfg)) for e in ents]
outs, _ = runner.run_harnesses(hs)
for o, h in zip(outs, hs):
    if 'error' in o:
        print('ERR ', o['entry'], o['error'][:300], o.get('trace', '')[:3500] if '-v' in sys.argv else '', '%.1fs' % o['wall']); continue
    kinds = (runner.MEM | set(h[2].get('events', ()))) - set(h[2].get('no_events', ()))
    bad = [r for r in o['results'] if not r['ok']]; ev = [e for e in o['events'] if e['kind'] in kinds]
    print('ok  ' if not bad and not ev else 'FAIL', o['entry'], len(o['results']), 'obl', len(bad), 'bad', len(ev), 'ev %.1fs' % o['wall'], 'bdd', o['bdd'])
    for r in bad[:4]:
        print('   BAD', r['msg'], r['at'], '| when', r['cond'][:WC], '|', r['detail'][:WC].replace('\n', ' '))
    for e in ev[:4]:
        print('   EV', e['kind'], e['at'], e['detail'][:120], '| when', e['cond'][:160], '>'.join(e['stack'][-3:]))
