#!/usr/bin/env python3
"""check.py <property id> [--only entry]: decide one property on /repo's current sources."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import runner
import props
import build


def known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l.split('key=', 1)[1]
                key, _, text = rest.partition(' :: ')
                out.append((key.strip(), text.strip()))
    return out


def main():
    pid = sys.argv[1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    verbose = '-v' in sys.argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = props.PROPS[pid]
    hs = [h for h in props.harnesses(pid, tier) if only is None or h[1] == only]
    viol = []
    errors = []
    obligations = discharged = 0
    units = []
    fns = set()
    agg = {}
    per = []
    if hs:
        outs, units = runner.run_harnesses(hs)
        for o, h in zip(outs, hs):
            if 'error' in o:
                errors.append('%s: %s\n%s' % (o['entry'], o['error'], o.get('trace', '')))
                continue
            cfg = h[2]
            kinds = runner.MEM | set(cfg.get('events', ()))
            kinds -= set(cfg.get('no_events', ()))
            nobl = len(o['results'])
            for r in o['results']:
                if not r['ok']:
                    viol.append(dict(key='%s/%s' % (o['entry'], r['msg']), where=r['at'], what=r['msg'], entry=o['entry'],
                                     kind=r['kind'], cond=r.get('cond', ''), detail=r.get('detail', '')))
            for e in o['events']:
                if e['kind'] not in kinds:
                    continue
                libframe = [f for f in e['stack'] if not f.startswith('h_')]
                if not runner.is_lib(e['at']):
                    if e['kind'] in ('assert',) or not libframe:
                        errors.append('%s: %s in the specification at %s: %s' % (o['entry'], e['kind'], e['at'], e['detail']))
                        continue
                viol.append(dict(key='%s/%s@%s' % (o['entry'], e['kind'], e['fn']), where=e['at'], what='%s: %s' % (e['kind'], e['detail']),
                                 entry=o['entry'], kind=e['kind'], cond=e['cond'], detail='call chain: ' + ' > '.join(e['stack'])))
            if nobl < cfg.get('min', 1):
                errors.append('%s: only %d obligations were generated, expected at least %d' % (o['entry'], nobl, cfg.get('min', 1)))
            bad = sum(1 for r in o['results'] if not r['ok'])
            acc = o['stats']['mem_accesses']
            obligations += nobl + acc
            discharged += nobl - bad + o['stats']['inbounds_proved']
            for k, v in o['stats'].items():
                agg[k] = agg.get(k, 0) + v
            libf = [f for f in o['fns'] if not f.startswith('h_')]
            fns |= set(libf)
            for need in cfg.get('need', ()):
                if need not in o['fns']:
                    errors.append('%s: anchor function %s was not reached' % (o['entry'], need))
            per.append(dict(harness=h[0], entry=o['entry'], obligations=nobl, failed=bad, mem_accesses=acc,
                            instructions=o['stats']['instructions'], joins=o['stats']['joins'], bdd_nodes=o['bdd'],
                            terms=o['terms'], wall_s=round(o['wall'], 2)))
            if verbose:
                print(per[-1])
    for fn in P.get('structural', ()):
        if only is not None:
            break
        try:
            r = fn()
        except build.BuildError:
            raise
        units = r.get('units', units)
        obligations += r['obligations']
        discharged += r['obligations'] - len(r['violations'])
        viol += r['violations']
        errors += r.get('errors', [])
        fns |= set(r.get('fns', ()))
        per.append(dict(rule=r['rule'], obligations=r['obligations'], failed=len(r['violations']),
                        instances=r.get('instances', [])[:200]))
    kn = known(pid)
    hit = []
    new = []
    for v in viol:
        for key, text in kn:
            if v['key'] == key:
                hit.append((key, text))
                break
        else:
            new.append(v)
    cov = dict(obligations=obligations, discharged=discharged,
               checker_cmd='python3 check.py %s' % pid,
               trusted_base=['clang 18 -O0 lowering + sroa/loop-simplify/lcssa', 'engine/*.py abstract interpreter', 'the written specification in spec/'],
               explanation=P['how'], units=units, functions=sorted(fns), analysed=per, engine=agg)
    if 'level' in P and P['level'] == 'other':
        cov.pop('checker_cmd'), cov.pop('trusted_base')
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'), coverage=cov,
              assumptions=P.get('assumes', []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if only is None:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for key, text in sorted(set(hit)):
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    if new:
        path = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
        with open(path, 'w') as f:
            for v in new:
                f.write('%s\n  at %s (harness %s)\n  when: %s\n  %s\n\n' % (v['what'], v['where'], v.get('entry', '-'), v.get('cond', ''), v.get('detail', '')))
            f.write('re-run: python3 check.py %s%s\n' % (pid, ' --only ' + new[0]['entry'] if new[0].get('entry') else ''))
        for v in new[:12]:
            print('%s: %s [%s] %s' % (v['where'], v['what'], v.get('entry', '-'), v.get('detail', '')[:400].replace('\n', ' ')))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        for e in errors:
            print('ANALYSIS ERROR:', e)
        return 2
    print('ok %s: %d obligations over %d functions, %d harnesses, %.1fs' % (pid, obligations, len(fns), len(hs), time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
