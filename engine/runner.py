"""Run the harnesses of one property through the abstract interpreter and report."""
import ctypes
import json
import multiprocessing as mp
import os
import shutil
import sys
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
import build
import ll
import interp

MEM = {'oob', 'oob?', 'null', 'constwrite', 'assert', 'nullcall', 'uninit', 'owner', 'order', 'hang'}


class AnalysisError(Exception):
    pass


class OutOfTime(BaseException):
    pass


LIMIT = float(os.environ.get('WC_LIMIT', 800))     # seconds one check may take
GRACE = 60                                         # what the other harnesses get once a violation is certain
_stop = None                                       # shared: when to stop


def _failed(out):
    return any(not r['ok'] and r['kind'] != 'cover' for r in out.get('results', ()))


def _wait(th):
    """join the analysing thread; stop it at the shared deadline"""
    raised = 0
    while th.is_alive():
        th.join(1)
        if _stop is None or time.time() < _stop.value or not th.is_alive():
            continue
        if raised == 0 or time.time() > raised + 20:
            if raised and time.time() > _stop.value + 90:
                return False
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(th.ident), ctypes.py_object(OutOfTime))
            raised = time.time()
    return True


def _job(args):
    path, entry, cfg = args
    out = {}
    t0 = time.time()

    def go():
        nonlocal cfg
        try:
            mod = ll.Module(path)
            if entry not in mod.funcs:
                raise AnalysisError('harness entry %s not found' % entry)
            cfg = dict(cfg)
            if not cfg.get('real_strings'):
                cfg['stubs'] = dict(dict(sid_to_string='stub_sid_to_string'), **cfg.get('stubs', {}))
            I = interp.Interp(mod, cfg)
            st = interp.State(1, {})
            try:
                I.call(st, mod.funcs[entry], [])
            except BaseException:
                # what has been refuted so far stays refuted: report it rather than the failure to go on
                if not any(not r['ok'] and r['kind'] != 'cover' for r in I.results):
                    raise
                out['truncated'] = True
            d = I.d

            def show(c):
                try:
                    return d.show_cond(c)
                except BaseException:
                    return '(a condition too large to print)'
            res = []
            for r in I.results:
                q = dict(kind=r['kind'], ok=bool(r['ok']), msg=r['msg'], at=r['at'])
                if not r['ok']:
                    q['cond'] = show(r['cond'])[:3000] if r['kind'] != 'cover' else ''
                    q['detail'] = (r['detail'] or '')[:3000]
                res.append(q)
            ev = []
            seen = set()
            for e in I.events:
                k = (e[0], e[1], e[2])
                if k in seen:
                    continue
                seen.add(k)
                ev.append(dict(kind=e[0], at=e[1], fn=e[2], cond=show(e[3])[:2000], detail=e[4],
                               stack=list(e[5])))
            out.update(results=res, events=ev, stats=I.stats, fns=sorted(n for n in I.fns_seen),
                       bdd=len(d.b.lvl), terms=len(d.leaf_list))
        except BaseException as e:
            out['error'] = '%s: %s' % (type(e).__name__, e)
            out['trace'] = traceback.format_exc()[-3000:]
            try:
                out['error'] += ' (at %s, stack %s)' % (I.loc(), I.stack)
            except BaseException:
                pass
    threading.stack_size(1 << 30)
    sys.setrecursionlimit(1 << 20)
    th = threading.Thread(target=go, daemon=True)
    th.start()
    if not _wait(th):
        out = dict(error='the analysis did not end in time')
    if _stop is not None and _failed(out):
        _stop.value = min(_stop.value, time.time() + GRACE)
    out['entry'] = entry
    out['wall'] = time.time() - t0
    return out


def is_lib(at):
    f = '/' + at.split(':')[0]
    return '/src/' in f or '/include/swiftnav' in f


def run_harnesses(harnesses, extra_defines=()):
    """harnesses: [(spec file, entry, cfg)] -> list of job outputs"""
    specs = []
    for f, e, c in harnesses:
        if f not in specs:
            specs.append(f)
    stub = os.path.join(VERIF, 'spec', 'stub.c')
    with ThreadPoolExecutor(4) as ex:
        built = list(ex.map(lambda f: build.build([os.path.join(VERIF, 'spec', f), stub], defines=extra_defines, mark=True), specs))
    bcs = {f: b[0] for f, b in zip(specs, built)}
    units = [u for u in built[0][1] if u.startswith('src/')] + specs
    try:
        jobs = [(bcs[f], e, c) for f, e, c in harnesses]
        n = min(8, len(jobs))
        global _stop
        if os.environ.get('VERIF_TIER') != 'thorough':
            _stop = mp.get_context('fork').Value('d', time.time() + LIMIT)
        if n <= 1:
            outs = [_job(j) for j in jobs]
        else:
            ctx = mp.get_context('fork')
            with ctx.Pool(n, maxtasksperchild=1) as pool:
                outs = pool.map(_job, jobs, chunksize=1)
    finally:
        for b in bcs.values():
            shutil.rmtree(os.path.dirname(b), ignore_errors=True)
    return outs, units
