"""Path exploration of harnesses over a pool of worker processes."""
import sys, os, time, threading, traceback, multiprocessing as mp
from multiprocessing.connection import wait


def _worker(conn, llpath, opts):
    sys.setrecursionlimit(200000)
    threading.stack_size(768 << 20)
    t = threading.Thread(target=_work, args=(conn, llpath, opts))
    t.start()
    t.join()


MODULE = None


def _work(conn, llpath, opts):
    import rt, smt, expr
    mod = MODULE
    rts = {}
    slice_s = opts.get('slice', 0.4)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            # coverage
            refs = set()
            fns = set()
            cov = {}
            for key, r in rts.items():
                for i, (fn, lab, rf) in enumerate(mod.cov_blocks):
                    if i < len(r.COV) and r.COV[i]:
                        refs |= rf
                        fns.add(fn)
            lines = set()
            subs = set()
            for x in refs:
                for fn, ln, sub in mod.loc(x):
                    if fn.startswith('/repo/'):
                        lines.add((fn, ln))
                        st = mod.md.get(sub, '')
                        k = st.find('linkageName: "')
                        if k < 0:
                            k = st.find('name: "')
                            nm = st[k + 7:st.find('"', k + 7)]
                        else:
                            nm = st[k + 14:st.find('"', k + 14)]
                        subs.add(nm)
            conn.send(('cov', lines, subs, dict(smt.STATS), len(fns)))
            return
        hid, h, prefix, model = job
        key = (h['mode'],)
        try:
            r = rts.get(key)
            if r is None:
                r = rts[key] = rt.Rt(mod, h['mode'])
            r.qtimeout = h.get('qtimeout', 30.0)
            r.feas_timeout = h.get('feas_timeout', 6.0)
            r.rng_cap = h.get('rng_cap', 64)
            r.path_timeout = h.get('path_timeout', 120.0)
            r.etimeout = h.get('etimeout', 20.0)
            t0 = time.time()
            stack = [(prefix, model)]
            agg = dict(models=[], paths=0, status={}, viol=[], unk=[], checks={}, covers=set(), proved=0, trivial=0, pinned=0, unsup=set(), detail={}, cuts=0)
            while stack and (time.time() - t0 < slice_s or agg['paths'] == 0):
                pf, md = stack.pop()
                expr_n = len(expr._tab)
                res = r.run(h['h'], pf, md)
                agg['paths'] += 1
                st = res['status']
                agg['status'][st] = agg['status'].get(st, 0) + 1
                if res['detail']:
                    agg['detail'][st] = res['detail']
                agg['viol'] += res['viol']
                agg['unk'] += res['unk']
                for k, v in res['checks'].items():
                    agg['checks'][k] = agg['checks'].get(k, 0) + v
                agg['covers'] |= res['covers']
                agg['proved'] += res['proved']
                agg['trivial'] += res['trivial']
                agg['pinned'] += res['pinned']
                agg['unsup'] |= res['unsup']
                if res['endmodel'] and len(agg['models']) < 3:
                    agg['models'].append(res['endmodel'])
                stack += res['new']
            conn.send(('res', hid, agg, stack))
        except BaseException:
            conn.send(('err', hid, traceback.format_exc()))


def explore(mod, harnesses, nproc=8, deadline=None, opts=None, log=None, stop_on_viol=True):
    """harnesses: list of dict(h, mode, ...). Returns per-harness results and coverage."""
    global MODULE
    MODULE = mod
    ctx = mp.get_context('fork')
    opts = opts or {}
    results = []
    pend = []     # per harness stacks
    for i, h in enumerate(harnesses):
        results.append(dict(h=h, models=[], paths=0, status={}, viol=[], unk=[], checks={}, covers=set(), proved=0, trivial=0, pinned=0, unsup=set(), detail={}, errors=[], left=0, busy=0, wall=0.0))
        pend.append([((), None)])
    workers = []
    for _ in range(nproc):
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, None, opts), daemon=True)
        p.start()
        b.close()
        workers.append([a, p, None])
    order = list(range(len(harnesses)))
    rr = 0

    def nextjob():
        nonlocal rr
        n = len(order)
        best = None
        for k in range(n):
            i = (rr + k) % n
            if pend[i] and not (stop_on_viol and len(results[i]['viol']) >= 6):
                hp = results[i]['h'].get('max_paths')
                if hp and results[i]['paths'] + results[i]['busy'] >= hp:
                    continue
                best = i
                break
        if best is None:
            return None
        rr = best + 1
        pf, md = pend[best].pop()
        results[best]['busy'] += 1
        return best, pf, md

    timed_out = False
    while True:
        if deadline and time.time() > deadline:
            timed_out = True
            break
        for w in workers:
            if w[2] is None:
                j = nextjob()
                if j:
                    i, pf, md = j
                    w[2] = (i, time.time())
                    w[0].send((i, harnesses[i], pf, md))
        busy = [w for w in workers if w[2] is not None]
        if not busy:
            break
        for c in wait([w[0] for w in busy], timeout=2.0):
            w = next(w for w in workers if w[0] is c)
            try:
                m = c.recv()
            except EOFError:
                i = w[2][0]
                results[i]['errors'].append('worker died')
                results[i]['busy'] -= 1
                w[2] = None
                workers.remove(w)
                if not workers:
                    timed_out = True
                continue
            i, t0 = w[2]
            w[2] = None
            r = results[i]
            r['busy'] -= 1
            r['wall'] += time.time() - t0
            if m[0] == 'err':
                r['errors'].append(m[2])
                continue
            _, _, a, left = m
            r['paths'] += a['paths']
            for k, v in a['status'].items():
                r['status'][k] = r['status'].get(k, 0) + v
            r['detail'].update(a['detail'])
            r['viol'] += a['viol']
            r['unk'] += a['unk']
            for k, v in a['checks'].items():
                r['checks'][k] = r['checks'].get(k, 0) + v
            r['covers'] |= a['covers']
            r['proved'] += a['proved']
            r['trivial'] += a['trivial']
            r['pinned'] += a['pinned']
            r['unsup'] |= a['unsup']
            if len(r['models']) < 12:
                r['models'] += a['models']
            pend[i] += left
    lines, subs = set(), set()
    stats = {}
    for i, r in enumerate(results):
        r['left'] = len(pend[i]) + r['busy']
    if not timed_out:
        for w in workers:
            try:
                w[0].send(None)
                m = w[0].recv()
                lines |= m[1]
                subs |= m[2]
                for k, v in m[3].items():
                    stats[k] = max(stats.get(k, 0), v) if k == 'max' else stats.get(k, 0) + v
            except (EOFError, BrokenPipeError):
                pass
    for w in workers:
        w[1].kill()
    return results, lines, subs, stats, timed_out
