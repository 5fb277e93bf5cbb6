#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--strict] [--only harness]

Decides one property: builds /repo + harness to LLVM IR, explores every path of
the property's harnesses symbolically, replays counterexamples and sample
models on the natively compiled code, writes evidence/<property>.json.

exit 0  no violation in anything explored (undecided parts are listed)
exit 1  a violation that reproduces on the real code
exit 2  the check itself could not decide anything (build failure, encoder error)
"""
import sys, os, re, json, time, subprocess, threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
REPO = '/repo'
import build, ir, explore
from props import PROPS
import expr as X


def demangle(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        l = r.stdout.split('\n')[:len(names)]
    except OSError:
        l = list(names)
    return sorted({re.sub(r'::h[0-9a-f]{16}$', '', x) for x in l})


def write_values(path, head, values):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        for h in head:
            f.write('# %s\n' % h)
        for w, bits in values:
            txt = repr(X.bitsf(bits)) if w == X.F else str(bits)
            f.write('%016x  %s\n' % (bits, txt))


def replay(binary, harness, path, timeout=20):
    """-> (kind, output); kind: ok, fail, hang, unmet, crash"""
    try:
        r = subprocess.run([binary, harness, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=dict(os.environ, RUST_BACKTRACE='0'), cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return 'hang', 'no result within %d s' % timeout
    out = r.stdout.decode('utf8', 'replace')
    if r.returncode == 0:
        return 'ok', out
    if r.returncode == 1:
        return 'fail', out
    if r.returncode in (77, 78):
        return 'unmet', out
    if r.returncode < 0 or r.returncode == 101:
        return 'fail', out + '\nterminated with status %d' % r.returncode
    return 'crash', out


def known_findings():
    l = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for x in open(p):
            m = re.match(r'known: property=(\S+) harness=(\S+) check="([^"]*)" (.*)', x)
            if m:
                l.append(m.groups())
    return l


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    strict = '--strict' in args
    only = None
    for i, a in enumerate(args):
        if a == '--tier':
            tier = args[i + 1]
        if a == '--only':
            only = args[i + 1].split(',')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = PROPS[pid]
    hs = [dict(h) for h in prop['harnesses'] if tier == 'thorough' or h.get('tier', 'quick') == 'quick']
    if only:
        hs = [h for h in hs if h['h'] in only]
    for h in hs:
        if tier == 'thorough':
            h['qtimeout'] = h.get('qtimeout', 30.0) * 4
            h['etimeout'] = h.get('etimeout', 20.0) * 3
            h['path_timeout'] = h.get('path_timeout', 120.0) * 3
    t0 = time.time()
    budget = prop.get('budget', 420) if tier == 'quick' else prop.get('budget_thorough', 3000)
    os.makedirs(build.BUILD, exist_ok=True)
    llp = os.path.join(build.BUILD, pid + '.ll')
    nat = {}

    def bn():
        try:
            nat['bin'] = build.build_native()
        except Exception as e:
            nat['err'] = str(e)
    th = threading.Thread(target=bn)
    th.start()
    try:
        build.build_ir(llp, sorted({h['h'] for h in hs}))
    except Exception as e:
        th.join()
        print('CHECK ERROR: build failed\n%s' % e)
        sys.exit(2)
    tb = time.time() - t0
    mod = ir.Module(open(llp).read())
    os.remove(llp)
    t1 = time.time()
    results, lines, subs, stats, timed_out = explore.explore(mod, hs, nproc=int(os.environ.get('VERIF_NPROC', '8')), deadline=t1 + budget)
    te = time.time() - t1
    th.join()
    if 'err' in nat:
        print('CHECK ERROR: native build failed\n%s' % nat['err'])
        sys.exit(2)
    bins = nat['bin']

    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '.'):
            os.remove(os.path.join(rdir, f))
    known = known_findings()
    violations, kf, undecided, errors = [], [], [], []
    validated, mismatches, samples = 0, [], []
    hrep = []
    obligations = 0
    for r in results:
        h = r['h']
        name = h['h']
        # -------- counterexamples: only what reproduces on the real code counts
        bycheck = {}
        for v in r['viol']:
            bycheck.setdefault(v['check'], []).append(v)
        for ck, vs in sorted(bycheck.items()):
            vs.sort(key=lambda v: not v['exact'])
            rep = None
            for n, v in enumerate(vs[:6]):
                path = os.path.join(rdir, '%s.%s.%d.txt' % (pid, name, len(violations) * 10 + n))
                write_values(path, ['property %s, harness %s, violated: %s' % (pid, name, ck),
                                    'replay: %s %s <this file>' % (os.path.relpath(bins[0], VERIF), name),
                                    'inputs in the order the harness asks for them (bits, value)'], v['values'])
                for b in bins:
                    kind, out = replay(b, name, path)
                    if kind == 'fail' or (kind == 'hang' and ck == 'hang'):
                        rep = (path, kind, out, b)
                        break
                if rep:
                    break
                os.remove(path)
            if rep:
                path, kind, out, b = rep
                failed = re.findall(r'CHECK FAILED: (.*)', out) or [ck]
                for fl in failed[:1]:
                    k = next((k for k in known if k[0] == pid and k[1] == name and k[2] == fl), None)
                    if k:
                        kf.append(k[3])
                    else:
                        violations.append((name, fl, path, out))
            else:
                undecided.append('%s: "%s": counterexample of the solver does not reproduce on the real code' % (name, ck))
        for u in sorted({'%s: "%s": %s' % (name, a, b) for a, b in r['unk']}):
            undecided.append(u)
        for u in r['unsup']:
            undecided.append('%s: paths fixed to one input where the theory cannot express: %s' % (name, u))
        ok = r['status'].get('ok', 0)
        for st in r['status']:
            if st in ('unsupported',):
                undecided.append('%s: %d path(s) %s: %s' % (name, r['status'][st], st, r['detail'].get(st, '')))
        for e in r['errors']:
            errors.append('%s: %s' % (name, e))
        if r['left'] and not r['viol']:
            undecided.append('%s: %d subtree(s) not explored in the time limit' % (name, r['left']))
        miss = [c for c in h.get('covers', ['end']) if c not in r['covers']]
        must = [c for c in miss if c.startswith('!')]
        if must and not r['viol'] and not r['left'] and not r['unk'] and not r['unsup'] and not r['errors'] and set(r['status']) <= {'ok', 'end', 'cut'}:
            # the solver refuted every path to an outcome the property promises to be possible
            p = subprocess.run([bins[0], name, '--sample', '20000'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120, cwd=rdir)
            seen = set(re.findall(r'COVERED: (.*)', p.stdout))
            for c in must:
                if c not in seen:
                    path = os.path.join(rdir, '%s.%s.unreachable.txt' % (pid, name))
                    with open(path, 'w') as f:
                        f.write('# property %s, harness %s\n# no input reaches "%s": every path to it is unsatisfiable (%d paths explored)\n'
                                '# native cross-check: %s %s --sample 20000 reaches only: %s\n' % (pid, name, c, r['paths'], os.path.relpath(bins[0], VERIF), name, sorted(seen)))
                    violations.append((name, 'no input reaches: ' + c[1:], path, ''))
        if miss and not r['viol'] and not r['left']:
            undecided.append('%s: never reached: %s' % (name, ', '.join(miss)))
        nchk = sum(r['checks'].values())
        if not nchk and not r['viol'] and not r['left']:
            errors.append('%s: no assertion was ever reached (%s %s)' % (name, r['status'], r['detail']))
        obligations += r['proved'] + r['trivial']
        # -------- models of completed paths, run on the native build
        nm = 0
        for values, checks in r['models']:
            path = os.path.join(rdir, '%s.%s.model.txt' % (pid, name))
            write_values(path, ['path model'], values)
            kind, out = replay(bins[0], name, path)
            m = re.search(r'REPLAY: all checks hold \((\d+)\)', out)
            if kind == 'ok' and m and int(m.group(1)) == checks:
                validated += 1
                if nm == 0 and len(samples) < 40:
                    samples.append({'harness': name, 'inputs': [repr(X.bitsf(b)) if w == X.F else str(b) for w, b in values][:40], 'assertions_met': checks})
                nm += 1
            elif not r['viol']:
                mismatches.append('%s: model of a completed path gives on the real code: %s %s (engine: %d assertions)' % (name, kind, out[-300:], checks))
            os.remove(path)
        hrep.append({'harness': name, 'theory': h['mode'], 'bounds': h.get('bounds', ''), 'paths': r['paths'], 'ended': r['status'],
                     'assertions_proved_by_solver': r['proved'], 'assertions_decided_by_path': r['trivial'], 'assertions': r['checks'],
                     'reached': sorted(r['covers']), 'paths_fixed_to_one_input': r['pinned'], 'cpu_s': round(r['wall'], 2)})
    if timed_out:
        undecided.append('time limit of %d s reached' % budget)
    if mismatches:
        errors += mismatches[:5]

    fl = {}
    for f, l in lines:
        if f.startswith(REPO + '/'):
            fl.setdefault(os.path.relpath(f, REPO), set()).add(l)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(r['paths'] for r in results),
            'transitions': stats.get('queries', 0) + stats.get('cached', 0),
            'traces_validated_against_impl': validated,
            'samples': samples,
            'states_are': 'symbolic paths of the harnesses (each stands for all inputs that follow it)',
            'transitions_are': 'branch-feasibility and assertion queries asked of the solver',
            'functions_encoded': demangle(sorted(subs)),
            'repo_lines_encoded': {k: len(v) for k, v in sorted(fl.items())},
            'harnesses': hrep,
            'bounds': prop.get('bounds', ''),
            'outside_the_bounds': prop.get('outside', ''),
            'assertions_decided': obligations,
            'solver': {'queries': stats.get('queries', 0), 'answered_from_cache': stats.get('cached', 0), 'sat': stats.get('sat', 0), 'unsat': stats.get('unsat', 0),
                       'unknown': stats.get('unknown', 0), 'time_s': round(stats.get('time', 0.0), 2), 'longest_s': round(stats.get('max', 0.0), 2)},
            'undecided': undecided, 'errors': [e[-600:] for e in errors],
            'known_findings_seen': kf, 'build_s': round(tb, 1), 'explore_s': round(te, 1),
        },
        'assumptions': prop.get('assumptions', []) + COMMON,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s [%s]: %d harnesses, %d paths, %d assertions decided, %d solver queries (%.1f s), %d models validated natively; build %.0f s, explore %.0f s, total %.0f s'
          % (pid, tier, len(hs), ev['coverage']['states'], obligations, stats.get('queries', 0), stats.get('time', 0.0), validated, tb, te, time.time() - t0))
    for x in hrep:
        if strict:
            print('   ', {k: x[k] for k in ('harness', 'theory', 'paths', 'ended', 'assertions_proved_by_solver', 'assertions_decided_by_path', 'paths_fixed_to_one_input', 'cpu_s')})
    for u in undecided:
        print('UNDECIDED: ' + u)
    for u in errors:
        print('CHECK ERROR: ' + u)
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for name, ck, path, out in violations:
        print('violated in %s: %s\n%s' % (name, ck, '\n'.join('    ' + l for l in out.strip().split('\n')[-8:])))
    for name, ck, path, out in violations:
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if violations:
        sys.exit(1)
    if errors:
        sys.exit(2)
    if strict and undecided:
        sys.exit(3)
    sys.exit(0)


COMMON = [
    'The code is executed as compiled by rustc (LLVM IR, opt-level 2, overflow checks on, riscv64 as a 64-bit little-endian IR target); differences to the x86-64 machine code are the compiler\'s.',
    'A Pcg64 output word is an arbitrary 64-bit value and a standard normal deviate an arbitrary number in [-16,16] (patched copies of rand_pcg and rand_distr).',
    'Theory D: doubles are reals with a bounded, monotone rounding error per operation; overflow to infinity and NaN are excluded by the input ranges. Theory R: no rounding. Theory E: exact IEEE-754.',
    'Trusted: rustc, the IR interpreter in engine/, z3.',
]

if __name__ == '__main__':
    main()
