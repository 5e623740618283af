"""decides one property: verifies its contracts against /repo's current source
(pyvc), and replays / searches failing inputs on the real code (drivers).

exit 0: every obligation discharged, no failing input found
exit 1: line "VIOLATION property=<id> replay=<path>[ no-failing-input-found]"
"""
import sys, os, time, json, importlib, traceback, signal, random, hashlib
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
T0 = time.time()
TRUSTED = [
    'pyvc (this repository, /verif/pyvc): symbolic execution of the Python subset and its VC generation',
    'z3 5.x (python bindings)',
    'CPython builtins modelled in pyvc/interp.py (str, int, float, list, dict, slice semantics)',
    'lxml element model in pyvc/lx.py (tree mutators, attribute dictionary, findall), cross-checked by the drivers on real lxml',
]


def proved(r):
    return bool(r['obls']) and not r['unsupported'] and all(a == b for a, b, f in r['obls'].values())


def run_unit(args):
    """verify one unit; where the solver gives up, once more with another random seed"""
    r = run_unit1(args, 0)
    if not proved(r) and r['wall'] < 120:
        r2 = run_unit1(args, 11)
        if proved(r2) or len(r2['unsupported']) < len(r['unsupported']):
            r2['wall'] += r['wall']
            return r2
    return r


def run_unit1(args, seed):
    pid, i, scale = args
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    from pyvc import verify
    u = verify.UNITS[pid][i]
    t = time.time()
    r = dict(id=u.id, obls={}, unsupported=[], ends=0, covers=[], queries=0, solver_s=0.0, wall=0.0, functions=[], contracts=[], assumptions=[])
    v = None
    try:
        v = verify.Verifier(u)
        v.prover.seed = seed
        opts = dict(u.opts)
        budget = opts.pop('budget', 150)
        for k, f in opts.items():
            setattr(v, k, f)
        v.run(u.fn, budget * scale)
        r['obls'] = {n: (o['paths'], o['proved'], o['failed'][:2]) for n, o in v.obls.items()}
        r['unsupported'] = sorted(set(v.unsupported))[:8]
    except Exception:
        r['unsupported'] = ['verifier error: ' + traceback.format_exc()[-1500:]]
    if v is not None:
        r['ends'] = v.feasible_ends
        r['covers'] = sorted(v.covers)
        r['queries'], r['solver_s'] = v.prover.queries, round(v.prover.solver_s, 2)
        r['functions'] = sorted(v.seen_functions)
        r['contracts'] = sorted(v.contracts_used)
        r['assumptions'] = sorted(v.assumptions)
        r['loops'] = len(v.loops)
    r['wall'] = round(time.time() - t, 2)
    return r


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def run_case(drv, case, limit=20):
    """None or a failure message"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return drv.check(case)
    except CaseTimeout:
        return 'no result within %d s' % limit
    except RecursionError as e:
        return 'unexpected RecursionError'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next(('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb) if '/ezodf/' in f.filename), '')
        return 'unexpected %s: %s %s' % (type(e).__name__, str(e)[:200], where)
    finally:
        signal.alarm(0)


def drive(args):
    name, w, nw, seed, budget = args
    drv = importlib.import_module('drivers.' + name)
    t = time.time()
    n, seen, samples, fail = 0, set(), [], []
    rng = random.Random(seed * 1000 + w)
    enum = getattr(drv, 'enumerated', lambda: ())

    def one(case):
        key = hashlib.md5(json.dumps(case, sort_keys=True).encode()).digest()
        if key in seen:
            return 0
        seen.add(key)
        m = run_case(drv, case)
        if m is not None:
            fail.append((case, m))
        elif len(samples) < 2 and w == 0:
            samples.append(case)
        return 1
    for i, case in enumerate(enum()):
        if i % nw != w:
            continue
        n += one(case)
        if len(fail) >= 3 or time.time() - t > budget * 3:
            break
    nenum = n
    rnd = getattr(drv, 'random_case', None)
    dup = 0                     # consecutive cases seen before: the space is exhausted
    while rnd is not None and len(fail) < 1 and time.time() - t < budget and dup < 3000:
        k = one(rnd(rng))
        n += k
        dup = 0 if k else dup + 1
    return n, len(seen), samples, fail, nenum


def size(case):
    return len(json.dumps(case))


def shrink(drv, case, msg):
    sh = getattr(drv, 'shrink', None)
    if sh is None:
        return case, msg
    t = time.time()
    again = True
    while again and time.time() - t < 10:
        again = False
        for c in sh(case):
            m = run_case(drv, c, 5)
            if m is not None:
                case, msg, again = c, m, True
                break
            if time.time() - t > 10:
                break
    return case, msg


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'open':
                    out.append(d)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if len(sys.argv) > 3 and sys.argv[2] == 'replay':
        drv = importlib.import_module('drivers.' + pid)
        case = json.load(open(sys.argv[3]))
        case = case.get('input', case)
        m = run_case(drv, case)
        print('replay:', m if m is not None else 'property holds for this input')
        sys.exit(1 if m is not None else 0)
    nproc = max(2, min(8, os.cpu_count() or 2))
    failed, units = [], []
    scale = 1 if tier == 'quick' else 3
    ctx = mp.get_context('fork')
    spec_error = None
    try:
        importlib.import_module('specs.' + pid)
        from pyvc import verify
        n = len(verify.UNITS.get(pid, ()))
        if n == 0:
            spec_error = 'no units under contract'
    except Exception:
        spec_error = traceback.format_exc()[-1500:]
        n = 0
    # ---------------------------------------------------------------- real code
    fails, samples, count = [], [], dict(evaluations=0, distinct=0, nenum=0)
    drv = None
    try:
        drv = importlib.import_module('drivers.' + pid)
    except Exception:
        if os.path.exists(os.path.join(HERE, 'drivers', pid + '.py')):
            failed.append(dict(obligation='driver of ' + pid, detail=traceback.format_exc()[-1500:]))
    budget = getattr(drv, 'BUDGET', 12) * (1 if tier == 'quick' else 15)

    known = known_findings(pid)

    def finding(case, m):
        return next((d for d in known if getattr(drv, 'matches', lambda *a: False)(d, case, m)), None)

    def drive_all(seed, budget):
        with ctx.Pool(nproc, maxtasksperchild=1) as pool:
            res = [pool.apply_async(drive, ((pid, w, nproc, seed, budget),)) for w in range(nproc)]
            for r in res:
                try:
                    a = r.get(budget * 3 + 120)
                except Exception as e:
                    fails.append((dict(driver='worker'), 'driver worker gave no result: %r' % e))
                    continue
                count['evaluations'] += a[0]
                count['distinct'] += a[1]
                samples.extend(a[2])
                fails.extend(a[3])
                count['nenum'] += a[4]
            pool.terminate()
    if drv is not None:
        drive_all(seed, budget)
    results = []
    if n:
        order = sorted(range(n), key=lambda i: -verify.UNITS[pid][i].opts.get('budget', 150))
        with ctx.Pool(min(nproc, n), maxtasksperchild=1) as pool:
            res = [(i, pool.apply_async(run_unit, ((pid, i, scale),))) for i in order]
            # a failing input decides already: which obligations fail is then only of interest
            limit = time.time() + (60 if any(finding(*x) is None for x in fails) else 560 if tier == 'quick' else 3000)
            for i, r in res:
                try:
                    results.append((i, r.get(max(1, limit - time.time()))))
                except mp.TimeoutError:
                    results.append((i, dict(id=verify.UNITS[pid][i].id, obls={}, unsupported=['no answer from the verifier within the time limit'], ends=0, covers=[],
                                            queries=0, solver_s=0, wall=0, functions=[], contracts=[], assumptions=[])))
                except Exception as e:
                    results.append((i, dict(id=verify.UNITS[pid][i].id, obls={}, unsupported=['verifier process failed: %r' % e], ends=0, covers=[],
                                            queries=0, solver_s=0, wall=0, functions=[], contracts=[], assumptions=[])))
            pool.terminate()
    results = [r for i, r in sorted(results, key=lambda x: x[0])]
    if spec_error:
        failed.append(dict(obligation='specification of ' + pid, detail=spec_error))
    nobl = ndis = nvc = 0
    for r in results:
        u = r['id']
        for name, (paths, proved, fl) in sorted(r['obls'].items()):
            nobl += 1
            nvc += paths
            if proved == paths:
                ndis += 1
            else:
                failed.append(dict(obligation='%s :: %s' % (u, name), detail=fl))
        if r['unsupported']:
            nobl += 1
            failed.append(dict(obligation='%s :: every path is executed by the verifier' % u, detail=r['unsupported']))
        elif not r['obls'] or r['ends'] == 0:
            nobl += 1
            failed.append(dict(obligation='%s :: a feasible path reaches the postcondition' % u, detail='vacuous'))
    # ---------------------------------------------------------------- real code once more, where an obligation failed
    if drv is not None and failed and all(finding(*x) is not None for x in fails):
        if getattr(drv, 'replay_failed', None):
            for case in drv.replay_failed(failed):
                m = run_case(drv, case)
                if m is not None:
                    fails.append((case, m))
        if not any(finding(*x) is None for x in fails):
            drive_all(seed + 500, max(25, budget))
    matched, news = {}, []
    for case, m in fails:
        k = finding(case, m)
        if k is not None:
            matched[k['what']] = k
        else:
            news.append((case, m))
    for d in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, d['what']))
    fails = news
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    rp = os.path.join(evdir, 'replay', '%s.json' % pid)
    violations = 0
    line = None
    if fails:
        fails.sort(key=lambda x: size(x[0]))
        case, msg = shrink(drv, *fails[0])
        json.dump(dict(property=pid, input=case, failure=msg, failed_obligations=failed[:10],
                       replay_cmd='cd /verif && ./check %s replay %s' % (pid, rp)), open(rp, 'w'), indent=1, default=str)
        violations = len(fails)
        print('failing input: %s' % json.dumps(case)[:1500])
        print('failure: %s' % msg)
        line = 'VIOLATION property=%s replay=%s' % (pid, rp)
    elif failed:
        json.dump(dict(property=pid, input=None, failed_obligations=failed), open(rp, 'w'), indent=1, default=str)
        violations = len(failed)
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)
    for f in failed[:12]:
        print('failed obligation: %s  %s' % (f['obligation'], json.dumps(f['detail'], default=str)[:700]))
    spec = sys.modules.get('specs.' + pid)
    fns = sorted(set(x for r in results for x in r['functions']))
    cons = sorted(set(x for r in results for x in r['contracts']))
    assumed = getattr(spec, 'ASSUMED', []) if spec else []
    level = getattr(spec, 'LEVEL', 'proof') if spec else 'proof'
    cov = dict(obligations=nobl, discharged=ndis, checker_cmd='./check %s %s' % (pid, tier),
               trusted_base=TRUSTED + ['assumed contract: ' + a for a in assumed],
               verification_conditions=nvc, solver_queries=sum(r['queries'] for r in results), solver_s=round(sum(r['solver_s'] for r in results), 2),
               back_end='z3 (every discharged obligation)', functions_under_contract=fns, contracts_used_at_call_sites=cons,
               units=[dict(unit=r['id'], obligations=len(r['obls']), paths=r['ends'], loops=r.get('loops', 0), solver_s=r['solver_s'], wall_s=r['wall']) for r in results],
               bounded=getattr(spec, 'BOUNDED', []) if spec else [],
               evaluations=count['evaluations'], distinct_nontrivial=count['distinct'],
               rule='driver executions of the real code: enumerated cases (%d) and random cases; counted by distinct case description' % count['nenum'],
               samples=samples[:3])
    if level != 'proof':
        cov['explanation'] = getattr(spec, 'EXPLANATION', '')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=sorted(set(x for r in results for x in r['assumptions'])) + list(getattr(spec, 'ASSUMPTIONS', []) if spec else []),
              wall_s=round(time.time() - T0, 2), violations=violations)
    json.dump(ev, open(os.path.join(evdir, '%s.json' % pid), 'w'), indent=1, default=str)
    print('%s: %d/%d obligations discharged (%d verification conditions), %d driver executions, %.1f s' % (pid, ndis, nobl, nvc, count['evaluations'], time.time() - T0))
    if line:
        print(line)
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else '?'
        rp = os.path.join(HERE, 'evidence', 'replay', pid + '.json')
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump(dict(property=pid, error=traceback.format_exc()), open(rp, 'w'))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        sys.exit(1)
