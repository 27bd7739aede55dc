#!/usr/bin/env python3-vt
"""check.py PROPERTY: verifies every contract that carries the property against /repo's current source, and replays.

exit 0: every obligation discharged (or, for the functions labelled bounded, no violation found by the replay driver)
exit 1: an obligation of the property fails, or the real code was driven into a violation; the last line is the VIOLATION line"""
import json
import multiprocessing as mp
import os
import resource
import shutil
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
T0 = time.time()
DEADLINE = float(os.environ.get('F2CV_DEADLINE', '780'))
JOBS = int(os.environ.get('F2CV_JOBS', '8'))


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


def worker(prog, con, k, budget, scale, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
        sys.setrecursionlimit(20000)
        from f2cv import engine, verify
        engine.SCALE[0] = scale
        f = con.find(prog)[k]
        conn.send(verify.verify_fn(prog, con, f, budget))
    except BaseException as e:
        conn.send({'function': con.name, 'contract': con.key, 'status': 'unsupported', 'reason': 'verifier stopped: %s %s' % (type(e).__name__, str(e)[:200]),
                   'obligations': [], 'props': con.props})
    finally:
        conn.close()


def verify_all(prog, cons, scale=1.0, deadline=600, jobs=7, tail=None):
    """each function body under contract in its own process"""
    ctx = mp.get_context('fork')
    todo, done, running = [], [], []
    for c in cons:
        fs = c.find(prog)
        if not fs:
            done.append({'function': c.name, 'contract': c.key, 'status': 'missing', 'reason': 'no function body with this name in the current source', 'obligations': [], 'props': c.props})
        for k in range(len(fs)):
            todo.append((c, k))
    todo.sort(key=lambda x: -x[0].budget)
    while todo or running:
        if tail is not None and not todo and len(running) <= 3:
            tail()
            tail = None
        while todo and len(running) < jobs and time.time() - T0 < deadline:
            c, k = todo.pop(0)
            a, b = ctx.Pipe(False)
            budget = min(c.budget * scale, max(20, deadline - (time.time() - T0)))
            p = ctx.Process(target=worker, args=(prog, c, k, budget, scale, b))
            p.start()
            b.close()
            running.append((p, a, c, k, time.time(), budget))
        if todo and time.time() - T0 >= deadline and not running:
            for c, k in todo:
                done.append({'function': c.name, 'contract': c.key, 'status': 'unsupported', 'reason': 'time budget of the check exhausted', 'obligations': [], 'props': c.props})
            break
        time.sleep(0.02)
        for x in list(running):
            p, a, c, k, t, budget = x
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = None
                p.join(5)
            elif not p.is_alive():
                p.join()
            elif time.time() - t > budget * 3 + 90 or time.time() - T0 > deadline + 150:
                p.kill()
                p.join()
            else:
                continue
            if r is None:
                r = {'function': c.name, 'contract': c.key, 'status': 'unsupported', 'reason': 'verifier process ended (time or memory limit)', 'obligations': [], 'props': c.props}
            r['con'] = c.key
            r['idx'] = k
            done.append(r)
            running.remove(x)
            a.close()
    if tail is not None:
        tail()
    return done


def out_of_time(r):
    """did some obligation end for lack of resources rather than by an answer?"""
    return any(o['status'] == 'unknown' and any(w in (o.get('detail') or '') for w in ('cancel', 'resource', 'timeout', 'budget', 'memory')) for o in r['obligations'])


def closure(cons, pid):
    """contracts of the property plus every contract their proofs use"""
    from f2cv import contract
    return [c for c in contract.ALL if pid in c.props and not c.trusted]


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    from f2cv import props, fe, contract, verify, replay
    from f2cv.engine import Engine
    cfg = props.PROPS[pid]
    work = tempfile.mkdtemp(prefix='f2cv_')
    try:
        return run(pid, cfg, tier, seed, work)
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def load_specs(names):
    import importlib
    for n in names:
        importlib.import_module('specs.' + n)


def known_findings():
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l.split()[1:] if '=' in x and x.split('=', 1)[0] in ('property', 'match'))
                d['text'] = l
                out.append(d)
    except OSError:
        pass
    return out


def run(pid, cfg, tier, seed, work):
    from f2cv import fe, contract, verify, replay
    from f2cv.engine import Engine
    bres = {'bins': {}}
    camp = {'fails': [], 'counts': {}, 'samples': []}
    base_secs = cfg.get('seconds', 15) if tier == 'quick' else cfg.get('thorough_seconds', 240)

    def drive(seconds, seed_):
        f, c, sm = replay.campaign(bres['bins'], pid, seed_, seconds, JOBS, work)
        camp['fails'] += f
        for k, (n, t) in c.items():
            o = camp['counts'].setdefault(k, [0, 0])
            o[0] += n
            o[1] += t
        camp['samples'] += sm

    def build_and_drive():
        try:
            B = replay.Build(cfg['drivers'], work, JOBS)
            bres['bins'] = B.build()
            bres['skipped'] = B.skipped
        except Exception as e:
            bres['error'] = '%s: %s' % (type(e).__name__, str(e)[:1500])
            return
        try:
            drive(base_secs, seed)
        except Exception as e:
            bres['error'] = 'campaign: %s: %s' % (type(e).__name__, str(e)[:500])
    # the library and the drivers are built and run while the last function bodies are being verified
    th = threading.Thread(target=build_and_drive)
    results = []
    prog = None
    bounded = []
    loaderr = ''
    try:
        prog = fe.Program()
        prog.load_all()
        Engine(prog)
        load_specs(cfg['specs'])
    except Exception as e:
        loaderr = 'front end: %s: %s' % (type(e).__name__, str(e)[:500])
        log(loaderr)
        traceback.print_exc()
    log('front end done; translation units not parsed: %d' % (len(prog.errors) if prog else -1))
    if loaderr:
        th.start()
    else:
        cons = closure(contract.ALL, pid)
        bounded = [c for c in cons if c.bounded]
        cons = [c for c in cons if not c.bounded]
        results = verify_all(prog, cons, 1.0, 420 if tier == 'quick' else 1500, tail=th.start)
        log('verified %d function bodies' % len(results))
    th.join(300 + base_secs)
    # a failed or undecided obligation is tried again, alone and with more time, before it counts
    real = [f for f in camp['fails'] if not f.get('undecided')]
    stop = 560 if tier == 'quick' else 3000
    for scale in (2.0, 4.0, 6.0):
        again = [r for r in results if 'con' in r and (r['status'] == 'failed' and (scale < 3 or out_of_time(r)) or r['status'] == 'unsupported' and 'time' in (r['reason'] or ''))]
        if not again or real or time.time() - T0 > stop - 60:
            break
        keys = set(r['con'] for r in again)
        log('retrying %s with %gx the solver limits' % (sorted(keys), scale))
        rc = [c for c in cons if c.key in keys]
        for c in rc:
            c.budget = max(c.budget, min(500, 2 * c.budget))
        res2 = verify_all(prog, rc, scale, stop, jobs=6)
        for r2 in res2:
            for i, r in enumerate(results):
                if 'con' in r and r['con'] == r2.get('con') and r.get('idx') == r2.get('idx'):
                    if r2['status'] == 'proved' or (r2['status'] == 'failed' and r['status'] != 'failed') or (r2['status'] == r['status']):
                        results[i] = r2
    if bres.get('error'):
        log('replay driver: ' + bres['error'])
    for s, e in (bres.get('skipped') or {}).items():
        log('not compiled for replay: %s: %s' % (s, e.strip().split('\n')[0][:300]))
    failed = [r for r in results if r['status'] == 'failed' and any(o['status'] in ('refuted', 'unknown') and o.get('backend') != 'time budget' for o in r['obligations'])]
    undecided = [r for r in results if r['status'] != 'proved' and r not in failed]
    # an obligation that fails, or is not decided on this source, is searched for longer on the real code
    if bres['bins'] and (failed or undecided) and not real:
        left = DEADLINE - (time.time() - T0) if tier == 'quick' else 1e9
        secs = max(5, min(3 * base_secs, left - 60))
        drive(secs, seed + 1000)
    fails, counts, samples = camp['fails'], camp['counts'], camp['samples']
    log('replayed %d inputs on the real code' % sum(c for c, _ in counts.values()))
    report(pid, cfg, tier, seed, prog, results, bounded, failed, undecided, fails, counts, samples, bres, loaderr)
    kf = [k for k in known_findings() if k.get('property') == pid]
    hard = [f for f in fails if not f.get('undecided')]
    # known findings are reported by their own fixed input (drivers print them as notes); nothing is suppressed here by pattern
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['text'].split(' ', 3)[-1]))
    if hard or failed:
        path = os.path.join(HERE, 'replay', '%s.json' % pid)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'failed_obligations': [
                {'function': r['function'], 'where': r.get('where'), 'obligations': [o for o in r['obligations'] if o['status'] != 'proved']} for r in failed],
                'failing_inputs': hard,
                'replay': 'build: see f2cv/replay.py; run: <driver> --seed SEED --only TEST --iter ITER --eager'}, f, indent=1)
        for r in failed:
            for o in r['obligations']:
                if o['status'] in ('refuted', 'unknown'):
                    print('FAILED OBLIGATION %s [%s] at %s: %s' % (r['function'], o['name'], o.get('where'), (o.get('detail') or '')[:200]))
        for h in hard[:4]:
            print('FAILING INPUT %s/%s iteration %s seed %s: %s | input: %s' % (h['driver'], h['test'], h['iter'], h['seed'], h['what'][:400], h['input'][:600]))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if hard else ' no-failing-input-found'), flush=True)
        return 1
    print('OK property=%s obligations=%d discharged=%d functions=%d bounded=%d inputs=%d wall=%.0fs' % (
        pid, sum(len(r['obligations']) for r in results), sum(o['status'] == 'proved' for r in results for o in r['obligations']),
        sum(r['status'] == 'proved' for r in results), len(bounded) + len(undecided), sum(c for c, _ in counts.values()), time.time() - T0))
    return 0


def report(pid, cfg, tier, seed, prog, results, bounded, failed, undecided, fails, counts, samples, bres, loaderr):
    obls = [o for r in results for o in r['obligations']]
    be = {}
    for o in obls:
        if o['status'] == 'proved':
            b = be.setdefault(o.get('backend') or '?', [0, 0.0])
            b[0] += 1
            b[1] += o.get('time', 0.0)
    from f2cv import contract
    used = sorted(set(u for r in results for u in r.get('used_contracts', [])))
    tm = sorted(set(u for r in results for u in r.get('trusted_models', [])))
    ass = sorted(set(u for r in results for u in r.get('assumptions', [])))
    tr = sorted('%s (%s)' % (c.name, c.trusted) for c in contract.ALL if c.trusted and c.name in ' '.join(used))
    base = [
        'f2cv verification condition generator (/verif/f2cv): C++ semantics of the constructs it accepts, over the AST that clang 18 reports for the current source',
        'z3 and cvc5 answer unsat only for unsatisfiable queries',
        'double arithmetic treated as real arithmetic; int arithmetic as in obligations of kind overflow',
    ] + ['model of library function: ' + m for m in tm] + ['trusted contract: ' + t for t in tr]
    nv = sum(1 for f in fails if not f.get('undecided')) + (1 if failed else 0)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'proof'),
        'coverage': {
            'obligations': len(obls), 'discharged': sum(o['status'] == 'proved' for o in obls),
            'checker_cmd': 'python3 /verif/check.py %s' % pid,
            'trusted_base': base,
            'functions_under_contract': [{'function': r['function'], 'where': r.get('where'), 'status': r['status'], 'reason': r.get('reason'),
                                          'obligations': len(r['obligations']), 'discharged': sum(o['status'] == 'proved' for o in r['obligations']),
                                          'kinds': sorted(set(o['kind'] for o in r['obligations'])), 'loops': r.get('loops'), 'inlined_helpers': r.get('inlined'),
                                          'callee_contracts_used': r.get('used_contracts'), 'paths': r.get('paths'),
                                          'solver_s': r.get('solver_time'), 'wall_s': r.get('time')} for r in results],
            'obligations_by_back_end': {k: {'discharged': v[0], 'solver_s': round(v[1], 2)} for k, v in be.items()},
            'solver_s_total': round(sum(r.get('solver_time') or 0 for r in results), 2),
            'bounded_stand_ins': [{'function': c.name, 'reason': c.bounded} for c in bounded] + [
                {'function': r['function'], 'reason': 'not decided by the verifier on this source: %s' % r.get('reason')} for r in undecided],
            'replay_driver': {'drivers': sorted(bres.get('bins', {})), 'not_built': sorted(bres.get('skipped') or {}), 'seconds_per_process': cfg.get('seconds', 15),
                              'inputs_by_test': {k: {'inputs': v[0], 'nontrivial': v[1]} for k, v in sorted(counts.items())}},
            'evaluations': sum(c for c, _ in counts.values()), 'distinct_nontrivial': sum(n for _, n in counts.values()),
            'rule': 'inputs of the replay driver: pseudo-random in (seed, test, iteration), growing in size; non-trivial as each test marks it (more than two swaths, a rejected order, ...)',
            'samples': samples[:12],
            'translation_units_not_parsed': sorted(prog.errors) if prog else [loaderr],
        },
        'assumptions': ass + cfg.get('assumptions', []),
        'wall_s': round(time.time() - T0, 1),
        'violations': nv,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
