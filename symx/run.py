"""Check runner:  python -m symx.run C01   |   python -m symx.run --replay FILE   |   --case NAME (debug)"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_EXTRA = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _EXTRA not in sys.path:
    sys.path.append(_EXTRA)


class Case:
    def __init__(self, name, fn, params=None, budget=None, max_paths=None, opts=None, weight=1.0, bounds='',
                 witnesses=None):
        self.name, self.fn, self.params = name, fn, params or {}
        self.budget, self.max_paths, self.opts, self.weight = budget, max_paths, opts or {}, weight
        self.bounds = bounds
        self.witnesses = witnesses


DEFAULTS = {
    'quick': dict(budget=45.0, max_paths=400, ob_timeout=5.0, feas_timeout=1.0, witnesses=4, total=220.0),
    'thorough': dict(budget=600.0, max_paths=20000, ob_timeout=30.0, feas_timeout=3.0, witnesses=12, total=3000.0),
}


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


def match_known(known, prop, case, label, detail):
    for k in known:
        if k.get('property') == prop and k.get('case', case) == case and k.get('label') == label and \
                k.get('detail', '') in detail:
            return k
    return None


# ---------------------------------------------------------------- one case

def explore(prop, case, tier, deadline, known, verbose=False):
    from symx import core, harness, loader
    D = DEFAULTS[tier]
    t0 = time.time()
    stats = core.Stats()
    opts = dict(ob_timeout=D['ob_timeout'], feas_timeout=D['feas_timeout'], cand_left=[12])
    opts.update(case.opts)
    opts['deadline'] = min(deadline, t0 + (case.budget or D['budget']))
    max_paths = case.max_paths or D['max_paths']
    nwit = case.witnesses if case.witnesses is not None else D['witnesses']
    res = dict(case=case.name, bounds=case.bounds, paths=0, complete=False, status={}, obligations={}, decisions=0,
               proved=0, undecided=0, funcs=[], unsupported=[], violations=[], known=[], witness_ok=0,
               witness_invalid=0, witness_mismatch=[], unconfirmed=[], reached={}, sample=None, div0=0)
    funcs = set()
    stack = [[]]
    tried = 0
    stop = False
    rnd = random.Random(1)
    while stack and not stop:
        if time.time() > opts['deadline'] or res['paths'] >= max_paths:
            break
        prefix = stack.pop()
        o = dict(opts)
        ctx = core.Ctx(prefix, stats, o)
        core.set_ctx(ctx)
        status, exc = 'ok', None
        env = None
        try:
            pkg = loader.load()
            env = harness.SymEnv(ctx, pkg)
            case.fn(env, **case.params)
        except core.PathAbort as e:
            status = e.ended
        except core.Unsupported as e:
            status = 'unsupported'
        except Exception as e:
            status, exc = 'exception', e
            if verbose:
                traceback.print_exc()
        except RecursionError as e:
            status, exc = 'exception', e
        if env is None:
            env = harness.SymEnv.__new__(harness.SymEnv)
            env.ctx, env.candidates, env.results, env.script, env.reached = ctx, [], [], {}, []
        if ctx.ended:
            status, exc = ctx.ended, None
        if status == 'exception' and ctx.unsupported:
            status = 'unsupported'
        if status in ('exception', 'unsupported'):
            # forks may be taken on an inconclusive feasibility check
            try:
                if ctx.solve([], timeout=5, full=True)[0] == 'unsat':
                    status = 'infeasible'
                    ctx.unsupported.clear()
            except Exception:
                pass
        res['paths'] += 1
        res['decisions'] += len(ctx.decisions)
        res['status'][status] = res['status'].get(status, 0) + 1
        funcs |= ctx.funcs
        for u in ctx.unsupported:
            if u not in res['unsupported'] and len(res['unsupported']) < 12:
                res['unsupported'].append(u)
        # depth-first; alternatives discovered on this path
        stack.extend(ctx.pending)
        if case.opts.get('shuffle') and len(stack) > 1:
            i = rnd.randrange(len(stack))
            stack[i], stack[-1] = stack[-1], stack[i]
        if verbose:
            print("path %d %s dec=%d %s" % (res['paths'], status, len(ctx.decisions),
                                            [r for r in env.results if r[1] != 'proved']), exc or '', ctx.unsupported[:2])
        for lab, st, secs in env.results:
            ob = res['obligations'].setdefault(lab, {})
            ob[st] = ob.get(st, 0) + 1
            if st == 'proved':
                res['proved'] += 1
            else:
                res['undecided'] += 1
        for lab in env.reached:
            res['reached'][lab] = res['reached'].get(lab, 0) + 1

        cands = [(c.label, c.detail, c.note, c.vals, c.script, c.rng) for c in env.candidates]
        if status in ('exception', 'unsupported') and tried < 14:
            ctx.opts['use_shadow'] = False
            lab = 'exception' if status == 'exception' else 'unsupported'
            det = ("%s: %s" % (type(exc).__name__, exc)) if exc is not None else '; '.join(ctx.unsupported[:2])
            try:
                for note, vals, rng in env.models([], None):
                    cands.append((lab, det, note, vals, dict(env.script), rng))
            except BaseException as e:
                res['unsupported'].append('model: %r' % (e,))
        confirmed_here = False
        for lab, det, note, vals, script, rng in cands:
            tried += 1
            if tried > 40:
                break
            r = harness.run_concrete(case.fn, case.params, vals, script, rng)
            if not r.valid or not r.fails:
                continue
            if lab == 'unsupported' and not any(f[2] for f in r.fails):
                continue
            f0 = r.fails[0]
            for f in r.fails:
                if f[0] == lab:
                    f0 = f
            v = dict(property=prop, case=case.name, label=f0[0], detail=f0[1], symbolic_label=lab,
                     symbolic_detail=str(det)[:300], model=note, vals=vals, script=script, rng=rng,
                     exc=r.exc, module=case.fn.__module__)
            ks = [match_known(known, prop, case.name, f[0], f[1]) for f in r.fails]
            if all(k is not None for k in ks):
                for k in ks:
                    if k['what'] not in res['known']:
                        res['known'].append(k['what'])
                confirmed_here = True
                continue
            for f, k in zip(r.fails, ks):
                if k is None and match_known(known, prop, case.name, f0[0], f0[1]):
                    v['label'], v['detail'] = f[0], f[1]
            res['violations'].append(v)
            stop = True
            break
        if cands and not confirmed_here and not stop and len(res['unconfirmed']) < 10:
            res['unconfirmed'].append(dict(label=cands[0][0], detail=str(cands[0][1])[:300], n=len(cands)))
        if stop:
            break
        # witness: a model of this path, replayed on the real code (validates the encoding)
        if status == 'ok' and not cands and (res['witness_ok'] + res['witness_invalid'] < nwit or
                                             (rnd.random() < 0.03 and res['witness_ok'] < 3 * nwit)) \
                and time.time() < opts['deadline']:
            ctx.opts['use_shadow'] = False
            ctx.opts['nice_time'] = 1.5
            ctx.opts['cand_left'] = [5]
            try:
                ms = env.models([], None)
            except BaseException:
                ms = []
            for note, vals, rng in ms[:1]:
                r = harness.run_concrete(case.fn, case.params, vals, dict(env.script), rng)
                if not r.valid:
                    res['witness_invalid'] += 1
                elif r.fails:
                    if len(res['witness_mismatch']) < 5:
                        res['witness_mismatch'].append(dict(fails=r.fails[:2], vals=vals, script=env.script, rng=rng,
                                                            model=note))
                    if any(f[2] for f in r.fails) and 'nice' in note and 'partly' not in note:
                        f0 = [f for f in r.fails if f[2]][0]
                        ks = match_known(known, prop, case.name, f0[0], f0[1])
                        if ks is not None:
                            if ks['what'] not in res['known']:
                                res['known'].append(ks['what'])
                        else:
                            res['violations'].append(dict(
                                property=prop, case=case.name, label=f0[0], detail=f0[1], symbolic_label='witness',
                                symbolic_detail='path witness fails on the real code', model=note, vals=vals,
                                script=dict(env.script), rng=rng, exc=r.exc, module=case.fn.__module__))
                            stop = True
                else:
                    res['witness_ok'] += 1
                    if res['sample'] is None:
                        res['sample'] = dict(case=case.name, inputs={k: round(float(v), 6) for k, v in list(vals.items())[:10]},
                                             choices=dict(env.script), obligations=len(env.results))
        core.set_ctx(None)
    core.set_ctx(None)
    res['complete'] = not stack and not stop and not set(res['status']) & {'limit', 'unsupported'}
    res['pending'] = len(stack)
    res['funcs'] = sorted(funcs)
    res['stats'] = stats.as_dict()
    res['wall'] = round(time.time() - t0, 2)
    return res


def _worker(prop, case, tier, deadline, known, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    try:
        r = explore(prop, case, tier, deadline, known)
    except MemoryError:
        r = dict(case=case.name, error='memory')
    except BaseException as e:
        r = dict(case=case.name, error='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-1500:])
    try:
        conn.send(json.dumps(r, default=str))
    except Exception as e:
        conn.send(json.dumps(dict(case=case.name, error='send %r' % (e,))))
    conn.close()
    os._exit(0)


def run_cases(prop, cases, tier, jobs):
    D = DEFAULTS[tier]
    t0 = time.time()
    hard = t0 + D['total']
    known = load_known()
    todo = sorted(cases, key=lambda c: -c.weight)
    running = []
    results = []
    stop = False
    ctxm = mp.get_context('fork')
    while todo or running:
        now = time.time()
        while todo and len(running) < jobs and not stop and now < hard - 2:
            c = todo.pop(0)
            a, b = ctxm.Pipe(False)
            dl = min(hard, now + (c.budget or D['budget']))
            p = ctxm.Process(target=_worker, args=(prop, c, tier, dl, known, b), daemon=True)
            p.start()
            b.close()
            running.append((p, a, c, dl))
        if (stop or now >= hard - 2) and todo:
            for c in todo:
                results.append(dict(case=c.name, error='not run (%s)' % ('stopped at a violation' if stop else 'time')))
            todo = []
        nxt = []
        for p, a, c, dl in running:
            got = None
            if a.poll(0):
                try:
                    got = json.loads(a.recv())
                except EOFError:
                    got = dict(case=c.name, error='worker died')
            elif not p.is_alive():
                got = dict(case=c.name, error='worker died')
            elif time.time() > dl + 20 or (stop and time.time() > stop + 3):
                p.kill()
                got = dict(case=c.name, error='hard timeout' if not stop else 'stopped at a violation')
            if got is None:
                nxt.append((p, a, c, dl))
            else:
                results.append(got)
                if got.get('violations') and not stop:
                    stop = time.time()
                p.join(0.2)
                if p.is_alive():
                    p.kill()
        running = nxt
        time.sleep(0.02)
    return results


def confirm(v, path):
    """replay in a fresh process with just-in-time compilation on, as a user would run the code"""
    env = dict(os.environ)
    env.pop('NUMBA_DISABLE_JIT', None)
    try:
        r = subprocess.run([sys.executable, '-m', 'symx.run', '--replay', path], cwd=VERIF, env=env,
                           capture_output=True, text=True, timeout=150)
    except subprocess.TimeoutExpired:
        return False, 'timeout'
    return r.returncode == 1, (r.stdout + r.stderr)[-600:]


def replay(path):
    v = json.load(open(path))
    from symx import harness
    mod = importlib.import_module('props.' + v['property'].lower())
    cases = {c.name: c for c in list(mod.cases('quick')) + list(mod.cases('thorough'))}
    case = cases[v['case']]
    r = harness.run_concrete(case.fn, case.params, v['vals'], v['script'], [tuple(x) for x in v['rng']])
    print("inputs:", json.dumps(v['vals']), "choices:", json.dumps(v['script']), "draws:", v['rng'])
    if not r.valid:
        print("NOT-REPRODUCED (inputs outside the assumptions: %s)" % r.exc)
        return 0
    if r.fails:
        for f in r.fails:
            print("REPRODUCED %s: %s" % (f[0], f[1]))
        if r.exc:
            print(r.exc)
        return 1
    print("NOT-REPRODUCED")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--replay')
    ap.add_argument('--case')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    tier = a.tier if a.tier in DEFAULTS else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.prop.upper()
    mod = importlib.import_module('props.' + prop.lower())
    cases = list(mod.cases(tier))
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    if a.list:
        print('\n'.join(names))
        return
    t0 = time.time()
    from symx import harness
    if a.case and a.v:
        known = load_known()
        for c in cases:
            if c.name == a.case:
                r = explore(prop, c, tier, time.time() + 3600, known, verbose=True)
                print(json.dumps(r, indent=1, default=str))
        return
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    load_error = None
    try:
        harness.real_modules()
    except Exception as e:
        load_error = '%s: %s' % (type(e).__name__, e)
    jobs = a.jobs or min(8, os.cpu_count() or 4)
    results = run_cases(prop, cases, tier, jobs)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    violations, downgraded = [], []
    for r in results:
        for v in r.get('violations', []):
            os.makedirs(rdir, exist_ok=True)
            h = hashlib.sha1(json.dumps([v['case'], v['label'], v['vals'], v['script']], sort_keys=True, default=str)
                             .encode()).hexdigest()[:10]
            path = os.path.join(rdir, '%s-%s.json' % (prop, h))
            json.dump(v, open(path, 'w'), indent=1, default=str)
            if len(violations) < 3:
                ok, out = confirm(v, path)
            else:
                ok, out = False, 'skipped'
            v['replay'] = os.path.relpath(path, VERIF)
            v['confirm'] = out
            (violations if ok else downgraded if out != 'skipped' else []).append(v)
    write_evidence(prop, tier, seed, mod, results, violations, downgraded, time.time() - t0)
    for r in results:
        for k in r.get('known', []):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
    npaths = sum(r.get('paths', 0) for r in results)
    und = sum(r.get('undecided', 0) for r in results)
    print("%s: %d cases, %d paths, %d obligations proved, %d undecided, %d witness replays ok, %.1fs%s" % (
        prop, len(results), npaths, sum(r.get('proved', 0) for r in results), und,
        sum(r.get('witness_ok', 0) for r in results), time.time() - t0,
        (' (load error: %s)' % load_error) if load_error else ''))
    for r in results:
        if r.get('error') or not r.get('complete') or r.get('undecided') or r.get('witness_mismatch') or r.get('unconfirmed'):
            print("  note: %s: %s" % (r['case'], r.get('error') or dict(
                complete=r['complete'], pending=r.get('pending'), status=r['status'], undecided=r['undecided'],
                unsupported=r['unsupported'][:2], mismatch=len(r['witness_mismatch']),
                unconfirmed=[u['label'] for u in r['unconfirmed']][:3], wall=r['wall'])))
    for v in downgraded:
        print("  not confirmed by the real code in a fresh process: %s %s" % (v['case'], v['label']))
    if violations:
        for v in violations:
            print("  %s / %s: %s" % (v['case'], v['label'], v['detail'][:300]))
            print("VIOLATION property=%s replay=%s" % (prop, v['replay']))
        sys.exit(1)
    sys.exit(0)


def write_evidence(prop, tier, seed, mod, results, violations, downgraded, wall):
    funcs = sorted({f for r in results for f in r.get('funcs', [])})
    st = dict(queries=0, solver_s=0.0, sat=0, unsat=0, unknown=0)
    for r in results:
        for k in st:
            st[k] += r.get('stats', {}).get(k, 0)
    st['solver_s'] = round(st['solver_s'], 2)
    samples = [r['sample'] for r in results if r.get('sample')][:6]
    complete = [r['case'] for r in results if r.get('complete')]
    partial = [dict(case=r['case'], why=r.get('error') or r.get('status'), pending=r.get('pending'),
                    unsupported=r.get('unsupported')) for r in results if not r.get('complete')]
    cov = dict(
        states=sum(r.get('paths', 0) for r in results),
        transitions=sum(r.get('decisions', 0) for r in results),
        traces_validated_against_impl=sum(r.get('witness_ok', 0) for r in results),
        samples=samples or [dict(note='no path completed')],
        obligations=sum(r.get('proved', 0) + r.get('undecided', 0) for r in results),
        discharged=sum(r.get('proved', 0) for r in results),
        explanation="states = execution paths of the real code explored symbolically (each stands for all inputs "
                    "satisfying its path condition); transitions = branch decisions taken; discharged = assertions "
                    "shown by the solver to hold for every value on their path; traces validated = solver models of "
                    "passing paths replayed on the real code with the same assertions",
        solver=dict(name='z3 ' + _z3v(), **st),
        functions_encoded=funcs,
        bounds=getattr(mod, 'BOUNDS', ''),
        outside=getattr(mod, 'OUTSIDE', ''),
        cases=[dict(case=r['case'], bounds=r.get('bounds'), paths=r.get('paths'), complete=r.get('complete'),
                    proved=r.get('proved'), undecided=r.get('undecided'), status=r.get('status'),
                    reached=r.get('reached'), wall_s=r.get('wall'), error=r.get('error')) for r in results],
        cases_complete=len(complete), cases_partial=partial,
        inconclusive=[dict(case=r['case'], unconfirmed=r.get('unconfirmed'), mismatch=r.get('witness_mismatch'))
                      for r in results if r.get('unconfirmed') or r.get('witness_mismatch')],
        witness_invalid=sum(r.get('witness_invalid', 0) for r in results),
        known_findings=[k for r in results for k in r.get('known', [])],
        not_confirmed=[dict(case=v['case'], label=v['label'], detail=v['detail']) for v in downgraded],
        exhaustive=not partial,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS,
              wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
    json.dump(ev, open(tmp, 'w'), indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, 'evidence', '%s.json' % prop))


COMMON_ASSUMPTIONS = [
    "arithmetic is exact real arithmetic extended with inf and nan (floating point rounding is outside the claim)",
    "float literals in the code denote their decimal value; pi denotes the double nearest to it",
    "exp, log, non-rational powers and special functions of symbolic arguments are uninterpreted monotone functions",
    "numpy/scipy/numba primitives behave as modelled in symx/snp.py and symx/loader.py (validated by replaying "
    "path witnesses on the real libraries)",
]


def _z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    from symx import run as _r      # one instance of the Case class
    _r.main()
