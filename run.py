#!/usr/bin/env python
"""run.py <PROPERTY> [quick|thorough] [--case SUBSTR] [--replay FILE] [-j N]

Exit 0: property held on everything explored. Exit 1 + VIOLATION line: it is
broken (counterexample already replayed on the real code). Exit 2: error.
"""
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)

T0 = time.time()


def _enc(o):
    if isinstance(o, Fraction):
        return {'$frac': str(o)}
    return o


def _dec(o):
    if isinstance(o, dict) and '$frac' in o:
        return Fraction(o['$frac'])
    return o


class FnTracer:
    """Names of the lambeq functions executed by the harnesses."""
    def __init__(self, root):
        self.root = root
        self.seen = set()

    def start(self):
        mon = sys.monitoring
        if mon.get_tool(4) is None:
            mon.use_tool_id(4, 'vsym')
        mon.register_callback(4, mon.events.PY_START, self._cb)
        mon.set_events(4, mon.events.PY_START)
        mon.restart_events()

    def _cb(self, code, off):
        f = code.co_filename
        if f.startswith(self.root):
            self.seen.add(f[len(self.root) + 1:] + ':' + code.co_qualname)
        return sys.monitoring.DISABLE


def run_case(args):
    idx, deadline, share = args
    from vsym import core
    case = SUITE_CASES[idx]
    if share:
        # thorough: no case may use up the whole budget
        deadline = min(deadline, time.time() + share)
    tr = FnTracer(os.path.realpath(REPO))
    tr.start()
    t0 = time.time()
    out = {'case': case.cid, 'status': 'ok', 'violation': None, 'notes': []}
    stats = None
    for mode in ('symbolic', 'split'):
        opts = dict(case.opts)
        opts.pop('split_fallback', None)
        eng = core.Engine(case.harness, deadline=deadline, mode=mode, **opts)
        try:
            v = eng.run()
            out.update(eng.stats.asdict())
            out['known'] = eng.known
            out['samples'] = eng.samples
            out['mode'] = mode
            if v is None:
                if eng.stats.paths - eng.stats.aborted_nocheck <= 0 \
                        and not eng.stats.checks:
                    out['status'] = 'error'
                    out['error'] = 'vacuous: no path reached a check'
                break
            # replay on the real code with ordinary values
            msg = core.replay(case.harness, v.model)
            if msg is not None and msg != 'abort':
                out['violation'] = {'msg': msg, 'symbolic_msg': v.msg,
                                    'values': v.model}
                break
            out['status'] = 'error'
            out['error'] = ('counterexample does not reproduce: '
                            f'{v.msg} values={v.model}')
        except core.EngineError as ex:
            out.update(eng.stats.asdict())
            out['samples'] = eng.samples
            if share and time.time() >= deadline:
                # explored in part only: the property held so far
                out['status'] = 'incomplete'
                out['known'] = eng.known
                break
            out['status'] = 'error'
            out['error'] = f'{ex}'
        except BaseException as ex:
            out.update(eng.stats.asdict())
            out['samples'] = eng.samples
            out['status'] = 'error'
            out['error'] = (f'{type(ex).__name__}: {ex} '
                            + traceback.format_exc(limit=-4))
        if mode == 'symbolic':
            if case.opts.get('split_fallback', True) is False:
                break
            out['notes'].append('symbolic run inconclusive, case-split '
                                'fallback used: ' + out.get('error', ''))
            out['status'] = 'ok'
    out['wall'] = time.time() - t0
    out['functions'] = sorted(tr.seen)
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?',
                    default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('-j', type=int, default=int(os.environ.get('VERIF_JOBS',
                                                              '8')))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--budget', type=float, default=None)
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'

    global REPO, SUITE_CASES
    from vsym import boot, core
    REPO = boot.REPO
    mod = importlib.import_module(f'props.{a.prop.lower()}')
    suite = mod.SUITE
    cases = suite.cases(tier)
    if a.case:
        cases = [c for c in cases if a.case in c.cid]
    SUITE_CASES = cases
    if a.list:
        for c in cases:
            print(c.cid)
        return 0
    if a.replay:
        d = json.load(open(a.replay), object_hook=_dec)
        allc = {c.cid: c for c in suite.cases('quick')}
        allc.update({c.cid: c for c in suite.cases('thorough')})
        msg = core.replay(allc[d['case']].harness, d['values'])
        print('replay:', msg if msg else 'property holds')
        return 1 if msg not in (None, 'abort') else 0

    budget = a.budget or (780 if tier == 'quick' else 2700)
    deadline = time.time() + budget
    hard = budget + 60
    results = []
    ctx = mp.get_context('fork')
    # big cases first, if the suite says so
    order = sorted(range(len(cases)),
                   key=lambda i: -cases[i].opts.get('weight', 1))
    for c in cases:
        c.opts.pop('weight', None)
    share = None
    if tier != 'quick':
        share = budget / 3
        first = {c.cid for c in suite.cases('quick')}
        order.sort(key=lambda i: cases[i].cid not in first)
    stop_on_violation = not a.keep_going
    with ctx.Pool(min(a.j, max(1, len(cases))), maxtasksperchild=40) as pool:
        it = pool.imap_unordered(run_case, [(i, deadline, share)
                                             for i in order])
        n = 0
        while n < len(order):
            try:
                r = it.next(timeout=max(5, hard - (time.time() - T0)))
            except mp.TimeoutError:
                done = {r['case'] for r in results}
                left = ' '.join(c.cid for c in cases if c.cid not in done)
                results.append({'case': '(pool)', 'status':
                                'incomplete' if share else 'error',
                                'error': 'timeout: ' + left[:500],
                                'violation': None,
                                'notes': []})
                break
            except StopIteration:
                break
            results.append(r)
            n += 1
            if a.v:
                print(f"  {r['case']}: {r['status']} paths={r.get('paths')} "
                      f"checks={r.get('checks')} q={r.get('queries')} "
                      f"{r.get('wall', 0):.1f}s {r.get('error', '')} "
                      f"{(r['violation'] or {}).get('msg', '')}", flush=True)
            if r['violation'] and stop_on_violation:
                pool.terminate()
                break
    return report(a.prop, tier, suite, cases, results)


def report(prop, tier, suite, cases, results):
    ev_dir = os.path.join(HERE, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    tot = {}
    for r in results:
        for k in ('paths', 'aborted', 'decisions', 'queries', 'solver_s',
                  'checks', 'discharged', 'witnesses', 'concretisations'):
            tot[k] = tot.get(k, 0) + (r.get(k) or 0)
    fns = sorted({f for r in results for f in r.get('functions', ())})
    viols = [r for r in results if r['violation']]
    errors = [r for r in results if r['status'] == 'error'
              and not r['violation']]
    part = [r['case'] for r in results if r['status'] == 'incomplete'
            and not r['violation']]
    if part and len(part) == len(results):
        errors += [r for r in results if r['case'] == part[0]]
    notes = [f"{r['case']}: {n}" for r in results for n in r['notes']]
    known = {}
    for r in results:
        for k, v in (r.get('known') or {}).items():
            known.setdefault(k, v)
    samples = []
    for r in results:
        for s in r.get('samples', ())[:1]:
            samples.append({'case': r['case'], 'witness': s})
    samples = samples[:12] or ['none']
    cov = {
        'states': tot.get('paths', 0),
        'transitions': tot.get('decisions', 0),
        'traces_validated_against_impl': tot.get('witnesses', 0),
        'samples': samples,
        'obligations': tot.get('checks', 0),
        'discharged': tot.get('checks', 0) if not (viols or errors)
        else tot.get('discharged', 0),
        'queries': tot.get('queries', 0),
        'solver_time_s': round(tot.get('solver_s', 0.0), 3),
        'paths_infeasible_or_assumed_away': tot.get('aborted', 0),
        'value_case_splits': tot.get('concretisations', 0),
        'cases': len(results),
        'case_ids': [r['case'] for r in results][:200],
        'bounds': suite.bounds,
        'outside_the_claim': suite.outside,
        'stubs': suite.stubs,
        'functions_encoded': fns,
        'degraded_cases': notes,
        'incomplete_cases': part,
        'known_findings_seen': sorted(known),
        'explanation': 'states = feasible paths of the real code explored '
        'symbolically, transitions = branch/value decisions taken, '
        'traces_validated_against_impl = solver models of completed paths '
        're-run with ordinary values on the unpatched code; an obligation '
        'is one property assertion on one path, decided by Z3.',
    }
    ev = {'property': prop, 'tier': tier,
          'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'model_checking', 'coverage': cov,
          'assumptions': suite.assumptions, 'wall_s':
          round(time.time() - T0, 2), 'violations': len(viols)}
    with open(os.path.join(ev_dir, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k, v in sorted(known.items()):
        print(f'KNOWN-FINDING: property={prop} {k}: {v}')
    print(f'{prop} {tier}: cases={len(results)} paths={tot.get("paths")} '
          f'decisions={tot.get("decisions")} obligations={tot.get("checks")} '
          f'queries={tot.get("queries")} solver={tot.get("solver_s", 0):.1f}s '
          f'witnesses={tot.get("witnesses")} functions={len(fns)} '
          f'wall={time.time() - T0:.1f}s')
    if part:
        print(f'explored in part only (budget): {len(part)} cases:',
              ' '.join(part)[:600])
    for n in notes:
        print('note:', n[:600])
    if viols:
        for i, r in enumerate(viols):
            p = os.path.join(ev_dir, f'replay_{prop}_{i}.json')
            with open(p, 'w') as f:
                json.dump({'property': prop, 'case': r['case'],
                           'message': r['violation']['msg'],
                           'values': {k: _enc(v) for k, v in
                                      r['violation']['values'].items()}},
                          f, indent=1, default=str)
            print(f"counterexample in {r['case']}: "
                  f"{r['violation']['msg'][:1500]}")
            print('  values:', {k: str(v) for k, v in
                                r['violation']['values'].items()})
            print(f'VIOLATION property={prop} replay={p}')
        return 1
    if errors:
        for r in errors:
            print(f"error: {r['case']}: {r.get('error')}")
        return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
