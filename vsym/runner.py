"""Drives one property's check: build, shard, solve, replay, evidence."""
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import random
import re
import sys
import threading
import time
import traceback
from . import build, core, llir

NPROC = int(os.environ.get('VSYM_PROCS', '8'))
EVID = os.path.join(build.VERIF, 'evidence')
KNOWN = os.path.join(build.VERIF, 'known_findings.json')

_mods = {}
_JOBS = {}
_CEX = mp.get_context('fork').Value('i', 0)     # definite counterexamples so far, over all workers
SOFT = 150          # seconds of solving after which enough counterexamples end the exploration


def load_mods(paths):
    out = []
    for p in paths:
        m = _mods.get(p)
        if m is None:
            m = llir.Module(p)
            _mods[p] = m
        out.append(m)
    return out


def _work(key):
    """one shard in a worker process"""
    cfg, cases, ll, lls, tmo, setup, soft, deadline = _JOBS[key]
    sys.setrecursionlimit(50000)
    threading.stack_size(512 * 1024 * 1024)
    res = []

    def go():
        try:
            mods = load_mods([ll] + lls)
        except Exception as e:
            for c in cases:
                res.append(dict(case=c.name, cls=c.cls, status='error', why='load: %r' % e, stats=core.new_stats(),
                                funcs=[], wall_s=0, cfg=cfg))
            return
        for c in cases:
            if time.time() > deadline:
                res.append(dict(case=c.name, cls=c.cls, status='unknown', why='check deadline', stats=core.new_stats(),
                                funcs=[], wall_s=0, cfg=cfg))
                continue
            if time.time() > soft and _CEX.value >= 6:
                res.append(dict(case=c.name, cls=c.cls, status='skipped', why='counterexamples at hand',
                                stats=core.new_stats(), funcs=[], wall_s=0, cfg=cfg))
                continue
            r = core.check_case(c, mods, c.timeout or tmo, setup)
            r['cfg'] = cfg
            if r['status'] == 'cex' and r['confirm'][0] in ('definite', 'ub'):
                with _CEX.get_lock():
                    _CEX.value += 1
            res.append(r)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    return key, res


def shard(cases, n):
    """greedy balance by cost, keeping the same type together does not matter"""
    bins = [[0, []] for _ in range(n)]
    for c in sorted(cases, key=lambda c: -c.cost):
        b = min(bins, key=lambda b: b[0])
        b[0] += c.cost
        b[1].append(c)
    return [b[1] for b in bins if b[1]]


class Prop:
    """what a check module provides"""
    id = ''
    technique = 'symbolic execution of LLVM IR + SMT (z3/cvc5)'
    externs = ()          # extra (crate, path) dependencies
    extra_src = ''
    setup = None
    query_timeout = 60
    bounds = ''
    assumptions = ()
    shards = 24

    def configs(self, tier):
        return ['base']

    def cases(self, tier, cfg):
        raise NotImplementedError


def known(pid):
    try:
        k = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [e for e in k.get('findings', []) if e['property'] == pid and e.get('status') == 'known']


def main(prop, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    only = None
    if '--only' in argv:
        only = re.compile(argv[argv.index('--only') + 1])
    cfgs = prop.configs(tier)
    if '--cfg' in argv:
        cfgs = argv[argv.index('--cfg') + 1].split(',')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in argv
    t0 = time.time()
    budget = 780 if tier == 'quick' else 6 * 3600
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(build.BUILD, exist_ok=True)
    evf = os.path.join(EVID, prop.id + '.json')
    if os.path.exists(evf):
        os.remove(evf)
    try:
        with cf.ThreadPoolExecutor(4) as tp:
            libs = dict(zip(cfgs, tp.map(lambda c: build.build_lib(c, prop.externs), cfgs)))
        tb = time.time()
        jobs = []
        total = {}
        nsh = max(4, min(prop.shards, 48) // max(1, len(cfgs)))
        allcases = {}
        for cfg in cfgs:
            cs = prop.cases(tier, cfg)
            names = [c.name for c in cs]
            assert len(set(names)) == len(names), 'duplicate case names: %s' % [n for n in names if names.count(n) > 1][:4]
            if only:
                cs = [c for c in cs if only.search(c.name)]
            total[cfg] = len(cs)
            allcases[cfg] = {c.name: c for c in cs}
            for i, sh in enumerate(shard(cs, nsh)):
                jobs.append((cfg, i, sh))
        # IR generation, bounded parallelism
        ext = ['packed_simd'] + [n.replace('-', '_') for n, _ in prop.externs]

        def comp(cfg, tag, sh):
            src = build.PRELUDE + prop.extra_src + ''.join(c.rust() for c in sh)
            return build.finish_ir(build.start_ir(libs[cfg], tag, src, ext))

        def gen(j):
            cfg, i, sh = j
            try:
                return comp(cfg, '%s_%d' % (prop.id, i), sh)
            except build.BuildError as e:
                # the crate itself builds: find one entry point the harness can no longer use
                err = e
                while len(sh) > 1:
                    h = sh[:len(sh) // 2]
                    try:
                        comp(cfg, '%s_%db' % (prop.id, i), h)
                        sh = sh[len(sh) // 2:]
                    except build.BuildError as e2:
                        sh, err = h, e2
                try:
                    comp(cfg, '%s_%db' % (prop.id, i), sh)
                except build.BuildError as e2:
                    if 'error[E' in str(e2) or 'error: ' in str(e2):
                        return Gone(cfg, sh[0], str(e2))
                    raise
                raise err
        with cf.ThreadPoolExecutor(NPROC) as tp:
            lls = list(tp.map(gen, jobs))
        gone = [x for x in lls if isinstance(x, Gone)]
        if gone:
            # does the bare crate still build the same prelude?  then the public API shrank
            for cfg in {g.cfg for g in gone}:
                comp(cfg, '%s_prelude' % prop.id, [])
    except build.BuildError as e:
        print('BUILD-ERROR property=%s\n%s' % (prop.id, e))
        return 2
    ti = time.time()
    for k, ((cfg, i, sh), ll) in enumerate(zip(jobs, lls)):
        if isinstance(ll, Gone):
            continue
        _JOBS[k] = (cfg, sh, ll, libs[cfg].lls, prop.query_timeout, prop.setup,
                    ti + (SOFT if tier == 'quick' else 8 * SOFT), t0 + budget)
    results = [dict(case=g.case.name, cls=g.case.cls, status='gone', stats=core.new_stats(), funcs=[], wall_s=0, cfg=g.cfg,
                    desc='no longer offered') for g in gone]
    order = sorted(_JOBS, key=lambda k: -sum(c.cost for c in _JOBS[k][1]))
    ctx = mp.get_context('fork')
    with ctx.Pool(NPROC, maxtasksperchild=2) as pool:
        for k, res in pool.imap_unordered(_work, order, chunksize=1):
            results += res
            if verbose:
                for r in res:
                    print('%-9s %-7s %6.2fs q=%d %s %s' % (r['status'], r['cfg'], r['wall_s'],
                          r['stats']['queries'] + r['stats']['feas_queries'], r['case'], r.get('why', r.get('desc', ''))[:900]))
    ts = time.time()
    bad = [r for r in results if r['status'] == 'cex']
    err = [r for r in results if r['status'] in ('error', 'unknown')]
    bad.sort(key=lambda r: (r['confirm'][0] not in ('definite', 'ub'), r['cfg'] != 'base', r['case']))
    kn = known(prop.id)
    violations = []
    unconfirmed = []
    knownhits = []
    tried = 0
    seen_cls = set()
    for r in bad:
        hit = [e for e in kn if re.search(e['case'], r['case'])]
        if hit:
            knownhits.append((hit[0], r))
            continue
        if violations and r['cls'] in seen_cls:
            continue
        if violations and tried >= 4:
            break
        if tried >= 24:
            break
        tried += 1
        case = allcases[r['cfg']][r['case']]
        rec = dict(property=prop.id, case=r['case'], config=r['cfg'], description=r['desc'], inputs=jsonable(r['conc']),
                   encoding=r['confirm'], rust=case.rust())
        try:
            ok, rep = core.replay_native(case, r['conc'], r['cfg'], build.BUILD, prop.extra_src, prop.externs)
            if not ok and r['confirm'][0] == 'uninterpreted' and not case.native:
                ok, rep2 = core.replay_native(case, r['conc'], r['cfg'], build.BUILD, prop.extra_src, prop.externs,
                                              alts=list(core.alt_concs(case, r['conc'])))
                rep = rep + rep2
        except Exception as e:
            ok, rep = None, ['replay failed: %r' % e]
        rec['native'] = rep
        if not ok and r['confirm'][0] in ('ub', 'poison') and not (r['confirm'][0] == 'poison' and case.native):
            # no native symptom expected: undefined behaviour reached on this concrete input, confirmed by
            # concrete interpretation of the compiled IR
            rec['note'] = 'undefined behaviour reached on this input (confirmed by concrete execution of the IR)'
            ok = True
        if not ok and ok is None and r['confirm'][0] == 'definite':
            rec['note'] = 'input too large to run natively; confirmed by concrete execution of the IR'
            ok = True
        p = os.path.join(EVID, 'replay-%s-%s-%s.json' % (prop.id, r['cfg'], r['case'][:80]))
        json.dump(rec, open(p, 'w'), indent=1)
        if ok:
            seen_cls.add(r['cls'])
            violations.append((r, p))
        else:
            unconfirmed.append((r, p, rep))
    for g in gone[:2]:
        p = os.path.join(EVID, 'replay-%s-%s-%s.json' % (prop.id, g.cfg, g.case.name[:80]))
        json.dump(dict(property=prop.id, case=g.case.name, config=g.cfg, rust=g.case.rust(), prelude=build.PRELUDE,
                       description='this program, which uses a public entry point the property speaks about, is rejected by '
                                   'the compiler although the crate builds', compiler=g.err), open(p, 'w'), indent=1)
        violations.append((dict(case=g.case.name, cfg=g.cfg, desc='entry point no longer offered'), p))
    xv = None
    if tier == 'thorough' and not bad and not err and not gone:
        xv = crossvalidate(prop, cfgs, allcases, libs, jobs, lls, seed)
    tot = core.new_stats()
    for r in results:
        for k, v in r['stats'].items():
            if k == 'max_query_s':
                tot[k] = max(tot[k], v)
            elif isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
    funcs = set()
    for r in results:
        funcs |= set(r['funcs'])
    crate = sorted(f for f in funcs if 'packed_simd' in f)
    byc = {}
    for r in results:
        byc[r['cls']] = byc.get(r['cls'], 0) + 1
    okn = sum(1 for r in results if r['status'] == 'ok')
    rnd = random.Random(seed)
    samp = [dict(case=r['case'], config=r['cfg'], status=r['status'], assertions=r['stats']['disjuncts'],
                 queries=r['stats']['queries'] + r['stats']['feas_queries'], steps=r['stats']['steps'],
                 body=allcases[r['cfg']][r['case']].body)
            for r in rnd.sample(results, min(4, len(results)))]
    ev = dict(property=prop.id, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 1),
              violations=len(violations),
              assumptions=list(prop.assumptions) + COMMON_ASSUMPTIONS,
              coverage=dict(
                  explanation='Each obligation is one public entry point at one vector type in one build configuration: the '
                              'LLVM IR rustc emits for it from the current tree is executed symbolically with every input '
                              'bit symbolic, and the negated specification is put to the solver; unsat for every lane, '
                              'panic and undefined-behaviour condition discharges it.  Bounds: ' + prop.bounds,
                  obligations=len(results), discharged=okn, undecided=len(results) - okn - len(bad) - len(gone),
                  configurations={c: dict(features=build.CONFIGS[c][0] or 'x86_64 baseline', profile=build.CONFIGS[c][1],
                                          obligations=total[c]) for c in cfgs},
                  per_operation=byc,
                  functions_encoded=len(funcs), crate_functions_encoded=len(crate), crate_functions_sample=crate[:8],
                  ir_instructions_executed=tot['steps'], assertions=tot['disjuncts'],
                  assertions_closed_by_rewriting=tot['simplified'], final_queries=tot['queries'],
                  feasibility_queries=tot['feas_queries'], cvc5_queries=tot.get('cvc5', 0),
                  solver_s=round(tot['solver_s'], 2), slowest_query_s=round(tot['max_query_s'], 2),
                  path_forks=tot['forks'], state_merges=tot['merges'],
                  build_s=round(tb - t0, 1), ir_s=round(ti - tb, 1), solve_s=round(ts - ti, 1), samples=samp))
    if xv:
        ev['coverage']['encoder_cross_validation'] = {k: v for k, v in xv.items() if k != 'bad'}
    json.dump(ev, open(evf, 'w'), indent=1)
    print('%s [%s]: %d obligations, %d discharged, %d undecided, %d counterexamples; %d functions encoded, %d queries, '
          'solver %.1fs; build %.0fs ir %.0fs solve %.0fs total %.0fs' % (
              prop.id, tier, len(results), okn, len(err), len(bad), len(funcs), tot['queries'] + tot['feas_queries'],
              tot['solver_s'], tb - t0, ti - tb, ts - ti, time.time() - t0))
    if xv:
        print('  encoder cross-validation: %d native runs, %d lanes compared, %d mismatches' % (
            xv['runs'], xv['lanes'], len(xv['bad'])))
        for b in xv['bad'][:6]:
            print('  ENCODER-MISMATCH %s' % (b,))
    for e in kn:
        if any(k is e for k, _ in knownhits):
            print('KNOWN-FINDING: property=%s %s' % (prop.id, e['what']))
    for r, p in violations:
        print('  counterexample: %s [%s]: %s' % (r['case'], r['cfg'], r['desc']))
        print('VIOLATION property=%s replay=%s' % (prop.id, p))
    for r, p, rep in unconfirmed:
        print('  UNCONFIRMED counterexample (not reproduced natively): %s [%s] %s %s' % (r['case'], r['cfg'], r['desc'], p))
    for r in err[:12]:
        print('  undecided: %s [%s]: %s' % (r['case'], r['cfg'], r.get('why', '')[-600:]))
    if violations:
        return 1
    if err or unconfirmed or (xv and xv['bad']) or any(r['status'] == 'skipped' for r in results):
        return 2
    if not results:
        print('no obligations')
        return 2
    return 0


class Gone:
    def __init__(self, cfg, case, err):
        self.cfg, self.case, self.err = cfg, case, err


def _xrun(cfg, cases, paths, so, seed, setup, tries):
    sys.setrecursionlimit(50000)
    threading.stack_size(512 * 1024 * 1024)
    out = []

    def go():
        mods = load_mods(paths)
        for c in cases:
            try:
                out.append(core.crosscheck(c, mods, so, random.Random('%s/%s/%s' % (seed, cfg, c.name)), tries, setup))
            except Exception as e:
                out.append((0, 0, [(c.name, '', 'crosscheck failed: %r' % e)]))
    th = threading.Thread(target=go)
    th.start()
    th.join()
    return out


_XJ = {}


def _xkey(k):
    return _xrun(*_XJ[k])


def crossvalidate(prop, cfgs, allcases, libs, jobs, lls, seed, per_cfg=160, tries=3):
    """random concrete inputs through the executor and the native build"""
    rnd = random.Random(seed)
    tot = dict(runs=0, lanes=0, bad=[], cases=0)
    for cfg in cfgs:
        if not build.cpu_has(cfg):
            continue
        cs = [c for c in allcases[cfg].values() if not c.native and core.random_conc(c, rnd) is not None]
        cs = rnd.sample(cs, min(per_cfg, len(cs)))
        if not cs:
            continue
        names = {c.name for c in cs}
        for prof in ('release',) if cfg != 'dev' else ('dev',):
            so = build.build_native(cfg, 'x' + prop.id, build.PRELUDE + prop.extra_src + ''.join(c.rust() for c in cs), prof,
                                    prop.externs)
            _XJ.clear()
            for k, ((jc, i, sh), ll) in enumerate(zip(jobs, lls)):
                mine = [c for c in sh if c.name in names] if jc == cfg else []
                if mine:
                    _XJ[k] = (cfg, mine, [ll] + libs[cfg].lls, so, seed, prop.setup, tries)
            with mp.get_context('fork').Pool(NPROC) as pool:
                for res in pool.imap_unordered(_xkey, list(_XJ)):
                    for r, l, b in res:
                        tot['runs'] += r
                        tot['lanes'] += l
                        tot['bad'] += b
                        tot['cases'] += 1
    return tot


def jsonable(x):
    if isinstance(x, dict):
        return {k: jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return hex(x)
    return x


COMMON_ASSUMPTIONS = [
    'target x86_64-unknown-linux-gnu, rustc nightly-2023-07-30; code generation below LLVM IR is trusted '
    '(counterexamples are replayed natively)',
    'core panicking entry points diverge; core/num-traits/libm code reached is executed from its own IR unless listed',
    'rounding float operations are uninterpreted functions first and z3 IEEE-754 terms only if that does not decide; '
    'NaN payloads and the sign of NaN are not compared',
]
