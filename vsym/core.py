"""Cases, symbolic checking of one case, replay."""
import json
import os
import random
import re
import signal
import subprocess
import sys
import time
import traceback
import z3
from . import build, llir, ex, fpm
from .ex import Exec, State, Ptr, Obj, Unsupported, PathDead
from .vals import *
from .vtypes import T, S, Ty

HERE = os.path.dirname(os.path.abspath(__file__))


# ------------------------------------------------------------------ arguments
def lane_in(ty, name, k):
    """fresh symbolic lane: (spec value, memory value)"""
    if ty.kind == 'm':
        b = z3.Bool('%s_%d' % (name, k))
        return b, z3.If(b, z3.BitVecVal(mask(ty.w), ty.w), z3.BitVecVal(0, ty.w))
    if ty.kind == 'b':
        b = z3.Bool('%s_%d' % (name, k))
        return b, z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
    v = z3.BitVec('%s_%d' % (name, k), ty.w)
    return v, v


def lane_mem(ty, v):
    if ty.kind == 'm':
        return ite(v, mask(ty.w), 0, ty.w)
    if ty.kind == 'b':
        return ite(v, 1, 0, 8)
    return v


def align_ok(ty):
    return ty.size


class Arg:
    name = None
    is_out = False
    pre = ()


class In(Arg):
    """vector or scalar read through a pointer"""

    def __init__(self, ty, n=1):
        self.ty = ty if isinstance(ty, Ty) else (T.get(ty) or S[ty])
        self.cnt = n

    def decl(self):
        return '%s: *const %s' % (self.name, self.ty.name)

    def make(self, E, st, conc=None):
        ty = self.ty
        n = ty.n * self.cnt
        s = ty.w // 8
        vals, ch = [], {}
        for k in range(n):
            if conc is None:
                v, m = lane_in(ty, self.name, k)
            else:
                v = conc[k]
                m = lane_mem(ty, v)
            vals.append(v)
            ch[k * s] = (m, s)
        oid = E.new_obj(st, ty.size * self.cnt, self.name, 64, chunks=ch, ro=True)
        self.oid = oid
        return [Ptr(oid, 0)], vals

    def extract(self, m, vals):
        return [model_val(m, v) for v in vals]

    def replay(self, conc):
        b = b''.join(lane_bytes(self.ty, v) for v in conc)
        return [dict(kind='buf', hex=b.hex(), align=64)]


class Out(Arg):
    is_out = True

    def __init__(self, ty, n=1):
        self.ty = ty if isinstance(ty, Ty) else (T.get(ty) or S[ty])
        self.cnt = n

    def decl(self):
        return '%s: *mut %s' % (self.name, self.ty.name)

    def make(self, E, st, conc=None):
        self.oid = E.new_obj(st, self.ty.size * self.cnt, self.name, 64)
        return [Ptr(self.oid, 0)], None

    def extract(self, m, vals):
        return None

    def replay(self, conc):
        return [dict(kind='buf', hex='a5' * (self.ty.size * self.cnt), align=64, out=self.name)]

    def final(self, E, st):
        """list of (actual lane scalar)"""
        o = E.obj(st, self.oid)
        s = self.ty.w // 8
        return [E._as_int(E._get(o, k * s, s), self.ty.w) for k in range(self.ty.n * self.cnt)]

    def final_native(self, b):
        s = self.ty.w // 8
        return [int.from_bytes(b[k * s:(k + 1) * s], 'little') for k in range(self.ty.n * self.cnt)]

    def nlanes(self):
        return self.ty.n * self.cnt


class Val(Arg):
    """integer passed by value"""

    def __init__(self, rust='usize', w=64):
        self.rust = rust
        self.w = w

    def decl(self):
        return '%s: %s' % (self.name, self.rust)

    def make(self, E, st, conc=None):
        v = z3.BitVec(self.name, self.w) if conc is None else conc
        return [v], v

    def extract(self, m, v):
        return model_val(m, v)

    def replay(self, conc):
        return [dict(kind='val', v=conc)]


class SliceView:
    def __init__(self, length, base, elems):
        self.len = length
        self.base = base
        self.elems = elems


class Slice(Arg):
    """&[T] / &mut [T] of symbolic length, symbolic address, symbolic contents.

    The first `limit` elements are individually symbolic; further elements exist
    (the length is any value up to isize::MAX bytes) but reading one is Unsupported.
    """

    def __init__(self, ty, limit, mut=False):
        self.ty = ty if isinstance(ty, Ty) else S[ty]
        self.limit = limit
        self.mut = mut
        self.is_out = mut

    def decl(self):
        q = 'mut' if self.mut else 'const'
        return '%s: *%s %s, %s_len: usize' % (self.name, q, self.ty.name, self.name)

    def make(self, E, st, conc=None):
        ty = self.ty
        s = ty.w // 8
        al = min(s, 8) if ty.w == 128 else s
        if conc is None:
            L = z3.BitVec(self.name + '_len', 64)
            B = z3.BitVec(self.name + '_addr', 64)
            st.pc = st.pc + (z3.ULE(L, (1 << 62) // s), z3.ULE(B, 1 << 46), z3.UGE(B, 1 << 45),
                             z3.Extract(al.bit_length() - 2, 0, B) == 0 if al > 1 else z3.BoolVal(True))
            elems = [lane_in(ty, self.name, k) for k in range(self.limit)]
            size = L * s
        else:
            L, B, ev = conc
            elems = [(v, lane_mem(ty, v)) for v in ev]
            size = L * s
        lim = self.limit

        def lazy(off):
            k = off // s
            if k < lim:
                return (k * s, elems[k][1], s)
            raise Unsupported('access beyond the modelled prefix of a slice')
        lazy.limit = lim * s
        self.oid = E.new_obj(st, size, self.name, s, base=B, lazy=None, ro=not self.mut)
        o = st.mem[self.oid]

        class LZ:
            limit = lim * s

            def __call__(self, off):
                return lazy(off)
        o.lazy = LZ()
        return [Ptr(self.oid, 0), L], SliceView(L, B, [e[0] for e in elems])

    def extract(self, m, v):
        return (model_val(m, v.len), model_val(m, v.base), [model_val(m, x) for x in v.elems])

    def replay(self, conc):
        L, B, ev = conc
        n = min(L, len(ev))
        b = b''.join(lane_bytes(self.ty, v) for v in ev[:n])
        d = dict(kind='buf', hex=b.hex(), align=64, mod=B % 64)
        if self.mut:
            d['out'] = self.name
        return [d, dict(kind='val', v=L)]

    def too_big(self, conc):
        return conc[0] > len(conc[2])

    def final(self, E, st):
        o = E.obj(st, self.oid)
        s = self.ty.w // 8
        return [E._as_int(E._get(o, k * s, s), self.ty.w) for k in range(self.limit)]

    def final_native(self, b):
        s = self.ty.w // 8
        return [int.from_bytes(b[k * s:(k + 1) * s], 'little') for k in range(len(b) // s)]

    def nlanes(self):
        return self.limit


class Opaque(Arg):
    """pointer to something the code under test may only pass on"""

    def __init__(self, rust):
        self.rust = rust

    def decl(self):
        return '%s: *mut %s' % (self.name, self.rust)

    def make(self, E, st, conc=None):
        self.oid = E.new_obj(st, 64, self.name, 16, ro=True)
        return [Ptr(self.oid, 0)], None

    def extract(self, m, vals):
        return None


class Buf(Arg):
    """fixed-size in/out memory region of n elements; elem type ty"""
    is_out = True

    def __init__(self, ty, n):
        self.ty = ty if isinstance(ty, Ty) else S[ty]
        self.cnt = n

    def decl(self):
        return '%s: *mut %s' % (self.name, self.ty.name)

    def make(self, E, st, conc=None):
        ty = self.ty
        s = ty.w // 8
        vals, ch = [], {}
        for k in range(self.cnt):
            if conc is None:
                v, m = lane_in(ty, self.name, k)
            else:
                v = conc[k]
                m = lane_mem(ty, v)
            vals.append(v)
            ch[k * s] = (m, s)
        self.oid = E.new_obj(st, s * self.cnt, self.name, 64, chunks=ch)
        return [Ptr(self.oid, 0)], vals

    extract = In.extract

    def replay(self, conc):
        b = b''.join(lane_bytes(self.ty, v) for v in conc)
        return [dict(kind='buf', hex=b.hex(), align=64, out=self.name)]

    def final(self, E, st):
        o = E.obj(st, self.oid)
        s = self.ty.w // 8
        return [E._as_int(E._get(o, k * s, s), self.ty.w) for k in range(self.cnt)]

    def final_native(self, b):
        s = self.ty.w // 8
        return [int.from_bytes(b[k * s:(k + 1) * s], 'little') for k in range(self.cnt)]

    def nlanes(self):
        return self.cnt


def model_val(m, v):
    if type(v) in (int, bool):
        return v
    r = m.eval(v, model_completion=True)
    r = concrete(r)
    if type(r) not in (int, bool):
        r = concrete(z3.simplify(r))
    return r


def lane_bytes(ty, v):
    x = lane_mem(ty, v)
    return int(x).to_bytes(ty.w // 8, 'little')


# ------------------------------------------------------------------ case
class Case:
    """One harness function and its specification.

    spec(c) receives c.i (dict of input values), c.fp, and returns a dict of
    expected outputs {out name: [expected lane | predicate]}; may set c.panic.
    """

    def __init__(self, name, args, body, spec, pre=None, cost=1, cls='', ref=None, decls='', nocheck_uf=False,
                 timeout=None, native=None):
        self.name = re.sub(r'\W', '_', name)
        self.args = args
        for n, a in args.items():
            a.name = n
        self.body = body
        self.spec = spec
        self.pre = pre
        self.cost = cost
        self.cls = cls or name.split('__')[0]
        self.ref = ref              # rust body computing reference outputs natively (uninterpreted functions)
        self.decls = decls
        self.timeout = timeout
        self.native = native        # conc -> (case, conc) to run natively instead of this one

    def rust(self, name=None, body=None):
        ps = ', '.join(a.decl() for a in self.args.values())
        return '%s\n#[no_mangle] pub unsafe extern "C" fn %s(%s) { %s }\n' % (
            self.decls, name or self.name, ps, body or self.body)


class Ctx:
    def __init__(self, i, fp, conc):
        self.i = i
        self.fp = fp
        self.panic = False      # condition under which the call must panic
        self.may_panic = False  # condition under which a panic is also allowed
        self.conc = conc
        self.extra = {}


def lane_pred(ty, actual, exp):
    """-> condition that the actual lane is right"""
    if callable(exp):
        return exp(actual)
    if ty.kind == 'm':
        return eq(actual, ite(exp, mask(ty.w), 0, ty.w), ty.w)
    if ty.kind == 'b':
        return eq(actual, ite(exp, 1, 0, 8), 8)
    if ty.kind == 'f':
        return fpm.same_mod_nan(actual, exp, ty.w)
    return eq(actual, exp, ty.w)


def bits(exp):
    """exact bit comparison for float lanes"""
    return lambda a: eq(a, exp, a.size() if is_sym(a) else exp.size() if is_sym(exp) else 64)


class Outcome:
    pass


def execute(case, mods, fpmode, conc=None, setup=None):
    """symbolic (or concrete) execution; -> Outcome with violation disjuncts"""
    E = Exec(mods, fpmode)
    if setup:
        setup(E)
    st = State({}, ())
    vals, iv = [], {}
    for n, a in case.args.items():
        v, x = a.make(E, st, None if conc is None else conc.get(n))
        vals += v
        iv[n] = x
    c = Ctx(iv, E.fp, conc is not None)
    c.E = E
    o = Outcome()
    o.E = E
    pre = []
    if case.pre is not None:
        p = case.pre(c)
        p = simp(p)
        if p is False:
            if conc is not None:
                o.pre_false = True
                o.viol = []
                return o
            raise Unsupported('precondition is false')
        if p is not True:
            st.pc = st.pc + (p,)
    o.pre = st.pc
    f = E.symtab.get('@' + case.name)
    if f is None:
        raise Unsupported('harness function missing: ' + case.name)
    res = E.call_fn(st, f, vals)
    o.res = res
    exp = case.spec(c)
    o.ctx = c
    viol = []           # (desc, condition)
    for pc, what in E.panics:
        ok = or_(c.panic, c.may_panic)
        viol.append(('unexpected panic: ' + what, and_(*(pc + (not_(ok),)))))
    for kind, pc, cond, desc in E.obls:
        viol.append(('undefined behaviour: ' + desc, and_(*(pc + (cond,)))))
    for pc, what in E.viols:
        viol.append((what, and_(*pc)))
    for s, _ in res:
        P = and_(*s.pc)
        if c.panic is not False:
            viol.append(('missing panic', and_(P, c.panic)))
        if exp is None:
            continue
        np = not_(c.panic)
        for n, e in exp.items():
            a = case.args.get(n)
            if a is None:
                continue
            act = a.final(E, s)
            if isinstance(a, Slice):
                L = iv[n].len
                for k, x in enumerate(e):
                    inb = icmp('ult', k, L, 64)
                    bad = not_(lane_pred(a.ty, undef_free(act[k], a.ty.w), x))
                    viol.append(('%s[%d] wrong' % (n, k), and_(P, np, inb, bad)))
            else:
                if len(e) != len(act):
                    raise Unsupported('spec lane count for %s: %d vs %d' % (n, len(e), len(act)))
                for k, x in enumerate(e):
                    bad = not_(lane_pred(a.ty, undef_free(act[k], a.ty.w), x))
                    if bad is False:
                        continue
                    viol.append(('%s[%d] wrong' % (n, k), and_(P, np, bad)))
        if '%ev' in (exp or {}):
            for desc, bad in exp['%ev'](s, c):
                viol.append((desc, and_(P, np, bad)))
    o.viol = viol
    o.pre = tuple(o.pre) + tuple(simp_ax(x) for x in E.fp.axioms)
    o.pre_false = False
    return o


def simp_ax(x):
    return bl(x)


def undef_free(x, w):
    return fresh(w) if x is UNDEF else x


class Result(dict):
    pass


def solve(conds, pre, tmo, stats, want=None):
    """is some cond satisfiable together with pre?  -> ('unsat',None) | ('sat',(idx,model)) | ('unknown',why)"""
    live = []
    for i, (d, c) in enumerate(conds):
        c = simp(c)
        if c is False:
            stats['simplified'] += 1
            continue
        live.append((i, c))
    t = time.time()
    s = z3.Solver()
    s.set('timeout', int((tmo if len(live) == 1 else min(tmo, 6)) * 1000))
    for p in pre:
        s.add(p)
    s.add(z3.Or(*[bl(c) for _, c in live]))
    r = s.check()
    stats['queries'] += 1
    dt = time.time() - t
    stats['solver_s'] += dt
    stats['max_query_s'] = max(stats['max_query_s'], dt)
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        m = s.model()
        for i, c in live:
            if c is True or z3.is_true(m.eval(c, model_completion=True)):
                return 'sat', (i, m)
        return 'unknown', 'model does not evaluate'
    # split
    t0 = time.time()
    for i, c in live:
        t = time.time()
        s = z3.SolverFor('QF_UFBV') if stats.get('fpmode') != 'fp' else z3.Solver()
        s.set('timeout', int(tmo * 1000))
        for p in pre:
            s.add(p)
        s.add(bl(c))
        r = s.check()
        stats['queries'] += 1
        dt = time.time() - t
        stats['solver_s'] += dt
        stats['max_query_s'] = max(stats['max_query_s'], dt)
        if r == z3.sat:
            return 'sat', (i, s.model())
        if r != z3.unsat:
            r2 = cvc5_check(pre, c, tmo, stats)
            if r2 != 'unsat':
                return 'unknown', 'solver gave up on: ' + conds[i][0]
    return 'unsat', None


def cvc5_check(pre, c, tmo, stats):
    s = z3.Solver()
    for p in pre:
        s.add(p)
    s.add(bl(c))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    t = time.time()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(tmo * 1000)], input=txt, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo + 10)
        out = p.stdout.strip()
    except subprocess.TimeoutExpired:
        out = 'timeout'
    stats['solver_s'] += time.time() - t
    stats['cvc5'] = stats.get('cvc5', 0) + 1
    if '(error' in out:
        return 'unknown'
    return out.split('\n')[0] if out else 'unknown'


def new_stats():
    return dict(queries=0, solver_s=0.0, max_query_s=0.0, simplified=0, steps=0, forks=0, merges=0, disjuncts=0,
                feas_queries=0)


def check_case(case, mods, tmo=60, setup=None, fp_tmo=None):
    """-> dict(status=ok|cex|unknown|error, ...)"""
    t0 = time.time()
    stats = new_stats()
    r = dict(case=case.name, cls=case.cls, status='error', stats=stats, funcs=[])
    funcs = set()
    try:
        mode = 'uf'
        while True:
            stats['fpmode'] = mode
            o = execute(case, mods, mode, None, setup)
            E = o.E
            funcs |= set(E.funcs_used)
            stats['steps'] += E.steps
            stats['forks'] += E.forks
            stats['merges'] += E.merges
            stats['feas_queries'] += E.nqueries
            stats['solver_s'] += E.solver_time
            stats['disjuncts'] += len(o.viol)
            # vacuity: some execution exists
            if not o.res and not E.panics and not E.obls:
                raise Unsupported('vacuous: no execution reaches an end')
            st, w = solve(o.viol, o.pre, (fp_tmo or tmo) if mode == 'fp' else tmo, stats)
            if mode == 'uf' or st != 'unsat':
                v, _ = solve([('reach', or_(*[and_(*s.pc) for s, _ in o.res] +
                                            [and_(*pc) for pc, _ in E.panics]))], o.pre, tmo, new_stats())
                if v == 'unsat' and st == 'unsat':
                    raise Unsupported('vacuous: end of execution unreachable')
            if st == 'unsat':
                r['status'] = 'ok'
                break
            if st == 'unknown':
                r['status'] = 'unknown'
                r['why'] = w
                break
            i, m = w
            conc = {}
            for n, a in case.args.items():
                conc[n] = a.extract(m, o.ctx.i[n])
            r['desc'] = o.viol[i][0]
            # confirm on the encoding with concrete inputs
            cc = confirm(case, mods, conc, setup)
            r['conc'] = conc
            r['confirm'] = cc
            if cc[0] == 'clean' and mode == 'uf' and E.fp.apps:
                for alt in alt_concs(case, conc):
                    ca = confirm(case, mods, alt, setup)
                    if ca[0] in ('definite', 'ub', 'poison', 'uninterpreted'):
                        r['conc'], r['confirm'], r['desc'] = alt, ca, ca[1]
                        break
                else:
                    fx = fpm.facts(E.fp.apps)
                    if fx:
                        st2, _ = solve(o.viol, tuple(o.pre) + tuple(fx), min(tmo, 20), stats)
                        if st2 == 'unsat':
                            del r['conc'], r['confirm'], r['desc']
                            r['status'] = 'ok'
                            break
                    mode = 'fp'
                    continue
            r['status'] = 'cex'
            break
    except Unsupported as e:
        r['why'] = 'unsupported: %s' % e
        if os.environ.get('VSYM_TB'):
            traceback.print_exc()
    except llir.IRError as e:
        r['why'] = 'IR: %s' % e
        if os.environ.get('VSYM_TB'):
            traceback.print_exc()
    except RecursionError as e:
        r['why'] = 'recursion limit'
    except (z3.Z3Exception, KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError) as e:
        r['why'] = 'internal: %s' % ''.join(traceback.format_exception(e))[-1500:]
    r['funcs'] = sorted(funcs)
    r['wall_s'] = time.time() - t0
    return r


FPOOL = {
    32: [0x3f800000, 0x40000000, 0x3f000000, 0xbf800000, 0x40400000, 0x3fc00000, 0x3dcccccd, 0x501502f9, 0x2edbe6ff,
         0x3f800001, 0x7f7fffff, 0x00800000, 0x00000001, 0x7f800000, 0xff800000, 0x7fc00000, 0x80000000, 0x00000000,
         0x47f12065, 0xc0e80000, 0x3eaaaaab, 0x4b800001, 0x3f490fdb],
    64: [0x3ff0000000000000, 0x4000000000000000, 0x3fe0000000000000, 0xbff0000000000000, 0x4008000000000000,
         0x3ff8000000000000, 0x3fb999999999999a, 0x4202a05f20000000, 0x3ddb7cdfd9d7bdbb, 0x3ff0000000000001,
         0x7fefffffffffffff, 0x0010000000000000, 0x0000000000000001, 0x7ff0000000000000, 0xfff0000000000000,
         0x7ff8000000000000, 0x8000000000000000, 0x0000000000000000, 0x40fe240c9fbe76c9, 0xc01d000000000000,
         0x3fd5555555555555, 0x4170000010000001, 0x3fe921fb54442d18]}


def ipool(w):
    return [0, 1, 2, 3, 7, mask(w), 1 << (w - 1), mask(w - 1), mask(w) - 1] + \
        ([(1 << 24) + 1, (1 << 25) + 3] if w >= 32 else []) + ([(1 << 53) + 1, (1 << 54) + 3] if w >= 64 else [])


def alt_concs(case, conc, count=70):
    """other concrete inputs, used only to look for a witness once the solver has refuted the assertion over
    uninterpreted rounding operations"""
    for j in range(count):
        out = {}
        for ai, (n, a) in enumerate(case.args.items()):
            c = conc.get(n)
            ty = getattr(a, 'ty', None)
            if c is None or ty is None or ty.kind not in 'iuf' or not isinstance(c, (list, tuple)):
                out[n] = c
                continue
            pool = FPOOL[ty.w] if ty.kind == 'f' else ipool(ty.w)
            # first uniform vectors, then mixed ones
            f = (lambda k: pool[(j + 7 * ai) % len(pool)]) if j < len(pool) else \
                (lambda k: pool[(j * (ai + 1) + k * (2 * ai + 1) + 3 * ai) % len(pool)])
            if j >= 46:     # full mantissas of similar magnitude: shows a changed order of operations
                rnd = random.Random('%d/%d' % (j, ai))
                F = fpm.C.get(ty.w)
                f = (lambda k: rnd.getrandbits(ty.w)) if ty.kind != 'f' else (
                    lambda k: rnd.getrandbits(1) * F['sign'] | (F['bias'] + rnd.randrange(-3, 4)) << F['mb'] | rnd.getrandbits(F['mb']))
            if isinstance(a, Slice):
                out[n] = (c[0], c[1], [f(k) for k in range(len(c[2]))])
            else:
                out[n] = [f(k) for k in range(len(c))]
        yield out


def confirm(case, mods, conc, setup):
    """re-execute on concrete inputs: ('definite'|'poison'|'clean'|'uninterpreted'|'error', desc)"""
    try:
        o = execute(case, mods, 'uf', conc, setup)
        if o.pre_false:
            return ('clean', 'precondition false')
        poison = None
        for d, c in o.viol:
            c = simp(c)
            if c is True:
                return ('ub' if d.startswith('undefined') else 'definite', d)
            if c is False:
                continue
            s = z3.Solver()
            s.set('timeout', 20000)
            s.add(c)
            for p in o.pre:
                s.add(p)
            if s.check() == z3.sat:
                poison = d
        if poison:
            return ('uninterpreted' if o.E.fp.apps else 'poison', poison)
        return ('clean', '')
    except (Unsupported, llir.IRError) as e:
        return ('error', str(e))


# ------------------------------------------------------------------ native replay
def replay_native(case, conc, cfg, workdir, extra_src='', externs=(), profiles=('dev', 'release'), alts=None):
    """Run the real code on the concrete inputs.  -> (reproduced, report)"""
    report = []
    hit = False
    if case.native:
        case, conc = case.native(conc)
    src = build.PRELUDE + extra_src + case.rust()
    refname = None
    if case.ref:
        refname = case.name + '__ref'
        src += '\n' + case.rust(refname, case.ref)
    args = []
    for n, a in case.args.items():
        if isinstance(a, Slice) and a.too_big(conc[n]):
            return None, ['slice too long to replay natively (len=%d)' % conc[n][0]]
        args += a.replay(conc[n])
    for prof in profiles:
        so = build.build_native(cfg, 'r', src, prof, externs)
        if alts:
            for alt in alts:
                args = []
                for n, a in case.args.items():
                    args += a.replay(alt[n])
                obs = run_native(so, case.name, args)
                ref = run_native(so, refname, args) if refname else None
                bad, why = judge(case, alt, obs, ref)
                if bad:
                    report.append(dict(profile=prof, config=cfg, inputs=repr(alt), observed=obs, reference=ref,
                                       violates=bad, why=why))
                    return True, report
            continue
        obs = run_native(so, case.name, args)
        ref = run_native(so, refname, args) if refname else None
        bad, why = judge(case, conc, obs, ref)
        report.append(dict(profile=prof, config=cfg, observed=obs, reference=ref, violates=bad, why=why))
        hit = hit or bad
    return hit, report


def run_native(so, fn, args):
    job = json.dumps(dict(so=so, fn=fn, args=args))
    p = subprocess.run([sys.executable, os.path.join(HERE, 'native.py')], input=job, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if p.returncode == 0:
        return dict(outcome='return', outs=json.loads(p.stdout.strip().split('\n')[-1]))
    if p.returncode == -signal.SIGABRT:
        return dict(outcome='panic', stderr=p.stderr[-400:])
    if p.returncode < 0:
        return dict(outcome='crash', signal=-p.returncode)
    return dict(outcome='error', stderr=p.stderr[-800:])


def judge(case, conc, obs, ref=None):
    """does the observation violate the specification?"""
    fp = fpm.FP('fp')
    iv = {}
    for n, a in case.args.items():
        x = conc[n]
        iv[n] = SliceView(x[0], x[1], x[2]) if isinstance(a, Slice) else x
    c = Ctx(iv, fp, True)
    c.E = None
    if case.pre is not None and simp(case.pre(c)) is False:
        return False, 'outside the precondition'
    exp = case.spec(c)
    panic = simp(c.panic)
    may = simp(c.may_panic)
    o = obs['outcome']
    if o == 'error':
        return False, 'replay error: ' + obs.get('stderr', '')
    if o == 'panic':
        if panic is True or may is True:
            return False, 'panics as specified'
        return True, 'unexpected panic'
    if o == 'crash':
        return True, 'crashed with signal %d' % obs['signal']
    if panic is True:
        return True, 'did not panic'
    if obs['outs'].get('%guard'):
        return True, 'wrote outside the buffer: ' + obs['outs']['%guard']
    for n, e in exp.items():
        a = case.args.get(n)
        if a is None:
            continue
        act = a.final_native(bytes.fromhex(obs['outs'][n]))
        rf = a.final_native(bytes.fromhex(ref['outs'][n])) if ref and ref['outcome'] == 'return' else None
        for k in range(min(len(act), len(e))):
            ok = simp(lane_pred(a.ty, act[k], e[k]))
            if ok is True:
                continue
            if ok is False and rf is None:
                return True, '%s[%d] = %#x' % (n, k, act[k])
            if rf is not None:
                if a.ty.kind == 'f' and simp(fpm.same_mod_nan(act[k], rf[k], a.ty.w)) is True:
                    continue
                if act[k] == rf[k]:
                    continue
                return True, '%s[%d] = %#x, reference %#x' % (n, k, act[k], rf[k])
            # undecided (unspecified bits): satisfiable?
            s = z3.Solver()
            s.add(bl(ok))
            if s.check() == z3.unsat:
                return True, '%s[%d] = %#x' % (n, k, act[k])
    return False, 'matches the specification'


# ------------------------------------------------------------------ encoder cross-validation
def random_conc(case, rnd):
    """concrete inputs: boundary values and random bits; None when an argument kind has no generator"""
    def lane(ty):
        if ty.kind in 'mb':
            return rnd.random() < 0.5
        q = rnd.random()
        if q < 0.5:
            return rnd.choice(FPOOL[ty.w] if ty.kind == 'f' else ipool(ty.w))
        if q < 0.7 and ty.kind != 'f':
            return rnd.randrange(0, 70) & mask(ty.w)
        return rnd.getrandbits(ty.w)
    out = {}
    for n, a in case.args.items():
        k = type(a)
        if k in (In, Buf):
            cnt = a.ty.n * a.cnt
            if rnd.random() < 0.2:
                v = lane(a.ty)
                out[n] = [v] * cnt
            else:
                out[n] = [lane(a.ty) for _ in range(cnt)]
        elif k is Out:
            out[n] = None
        elif k is Val:
            out[n] = rnd.choice([rnd.randrange(0, 70), rnd.getrandbits(a.w)]) & mask(a.w)
        elif k is Slice:
            L = rnd.randrange(0, a.limit + 1)
            al = min(a.ty.w // 8, 8)
            B = (1 << 45) + rnd.choice([0, 0, 64, rnd.randrange(0, 64 // al) * al])
            out[n] = (L, B, [lane(a.ty) for _ in range(a.limit)])
        else:
            return None
    return out


def crosscheck(case, mods, so, rnd, tries, setup=None):
    """run the executor and the native build on the same concrete inputs -> (compared runs, compared lanes, mismatches)"""
    runs = lanes = 0
    bad = []
    for _ in range(tries * 4):
        if runs >= tries:
            break
        conc = random_conc(case, rnd)
        if conc is None:
            break
        try:
            o = execute(case, mods, 'uf', conc, setup)
        except (Unsupported, PathDead):
            continue
        if o.pre_false or any(simp(and_(*(pc + (c,)))) is not False for _, pc, c, _ in o.E.obls):
            continue
        pan = [1 for pc, _ in o.E.panics if simp(and_(*pc)) is True]
        if not pan and len(o.res) != 1:
            continue
        args = []
        for n, a in case.args.items():
            args += a.replay(conc[n])
        obs = run_native(so, case.name, args)
        runs += 1
        if (obs['outcome'] == 'panic') != bool(pan) or obs['outcome'] in ('crash', 'error'):
            bad.append((case.name, repr(conc), 'outcome %s vs panic=%s %s' % (obs['outcome'], bool(pan), obs)))
            continue
        if pan:
            continue
        st = o.res[0][0]
        for n, a in case.args.items():
            if not a.is_out:
                continue
            act = a.final_native(bytes.fromhex(obs['outs'][n]))
            enc = a.final(o.E, st)
            for k in range(min(len(act), len(enc))):
                e = simp(enc[k]) if enc[k] is not UNDEF else UNDEF
                if type(e) not in (int, bool):
                    continue
                lanes += 1
                if int(e) != act[k] and not (a.ty.kind == 'f' and isnan_(e, act[k], a.ty.w)):
                    bad.append((case.name, repr(conc), '%s[%d]: executor %#x native %#x' % (n, k, int(e), act[k])))
    return runs, lanes, bad


def isnan_(a, b, w):
    return fpm.isnan(a, w) and fpm.isnan(b, w)
