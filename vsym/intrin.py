"""LLVM intrinsics and external functions."""
import re
import z3
from .vals import *
from . import fpm
from .ex import Unsupported, width, ovf, Ptr, PathDead
from .llir import size_of

VT = re.compile(r'\.(v\d+)?([ifp]\d+)')

FPFN = {'sin', 'cos', 'exp', 'exp2', 'exp10', 'log', 'log2', 'log10', 'pow'}


def lanes(t, f, *vs):
    if t[0] == 'vec':
        return tuple(f(t[2], *xs) for xs in zip(*vs))
    return f(t, *vs)


def call(ex, st, nm, rt, tys, v):
    r = _call(ex, st, nm, rt, tys, v)
    if r is DEAD:
        return []
    return [(st, r)]


DEAD = object()


def _call(ex, st, nm, rt, tys, v):
    base = nm[5:]
    n0 = base.split('.')[0]
    t0 = tys[0] if tys else None
    if n0 in ('dbg', 'lifetime', 'invariant', 'expect', 'assume', 'donothing', 'sideeffect', 'prefetch'):
        if n0 == 'expect':
            return v[0]
        if n0 == 'assume':
            c = v[0]
            ex.oblige(st, 'ub', True if c is UNDEF else not_(c), 'llvm.assume violated')
        return None
    if n0 == 'experimental' and base.startswith('experimental.noalias'):
        return None
    if n0 in ('trap', 'debugtrap'):
        ex.panics.append((st.pc, 'llvm.trap'))
        return DEAD
    if n0 in ('memcpy', 'memmove'):
        ex.memcpy(st, v[0], v[1], v[2], n0 == 'memmove')
        return None
    if n0 == 'memset':
        n = simp(v[2])
        if type(n) is not int:
            raise Unsupported('memset of symbolic length')
        if n:
            for c, oid, off in ex.resolve(st, v[0], n, 'write', True, 1):
                if type(off) is not int or c is not True:
                    raise Unsupported('memset at symbolic offset')
                o = ex.wobj(st, oid)
                if o is None:
                    raise PathDead()
                ex._clear(o, off, n)
                for k in range(n):
                    ex._put(o, off + k, v[1], 1)
        return None
    if n0 == 'ctpop':
        return lanes(t0, lambda t, x: ctpop(x, t[1]), v[0])
    if n0 in ('ctlz', 'cttz'):
        zp = v[1]

        def g(t, x):
            w = t[1]
            r = (ctlz if n0 == 'ctlz' else cttz)(x, w)
            if zp is True and x is not UNDEF:
                z = eq(x, 0, w)
                if z is True:
                    return UNDEF
                if z is not False:
                    r = ite(z, fresh(w, 'poison'), r, w)
            return r
        return lanes(t0, g, v[0])
    if n0 == 'bswap':
        return lanes(t0, lambda t, x: bswap(x, t[1]), v[0])
    if n0 == 'bitreverse':
        return lanes(t0, lambda t, x: bitreverse(x, t[1]), v[0])
    if n0 in ('fshl', 'fshr'):
        def g(t, a, b, n):
            w = t[1]
            if UNDEF in (a, b, n) if False else (a is UNDEF or b is UNDEF or n is UNDEF):
                return UNDEF
            if same(a, b):
                return rotl(a, n, w) if n0 == 'fshl' else rotr(a, n, w)
            A, B, N = bv(a, w), bv(b, w), bv(n, w)
            k = N & (w - 1)
            cat = z3.Concat(A, B)
            K = z3.ZeroExt(w, k)
            if n0 == 'fshl':
                return simp(z3.Extract(2 * w - 1, w, cat << K))
            return simp(z3.Extract(w - 1, 0, z3.LShR(cat, K)))
        return lanes(t0, g, v[0], v[1], v[2])
    if n0 in ('smax', 'smin', 'umax', 'umin'):
        def g(t, a, b):
            if a is UNDEF or b is UNDEF:
                return UNDEF
            return minmax(n0, a, b, t[1])
        return lanes(t0, g, v[0], v[1])
    if n0 == 'abs':
        def g(t, a):
            w = t[1]
            if a is UNDEF:
                return UNDEF
            r = ite(icmp('slt', a, 0, w), arith('sub', 0, a, w), a, w)
            if v[1] is True:
                r = ite(eq(a, 1 << (w - 1), w), fresh(w, 'poison'), r, w)
            return r
        return lanes(t0, g, v[0])
    m = re.match(r'([us])(add|sub|mul)\.with\.overflow', base)
    if m:
        def g(t, a, b):
            if a is UNDEF or b is UNDEF:
                return (UNDEF, UNDEF)
            return (arith(m.group(2), a, b, t[1]), ovf(m.group(1) + m.group(2), a, b, t[1]))
        if t0[0] == 'vec':
            rs = [g(t0[2], a, b) for a, b in zip(v[0], v[1])]
            return (tuple(r[0] for r in rs), tuple(r[1] for r in rs))
        return g(t0, v[0], v[1])
    m = re.match(r'([us])(add|sub)\.sat', base)
    if m:
        def g(t, a, b):
            w = t[1]
            if a is UNDEF or b is UNDEF:
                return UNDEF
            s, k = m.groups()
            r = arith(k, a, b, w)
            o = ovf(s + k, a, b, w)
            if s == 'u':
                return ite(o, mask(w) if k == 'add' else 0, r, w)
            return ite(o, ite(icmp('slt', a, 0, w), 1 << (w - 1), mask(w - 1), w), r, w)
        return lanes(t0, g, v[0], v[1])
    m = re.match(r'fpto([us])i\.sat', base)
    if m:
        s = m.group(1) == 's'
        re_ = rt[2] if rt[0] == 'vec' else rt

        def g(t, a):
            return fptoi_sat(ex.fp, s, a, t[1], re_[1])
        return lanes(t0, g, v[0])
    if n0 == 'fabs':
        return lanes(t0, lambda t, x: UNDEF if x is UNDEF else fpm.fabs(x, t[1]), v[0])
    if n0 == 'copysign':
        return lanes(t0, lambda t, x, y: UNDEF if (x is UNDEF or y is UNDEF) else fpm.copysign(x, y, t[1]), v[0], v[1])
    if n0 == 'sqrt':
        return lanes(t0, lambda t, x: ex.fp.sqrt(x, t[1]), v[0])
    if n0 in ('fma',):
        return lanes(t0, lambda t, a, b, c: ex.fp.fma(a, b, c, t[1]), v[0], v[1], v[2])
    if n0 == 'fmuladd':
        def g(t, a, b, c):
            f1 = ex.fp.fma(a, b, c, t[1])
            f2 = ex.fp.op2('fadd', ex.fp.op2('fmul', a, b, t[1]), c, t[1])
            return ite(fresh(1, 'fused'), f1, f2, t[1])
        return lanes(t0, g, v[0], v[1], v[2])
    if n0 in ('minnum', 'maxnum'):
        return lanes(t0, lambda t, a, b: ex.fp.min_max(n0[:3], a, b, t[1]), v[0], v[1])
    if n0 in ('floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round', 'roundeven'):
        return lanes(t0, lambda t, x: ex.fp.round_to_int(n0, x, t[1]), v[0])
    if n0 in FPFN:
        return lanes(t0, lambda t, *xs: ex.fp.fn(n0, xs, t[1]), *v[:len(tys)])
    if n0 == 'powi':
        return lanes(t0, lambda t, x: ex.fp.uf('powi%d' % t[1], [x, v[1]], [t[1], 32], t[1]), v[0])
    if base.startswith('vector.reduce.') or base.startswith('experimental.vector.reduce.'):
        return vreduce(ex, base.split('reduce.')[1].split('.')[0], tys, v)
    if base.startswith('masked.'):
        return masked(ex, st, base, rt, tys, v)
    if base == 'stacksave' or base.startswith('stacksave'):
        return 0
    if base.startswith('stackrestore'):
        return None
    if n0 == 'ptrmask':
        raise Unsupported(nm)
    if n0 == 'is' and base.startswith('is.fpclass'):
        return lanes(t0, lambda t, x: fpclass(x, t[1], v[1]), v[0])
    if base.startswith('objectsize'):
        return mask(rt[1])
    if base.startswith('x86.'):
        return x86(ex, base[4:], rt, tys, v)
    raise Unsupported('intrinsic ' + nm)


def fpclass(x, w, m):
    neg = fpm.signbit(x, w)
    nan = fpm.isnan(x, w)
    inf = fpm.isinf(x, w)
    zero = fpm.iszero(x, w)
    c = fpm.C[w]
    ab = fpm.fabs(x, w)
    sub = and_(not_(zero), icmp('ule', ab, c['mant'], w))
    norm = and_(icmp('ugt', ab, c['mant'], w), icmp('ult', ab, c['inf'], w))
    q = icmp('uge', ab, c['qnan'], w)
    cls = [and_(nan, not_(q)), and_(nan, q), and_(neg, inf), and_(neg, norm), and_(neg, sub), and_(neg, zero),
           and_(not_(neg), zero), and_(not_(neg), sub), and_(not_(neg), norm), and_(not_(neg), inf)]
    return or_(*[k for i, k in enumerate(cls) if (m >> i) & 1])


def fptoi_sat(fp, s, a, fw, iw):
    if a is UNDEF:
        return UNDEF
    nan = fpm.isnan(a, fw)
    inr = fp.f2i_inrange(s, a, fw, iw)
    neg = fpm.signbit(a, fw)
    lo, hi = (1 << (iw - 1), mask(iw - 1)) if s else (0, mask(iw))
    inr = simp(inr)
    r = fp.f2i_raw(s, a, fw, iw) if inr is not False else 0
    return ite(simp(nan), 0, ite(inr, r, ite(simp(neg), lo, hi, iw), iw), iw)


def vreduce(ex, k, tys, v):
    fp = ex.fp
    if k in ('fadd', 'fmul'):
        w = tys[0][1]
        acc = v[0]
        for x in v[1]:
            acc = fp.op2(k, acc, x, w)
        return acc
    t = tys[0][2]
    w = t[1]
    xs = v[0]
    acc = xs[0]
    for x in xs[1:]:
        if k in ('add', 'mul', 'and', 'or', 'xor'):
            acc = arith(k, acc, x, w)
        elif k in ('fmin', 'fmax'):
            acc = fp.min_max(k[1:], acc, x, w)
        elif k in ('smin', 'smax', 'umin', 'umax'):
            if acc is UNDEF or x is UNDEF:
                acc = UNDEF
            else:
                acc = minmax(k, acc, x, w)
        else:
            raise Unsupported('reduce ' + k)
    return acc


def masked(ex, st, base, rt, tys, v):
    op = base.split('.')[1]
    if op in ('gather', 'scatter'):
        if op == 'gather':
            ptrs, al, mk, pas = v
            et = rt[2]
            out = []
            for p, m, d in zip(ptrs, mk, pas):
                out.append(mload(ex, st, p, m, d, et, al))
            return tuple(out)
        vals, ptrs, al, mk = v
        et = tys[0][2]
        for x, p, m in zip(vals, ptrs, mk):
            mstore(ex, st, p, m, x, et, al)
        return None
    if op == 'load':
        p, al, mk, pas = v
        et = rt[2]
        s = size_of(et)
        return tuple(mload(ex, st, ex.padd(p, i * s), m, d, et, 1) for i, (m, d) in enumerate(zip(mk, pas)))
    if op == 'store':
        vals, p, al, mk = v
        et = tys[0][2]
        s = size_of(et)
        for i, (x, m) in enumerate(zip(vals, mk)):
            mstore(ex, st, ex.padd(p, i * s), m, x, et, 1)
        return None
    raise Unsupported(base)


def guarded(ex, st, m, fn):
    """run fn(sub-state) under assumption m, folding new obligations under m"""
    pc = st.pc
    st.pc = pc + (m,)
    try:
        return fn()
    finally:
        st.pc = pc


def mload(ex, st, p, m, d, et, al):
    m = simp(m)
    if m is False:
        return d
    if m is UNDEF:
        ex.oblige(st, 'ub', True, 'masked access with undefined mask')
    if m is True:
        return ex.load(st, p, et, al)
    if not ex.feasible(st.pc, m):
        return d
    try:
        x = guarded(ex, st, m, lambda: ex.load(st, p, et, al))
    except PathDead:
        return d
    return ex.merge_scalar(m, x, d, width(et))


def mstore(ex, st, p, m, x, et, al):
    m = simp(m)
    if m is False:
        return
    if m is UNDEF:
        ex.oblige(st, 'ub', True, 'masked access with undefined mask')
    if m is True:
        ex.store(st, p, et, x, al)
        return
    if not ex.feasible(st.pc, m):
        return
    try:
        guarded(ex, st, m, lambda: ex.store(st, p, et, x, al, guard=m))
    except PathDead:
        pass


def bits_of(v, w):
    return sum(v)


def x86(ex, n, rt, tys, v):
    if re.match(r'(sse2?|avx2?|avx512)\.(movmsk|pmovmskb)', n) or '.movmsk' in n or 'pmovmskb' in n:
        t = tys[0][2]
        w = t[1]
        bs = []
        for x in v[0]:
            if x is UNDEF:
                x = fresh(w)
            b = simp(icmp('uge', x, 1 << (w - 1), w))
            bs.append(b)
        return zext_pack(ex, bs, rt[1])
    m = re.match(r'(?:sse41|avx)\.ptest(z|c|nzc)(?:\.256)?', n)
    if m:
        z = [simp_and(a, b) for a, b in zip(v[0], v[1])]
        c = [simp_and(arith('xor', a, mask(64), 64), b) for a, b in zip(v[0], v[1])]
        zf = and_(*[eq(x, 0, 64) for x in z])
        cf = and_(*[eq(x, 0, 64) for x in c])
        r = zf if m.group(1) == 'z' else cf if m.group(1) == 'c' else and_(not_(zf), not_(cf))
        return ite(simp(r), 1, 0, 32)
    m = re.match(r'avx\.vtest(z|c|nzc)\.(ps|pd)(?:\.256)?', n)
    if m:
        w = tys[0][2][1]
        sb = 1 << (w - 1)
        za, ca = [], []
        for a, b in zip(v[0], v[1]):
            sa, sb_ = icmp('uge', a, sb, w), icmp('uge', b, sb, w)
            za.append(not_(and_(sa, sb_)))
            ca.append(not_(and_(not_(sa), sb_)))
        zf, cf = and_(*za), and_(*ca)
        r = zf if m.group(1) == 'z' else cf if m.group(1) == 'c' else and_(not_(zf), not_(cf))
        return ite(simp(r), 1, 0, 32)
    if n in ('ssse3.pshuf.b.128', 'avx2.pshuf.b'):
        out = []
        src, idx = v
        for i, ix in enumerate(idx):
            lane = (i // 16) * 16
            out.append(pick(src[lane:lane + 16], ix, 8, 4, zero_bit=7))
        return tuple(out)
    if n in ('avx.vpermilvar.ps', 'avx.vpermilvar.ps.256'):
        src, idx = v
        return tuple(pick(src[(i // 4) * 4:(i // 4) * 4 + 4], ix, 32, 2) for i, ix in enumerate(idx))
    if n in ('avx.vpermilvar.pd', 'avx.vpermilvar.pd.256'):
        src, idx = v
        out = []
        for i, ix in enumerate(idx):
            l = (i // 2) * 2
            if ix is UNDEF:
                out.append(UNDEF)
                continue
            b = bool((ix >> 1) & 1) if type(ix) is int else simp(z3.Extract(1, 1, ix) == 1)
            out.append(ex.merge_scalar(b, src[l + 1], src[l], 64) if type(b) is not bool else src[l + int(b)])
        return tuple(out)
    if n in ('avx2.permd', 'avx2.permps'):
        src, idx = v
        return tuple(pick(src, ix, 32, 3) for ix in idx)
    m = re.match(r'sse\.(rcp|rsqrt|sqrt)\.ps$|avx\.(rcp|rsqrt|sqrt)\.ps\.256$', n)
    if m:
        k = m.group(1) or m.group(2)
        return tuple(ex.fp.fn('x86' + k, [x], 32) for x in v[0])
    m = re.match(r'(?:sse2|sse3|sse41|sse42|sse|avx2|avx|ssse3)\.(.*)', n)
    if m:
        r = x86_more(ex, m.group(1), rt, tys, [tuple(fresh(t[2][1]) if x is UNDEF else x for x in a) if t[0] == 'vec' else a
                                               for t, a in zip(tys, v)])
        if r is not None:
            return r
    raise Unsupported('intrinsic x86.' + n)


def sat(x, w, to, signed):
    """signed w-bit x saturated to `to` bits, signed or unsigned"""
    lo, hi = (-(1 << (to - 1)) & mask(w), mask(to - 1)) if signed else (0, mask(to))
    return trunc(ite(icmp('slt', x, lo, w), lo, ite(icmp('sgt', x, hi, w), hi, x, w), w), w, to)


def half_lanes(a, b, per, f):
    """apply f to each 128-bit block of a and b"""
    out = ()
    for k in range(0, len(a), per):
        out += tuple(f(a[k:k + per], b[k:k + per]))
    return out


FPRED = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord', 'ueq', 'ult', 'ule', 'false', 'one', 'oge', 'ogt', 'true']


def x86_more(ex, n, rt, tys, v):
    """further SSE/AVX intrinsics core::arch lowers to"""
    t0 = tys[0]
    m = re.match(r'(packss|packus)(wb|dw)(\.128)?$|(packuswb|packusdw|packsswb|packssdw)(\.128)?$', n)
    if m:
        w = t0[2][1]
        sg = n.startswith('packss')
        return half_lanes(v[0], v[1], 128 // w, lambda a, b: [sat(x, w, w // 2, sg) for x in a + b])
    m = re.match(r'(min|max)\.(ps|pd)(\.256)?$', n)
    if m:
        w = t0[2][1]
        p = 'olt' if m.group(1) == 'min' else 'ogt'
        return tuple(ite(fpm.fcmp(p, a, b, w), a, b, w) for a, b in zip(v[0], v[1]))
    m = re.match(r'cmp\.(ps|pd)(\.256)?$', n)
    if m and type(v[2]) is int:
        w = t0[2][1]
        k = FPRED[v[2] & 15]
        cs = [k == 'true' if k in ('true', 'false') else fpm.fcmp(k, a, b, w) for a, b in zip(v[0], v[1])]
        return tuple(ite(c, mask(w), 0, w) for c in cs)
    m = re.match(r'(pblendvb|blendvps|blendvpd|blendv\.p[sd]\.256)$', n)
    if m:
        w = t0[2][1]
        return tuple(ite(icmp('uge', c, 1 << (w - 1), w), b, a, w) for a, b, c in zip(*v[:3]))
    if re.match(r'psad\.bw$', n):
        out = []
        for k in range(0, len(v[0]), 8):
            s = 0
            for a, b in zip(v[0][k:k + 8], v[1][k:k + 8]):
                d = ite(icmp('ult', a, b, 8), arith('sub', b, a, 8), arith('sub', a, b, 8), 8)
                s = arith('add', s, zext(d, 8, 64), 64)
            out.append(s)
        return tuple(out)
    if re.match(r'pmadd\.wd$', n):
        p = [arith('mul', sext(a, 16, 32), sext(b, 16, 32), 32) for a, b in zip(v[0], v[1])]
        return tuple(arith('add', p[k], p[k + 1], 32) for k in range(0, len(p), 2))
    m = re.match(r'psign\.([bwd])(\.128)?$', n)
    if m:
        w = t0[2][1]
        return tuple(ite(icmp('slt', b, 0, w), arith('sub', 0, a, w), ite(eq(b, 0, w), 0, a, w), w)
                     for a, b in zip(v[0], v[1]))
    m = re.match(r'ph(add|sub)\.([wd])(\.128)?$', n)
    if m:
        w = t0[2][1]
        f = lambda x: [arith(m.group(1), x[k], x[k + 1], w) for k in range(0, len(x), 2)]
        return half_lanes(v[0], v[1], 128 // w, lambda a, b: f(a) + f(b))
    m = re.match(r'(hadd|hsub)\.(ps|pd)(\.256)?$', n)
    if m:
        w = t0[2][1]
        f = lambda x: [ex.fp.op2('f' + m.group(1)[1:], x[k], x[k + 1], w) for k in range(0, len(x), 2)]
        return half_lanes(v[0], v[1], 128 // w, lambda a, b: f(a) + f(b))
    m = re.match(r'p(sll|srl|sra)(i?)\.([wdq])$', n)
    if m:
        w = t0[2][1]
        c = v[1]
        if m.group(2):
            c = zext(c, 32, 64)
        else:
            bw = tys[1][2][1]
            c = concat_lanes(v[1], bw, 64)
        op = {'sll': 'shl', 'srl': 'lshr', 'sra': 'ashr'}[m.group(1)]
        big = icmp('uge', c, w, 64)
        amt = trunc(c, 64, w) if w < 64 else c
        if op == 'ashr':
            amt = ite(big, w - 1, amt, w)
            return tuple(shift_raw('ashr', a, amt, w) for a in v[0])
        return tuple(ite(big, 0, shift_raw(op, a, ite(big, 0, amt, w), w), w) for a in v[0])
    m = re.match(r'p(sll|srl|sra)v\.([dq])(\.256)?$', n)
    if m:
        w = t0[2][1]
        op = {'sll': 'shl', 'srl': 'lshr', 'sra': 'ashr'}[m.group(1)]
        out = []
        for a, c in zip(v[0], v[1]):
            big = icmp('uge', c, w, w)
            if op == 'ashr':
                out.append(shift_raw('ashr', a, ite(big, w - 1, c, w), w))
            else:
                out.append(ite(big, 0, shift_raw(op, a, ite(big, 0, c, w), w), w))
        return tuple(out)
    if re.match(r'pavg\.[bw]$', n):
        w = t0[2][1]
        return tuple(trunc(shift_raw('lshr', arith('add', arith('add', zext(a, w, w + 8), zext(b, w, w + 8), w + 8), 1, w + 8),
                                     1, w + 8), w + 8, w) for a, b in zip(v[0], v[1]))
    if n == 'phminposuw':
        best, pos = v[0][0], 0
        for k in range(1, 8):
            c = icmp('ult', v[0][k], best, 16)
            best, pos = ite(c, v[0][k], best, 16), ite(c, k, pos, 16)
        return (best, pos) + (0,) * 6
    m = re.match(r'pmulh(u?)\.w$', n)
    if m:
        e = zext if m.group(1) else sext
        return tuple(trunc(shift_raw('lshr', arith('mul', e(a, 16, 32), e(b, 16, 32), 32), 16, 32), 32, 16)
                     for a, b in zip(v[0], v[1]))
    m = re.match(r'round\.(ps|pd)(\.256)?$', n)
    if m and type(v[1]) is int:
        k = {0: 'roundeven', 1: 'floor', 2: 'ceil', 3: 'trunc'}.get(v[1] & 7)
        if v[1] & 4:
            k = 'rint'
        return tuple(ex.fp.round_to_int(k, x, t0[2][1]) for x in v[0])
    return None


def concat_lanes(xs, w, tw):
    """the low tw bits of a vector"""
    r = 0
    for k in range(tw // w):
        r = arith('or', r, shift_raw('shl', zext(xs[k], w, tw), k * w, tw), tw) if w < tw else xs[k]
    return r


def simp_and(a, b):
    if a is UNDEF:
        a = fresh(64)
    if b is UNDEF:
        b = fresh(64)
    return arith('and', a, b, 64)


def zext_pack(ex, bs, w):
    return ex.pack_bits(bs, w)


def pick(src, ix, w, bits, zero_bit=None):
    """src[ix & (2^bits-1)], zero if bit zero_bit of ix is set"""
    iw = w
    if ix is UNDEF:
        return UNDEF
    if type(ix) is int:
        if zero_bit is not None and (ix >> zero_bit) & 1:
            return 0
        return src[ix & ((1 << bits) - 1)]
    iw = ix.size()
    sel = simp(z3.Extract(bits - 1, 0, ix))
    if type(sel) is int:
        r = src[sel]
    else:
        r = src[0]
        for k in range(1, len(src)):
            r = ite(sel == k, src[k], r, w)
    if zero_bit is not None:
        r = ite(simp(z3.Extract(zero_bit, zero_bit, ix) == 1), 0, r, w)
    return r


LIBM = {'tanhf': ('tanh', 32), 'tanh': ('tanh', 64), 'sinf': ('sin', 32), 'sin': ('sin', 64), 'cosf': ('cos', 32),
        'cos': ('cos', 64), 'expf': ('exp', 32), 'exp': ('exp', 64), 'logf': ('log', 32), 'log': ('log', 64),
        'powf': ('pow', 32), 'pow': ('pow', 64)}


LIBMNAME = {'tanhf': ('tanh', 32), 'tanh': ('tanh', 64), 'sinf': ('sin', 32), 'sin': ('sin', 64), 'cosf': ('cos', 32),
            'cos': ('cos', 64), 'expf': ('exp', 32), 'exp': ('exp', 64), 'logf': ('log', 32), 'log': ('log', 64),
            'powf': ('pow', 32), 'pow': ('pow', 64), 'sqrtf': ('sqrt', 32), 'sqrt': ('sqrt', 64), 'fmaf': ('fma', 32),
            'fma': ('fma', 64), 'fabsf': ('fabs', 32), 'fabs': ('fabs', 64)}


def libm_stub(ex, st, nm, pretty, rt, tys, v):
    """the libm crate's functions stand for the mathematical ones (they are not part of this crate)"""
    k = pretty.split('::')[-1]
    if k not in LIBMNAME or not pretty.startswith('libm::math::'):
        return NotImplemented
    k, w = LIBMNAME[k]
    if k == 'sqrt':
        return [(st, ex.fp.sqrt(v[0], w))]
    if k == 'fma':
        return [(st, ex.fp.fma(v[0], v[1], v[2], w))]
    if k == 'fabs':
        return [(st, UNDEF if v[0] is UNDEF else fpm.fabs(v[0], w))]
    return [(st, ex.fp.fn(k, v, w))]


def extern(ex, st, nm, pretty, rt, tys, v):
    if nm in LIBM:
        k, w = LIBM[nm]
        return [(st, ex.fp.fn(k, v, w))]
    if nm in ('memcmp', 'bcmp'):
        return [(st, memcmp(ex, st, v, nm))]
    if nm in ('memcpy', 'memmove'):
        ex.memcpy(st, v[0], v[1], v[2], nm == 'memmove')
        return [(st, v[0])]
    if nm == 'abort':
        ex.panics.append((st.pc, 'abort'))
        return []
    return None


def memcmp(ex, st, v, nm):
    n = simp(v[2])
    if type(n) is not int:
        raise Unsupported('memcmp of symbolic length')
    r = 0
    for k in reversed(range(n)):
        a = ex.load(st, ex.padd(v[0], k), ('i', 8))
        b = ex.load(st, ex.padd(v[1], k), ('i', 8))
        r = ite(eq(a, b, 8), r, ite(icmp('ult', a, b, 8), mask(32), 1, 32), 32)
    return simp(r)
