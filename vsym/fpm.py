"""Floating point on raw bits.

Classification, sign manipulation, comparison and min/max are exact bit-vector
formulas.  Rounding operations are uninterpreted functions in mode 'uf' and z3's
IEEE theory in mode 'fp'.  Constants always fold with z3's IEEE evaluation.
"""
import z3
from .vals import *

FMT = {16: (5, 11), 32: (8, 24), 64: (11, 53)}


def consts(w):
    eb, sb = FMT[w]
    mb = sb - 1
    inf = ((1 << eb) - 1) << mb
    return dict(inf=inf, mant=(1 << mb) - 1, sign=1 << (w - 1), abs=(1 << (w - 1)) - 1, mb=mb,
                qnan=inf | (1 << (mb - 1)), bias=(1 << (eb - 1)) - 1)


C = {w: consts(w) for w in FMT}


def fabs(x, w):
    return arith('and', x, C[w]['abs'], w)


def fneg(x, w):
    return arith('xor', x, C[w]['sign'], w)


def isnan(x, w):
    return icmp('ugt', fabs(x, w), C[w]['inf'], w)


def isinf(x, w):
    return eq(fabs(x, w), C[w]['inf'], w)


def isfinite(x, w):
    return icmp('ult', fabs(x, w), C[w]['inf'], w)


def iszero(x, w):
    return eq(fabs(x, w), 0, w)


def signbit(x, w):
    return icmp('uge', x, C[w]['sign'], w)


def copysign(x, y, w):
    return arith('or', fabs(x, w), arith('and', y, C[w]['sign'], w), w)


def key(x, w):
    """monotone map of non-NaN bits (with -0 < +0) to unsigned"""
    return ite(signbit(x, w), arith('xor', x, mask(w), w), arith('or', x, C[w]['sign'], w), w)


def olt(a, b, w):
    return and_(not_(isnan(a, w)), not_(isnan(b, w)), lt_nn(a, b, w))


def lt_nn(a, b, w):
    """a<b for non-NaN"""
    return and_(not_(and_(iszero(a, w), iszero(b, w))), icmp('ult', key(a, w), key(b, w), w))


def eq_nn(a, b, w):
    return or_(eq(a, b, w), and_(iszero(a, w), iszero(b, w)))


def fcmp(pred, a, b, w):
    if pred == 'false':
        return False
    if pred == 'true':
        return True
    if a is UNDEF or b is UNDEF:
        return UNDEF
    un = or_(isnan(a, w), isnan(b, w))
    if pred == 'ord':
        return not_(un)
    if pred == 'uno':
        return un
    p = pred[1:]
    if p == 'eq':
        r = eq_nn(a, b, w)
    elif p == 'ne':
        r = not_(eq_nn(a, b, w))
    elif p == 'lt':
        r = lt_nn(a, b, w)
    elif p == 'gt':
        r = lt_nn(b, a, w)
    elif p == 'le':
        r = or_(lt_nn(a, b, w), eq_nn(a, b, w))
    else:
        r = or_(lt_nn(b, a, w), eq_nn(a, b, w))
    return or_(un, r) if pred[0] == 'u' else and_(not_(un), r)


def same_mod_nan(a, b, w):
    return or_(eq(a, b, w), and_(isnan(a, w), isnan(b, w)))


# -------------------------------------------------------------------- rounding ops
def sort(w):
    return z3.FPSort(*FMT[w])


def tofp(x, w):
    return z3.fpBVToFP(bv(x, w), sort(w))


def frombits(e):
    return z3.fpToIEEEBV(e)


RNE = z3.RNE()
RTZ = z3.RTZ()


def _fold(e, w):
    """evaluate a ground FP expression to bits"""
    e = z3.simplify(e)
    if z3.is_fp(e):
        s = e.sort()
        if z3.simplify(z3.fpIsNaN(e)).eq(z3.BoolVal(True)):
            return C[w]['qnan']
        r = z3.simplify(z3.fpToIEEEBV(e))
    else:
        r = e
    r = concrete(r)
    return r


class FP:
    def __init__(self, mode='uf'):
        self.mode = mode
        self.apps = []        # (op, w, args, result) for every uninterpreted application
        self._memo = {}
        self._mm = {}
        self.axioms = []      # facts about uninterpreted results

    def uf(self, name, args, ws, rw, comm=False):
        if any(a is UNDEF for a in args):
            return UNDEF
        zs = [bv(a, w) for a, w in zip(args, ws)]
        if comm and zs[0].get_id() > zs[1].get_id():
            zs[0], zs[1] = zs[1], zs[0]
        k = (name,) + tuple(z.get_id() for z in zs)
        r = self._memo.get(k)
        if r is not None:
            return r[0]
        f = z3.Function(name, *([z3.BitVecSort(w) for w in ws] + [z3.BitVecSort(rw)]))
        r = f(*zs)
        self._memo[k] = (r, zs)
        self.apps.append((name, ws, zs, r))
        return r

    def op2(self, op, a, b, w):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op == 'frem':
            return self.uf('frem%d' % w, [a, b], [w, w], w)
        g = type(a) is int and type(b) is int
        if g or self.mode == 'fp':
            A, B = tofp(a, w), tofp(b, w)
            e = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](RNE, A, B)
            if g:
                return _fold(e, w)
            return frombits(e)
        if op == 'fsub':        # a - b is a + (-b), exactly
            op, b = 'fadd', fneg(b, w)
        r = self.uf('%s%d' % (op, w), [a, b], [w, w], w, comm=op in ('fadd', 'fmul'))
        return r

    def sqrt(self, a, w):
        if a is UNDEF:
            return UNDEF
        if type(a) is int or self.mode == 'fp':
            e = z3.fpSqrt(RNE, tofp(a, w))
            return _fold(e, w) if type(a) is int else frombits(e)
        return self.uf('fsqrt%d' % w, [a], [w], w)

    def fma(self, a, b, c, w):
        if a is UNDEF or b is UNDEF or c is UNDEF:
            return UNDEF
        g = all(type(x) is int for x in (a, b, c))
        if g or self.mode == 'fp':
            e = z3.fpFMA(RNE, tofp(a, w), tofp(b, w), tofp(c, w))
            return _fold(e, w) if g else frombits(e)
        return self.uf('fma%d' % w, [a, b, c], [w] * 3, w, comm=True)

    def round_to_int(self, kind, a, w):
        if a is UNDEF:
            return UNDEF
        rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rint': z3.RNE(), 'nearbyint': z3.RNE(),
              'round': z3.RNA(), 'roundeven': z3.RNE()}[kind]
        if type(a) is int or self.mode == 'fp':
            e = z3.fpRoundToIntegral(rm, tofp(a, w))
            return _fold(e, w) if type(a) is int else frombits(e)
        return self.uf('f%s%d' % (kind, w), [a], [w], w)

    def fn(self, name, args, w):
        """transcendental: always uninterpreted"""
        return self.uf('%s%d' % (name, w), args, [w] * len(args), w)

    # conversions
    def i2f(self, signed, a, iw, fw):
        if a is UNDEF:
            return UNDEF
        g = type(a) in (int, bool)
        if iw == 1:
            a = ite(a, 1, 0, 8) if not signed else ite(a, 255, 0, 8)
            iw = 8
            g = type(a) is int
        if g or self.mode == 'fp':
            A = bv(a, iw)
            e = z3.fpSignedToFP(RNE, A, sort(fw)) if signed else z3.fpUnsignedToFP(RNE, A, sort(fw))
            return _fold(e, fw) if g else frombits(e)
        # exact widening goes through one common function per source value, so that
        # e.g. i8 -> i32 -> f32 and i8 -> f32 are the same term
        if iw < 64:
            a = sext(a, iw, 64) if signed else zext(a, iw, 64)
            a = simp(a)
            return self.uf('sitofp64_%d' % fw, [a], [64], fw)
        return self.uf('%sitofp%d_%d' % ('s' if signed else 'u', iw, fw), [a], [iw], fw)

    def f2i_inrange(self, signed, a, fw, iw):
        """truncation of a representable in iw bits?  exact bit-level test"""
        lo, hi = self._range_consts(signed, fw, iw)
        # -lo: a > lo-ish, a < hi-ish (strict bounds as floats)
        c1 = fcmp('ogt' if lo[1] else 'oge', a, lo[0], fw)
        c2 = fcmp('olt', a, hi, fw)
        return and_(c1, c2)

    def _range_consts(self, signed, fw, iw):
        # hi = 2^(iw) or 2^(iw-1), exclusive; lo: > lo-1 (if representable) or >= lo
        mb = C[fw]['mb']
        bias = C[fw]['bias']
        e = iw - 1 if signed else iw
        if e > bias:
            hi = C[fw]['inf']
        else:
            hi = (e + bias) << mb
        if signed:
            if iw - 1 > mb:      # -2^(iw-1)-1 not representable: a >= -2^(iw-1)
                lo = (C[fw]['sign'] | hi, False)
            else:
                # -(2^(iw-1)+1) representable: a > that
                v = z3.FPVal(-(2 ** (iw - 1)) - 1, sort(fw))
                lo = (_fold(v, fw), True)
        else:
            v = z3.FPVal(-1, sort(fw))
            lo = (_fold(v, fw), True)
        return lo, hi

    def f2i_raw(self, signed, a, fw, iw):
        if a is UNDEF:
            return UNDEF
        g = type(a) is int
        if g or self.mode == 'fp':
            A = tofp(a, fw)
            e = z3.fpToSBV(RTZ, A, z3.BitVecSort(iw)) if signed else z3.fpToUBV(RTZ, A, z3.BitVecSort(iw))
            return simp(e) if g else e
        # in-range results agree between widths/signedness: one 128-bit signed integer value
        if iw <= 64:
            r = self.uf('ftoi%d' % fw, [a], [fw], 72)
            return z3.Extract(iw - 1, 0, r)
        return self.uf('fto%si%d_%d' % ('s' if signed else 'u', fw, iw), [a], [fw], iw)

    def fext(self, a, fw, tw):
        if a is UNDEF:
            return UNDEF
        g = type(a) is int
        if g or self.mode == 'fp':
            e = z3.fpFPToFP(RNE, tofp(a, fw), sort(tw))
            return _fold(e, tw) if g else frombits(e)
        r = self.uf('fcvt%d_%d' % (fw, tw), [a], [fw], tw)
        return r

    def min_max(self, kind, a, b, w):
        """llvm.minnum/maxnum.  Symbolic: a variable constrained to be an admissible result over the whole set of
        leaves (nested minnums are flattened: the admissible results are the same)"""
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(a) is int and type(b) is int:
            if isnan(a, w):
                return b
            if isnan(b, w):
                return a
            if lt_nn(a, b, w):
                return a if kind == 'min' else b
            if lt_nn(b, a, w):
                return b if kind == 'min' else a
            return a if a == b else ite(fresh(1, 'zsel'), a, b, w)
        leaves = []
        for t in (a, b):
            m = self._mm.get((kind, w, t.get_id())) if is_sym(t) else None
            for l in (m[1] if m else (t,)):
                if not any(same(l, q) for q in leaves):
                    leaves.append(l)
        if len(leaves) == 1:
            return leaves[0]
        r = fresh(w, 'f' + kind)
        self.axioms.append(minmax_ok(kind, leaves, r, w))
        self._mm[(kind, w, r.get_id())] = (r, leaves)
        return r


def facts(apps):
    """exact IEEE-754 facts about uninterpreted applications: neutral elements, NaN propagation, signs of products"""
    out = []
    for name, ws, zs, r in apps:
        w = ws[0]
        if w not in C:
            continue
        op = name[:4]
        sg = C[w]['sign']
        one = C[w]['bias'] << C[w]['mb']
        if op == 'fadd':
            a, b = zs
            for x, y in ((a, b), (b, a)):
                out.append(z3.Implies(eq_(x, sg, w), bl(same_mod_nan(r, y, w))))
                out.append(z3.Implies(eq_(x, 0, w), bl(same_mod_nan(r, ite(eq(y, sg, w), 0, y, w), w))))
        elif op == 'fmul':
            a, b = zs
            for x, y in ((a, b), (b, a)):
                out.append(z3.Implies(eq_(x, one, w), bl(same_mod_nan(r, y, w))))
                out.append(z3.Implies(eq_(x, one | sg, w), bl(same_mod_nan(r, fneg(y, w), w))))
        elif op == 'fdiv':
            a, b = zs
            out.append(z3.Implies(eq_(b, one, w), bl(same_mod_nan(r, a, w))))
            out.append(z3.Implies(eq_(b, one | sg, w), bl(same_mod_nan(r, fneg(a, w), w))))
        else:
            continue
        out.append(z3.Implies(bl(or_(isnan(a, w), isnan(b, w))), bl(isnan(r, w))))
        if op != 'fdiv':        # arguments are stored in a canonical order: congruence needs the other one as well
            out.append(bl(same_mod_nan(r, r.decl()(b, a), w)))
        if op in ('fmul', 'fdiv'):
            out.append(z3.Or(bl(isnan(r, w)), bl(not_(xor_(signbit(r, w), xor_(signbit(a, w), signbit(b, w)))))))
    return out


def eq_(a, b, w):
    return bl(eq(a, b, w))


def minmax_ok(kind, xs, r, w):
    """r is an admissible minimum/maximum of xs: a non-NaN element bounding every non-NaN element (zeros of either sign
    tie); NaN iff every element is NaN"""
    alln = and_(*[isnan(x, w) for x in xs])
    bound = and_(*[or_(isnan(x, w), not_(lt_nn(x, r, w) if kind == 'min' else lt_nn(r, x, w))) for x in xs])
    return or_(and_(alln, isnan(r, w)),
               and_(not_(alln), not_(isnan(r, w)), or_(*[eq(r, x, w) for x in xs]), bound))
