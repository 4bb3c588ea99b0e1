"""Symbolic scalars.

  iN (N>1)  : python int (unsigned) or z3 BitVec(N)
  i1        : python bool or z3 Bool
  float     : raw IEEE bits, as iN
  UNDEF     : undef/poison/uninitialised
  Ptr/FnPtr : pointers with provenance (see ex.py); a raw address is an i64
"""
import z3

_fresh = [0]


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


def fresh(w, tag='undef'):
    _fresh[0] += 1
    n = '%s!%d' % (tag, _fresh[0])
    return z3.Bool(n) if w == 1 else z3.BitVec(n, w)


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def bv(x, w):
    """as a z3 BitVec of width w"""
    if type(x) is int:
        return z3.BitVecVal(x, w)
    if x is UNDEF:
        return fresh(w)
    if w == 1:
        raise TypeError('bv of width 1')
    return x


def bl(x):
    if x is True or x is False:
        return z3.BoolVal(x)
    if x is UNDEF:
        return fresh(1)
    return x


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def concrete(x):
    """z3 numeral -> int / bool, else x unchanged"""
    if isinstance(x, z3.BitVecNumRef):
        return x.as_long()
    if isinstance(x, z3.BoolRef):
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def simp(x):
    if isinstance(x, z3.ExprRef):
        return concrete(z3.simplify(x))
    return x


def same(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta in (int, bool) and ta is tb:
        return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    return False


def ite(c, a, b, w):
    """c: bool-ish; a,b scalars of width w"""
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if w == 1:
        if a is True and b is False:
            return c
        if a is False and b is True:
            return z3.Not(c)
        return z3.If(c, bl(a), bl(b))
    m = _minmax_pattern(c, a, b, w)
    if m is not None:
        return minmax(m, a, b, w)
    a, b = bv(a, w), bv(b, w)
    if isinstance(c, z3.BoolRef):
        x = c.ctx
        return z3.BitVecRef(z3.Z3_mk_ite(x.ref(), c.as_ast(), a.as_ast(), b.as_ast()), x)
    return z3.If(c, a, b)


# min/max are associative, commutative and idempotent: a min of mins is kept as one
# canonical chain over the (sorted) set of its leaves, so any evaluation order gives
# the same term
_MM = {}
_CMPK = {z3.Z3_OP_ULT: ('u', 0), z3.Z3_OP_ULEQ: ('u', 0), z3.Z3_OP_UGT: ('u', 1), z3.Z3_OP_UGEQ: ('u', 1),
         z3.Z3_OP_SLT: ('s', 0), z3.Z3_OP_SLEQ: ('s', 0), z3.Z3_OP_SGT: ('s', 1), z3.Z3_OP_SGEQ: ('s', 1)}


class _NoPat(Exception):
    pass


def _ord_eval(e, a, b, sign, rel, budget):
    """evaluate e, whose only unknowns are comparisons of a with b, under the order rel in {-1, 0, 1} of a and b;
    sign collects the signedness used"""
    budget[0] -= 1
    if budget[0] < 0:
        raise _NoPat
    if not z3.is_app(e):
        raise _NoPat
    k = e.decl().kind()
    if k == z3.Z3_OP_TRUE:
        return True
    if k == z3.Z3_OP_FALSE:
        return False
    if k == z3.Z3_OP_BNUM:
        return e.as_long()
    ev = lambda x: _ord_eval(x, a, b, sign, rel, budget)
    if k == z3.Z3_OP_NOT:
        return not ev(e.arg(0))
    if k == z3.Z3_OP_AND:
        return all([ev(x) for x in e.children()])
    if k == z3.Z3_OP_OR:
        return any([ev(x) for x in e.children()])
    if k == z3.Z3_OP_XOR:
        return ev(e.arg(0)) != ev(e.arg(1))
    if k == z3.Z3_OP_ITE:
        return ev(e.arg(1)) if ev(e.arg(0)) else ev(e.arg(2))
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = e.params()
        return (ev(e.arg(0)) >> lo) & ((1 << (hi - lo + 1)) - 1)
    if k in _CMPK or k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
        x, y = e.arg(0), e.arg(1)
        r = None
        if x.eq(a) and y.eq(b):
            r = rel
        elif x.eq(b) and y.eq(a):
            r = -rel
        if r is None:
            p, q = ev(x), ev(y)
            if k == z3.Z3_OP_EQ:
                return p == q
            if k == z3.Z3_OP_DISTINCT:
                return p != q
            if type(p) is not int or type(q) is not int:
                raise _NoPat
            if _CMPK[k][0] == 's':
                p, q = sgn(p, x.size()), sgn(q, x.size())
            r = (p > q) - (p < q)
        elif k in _CMPK:
            sign.add(_CMPK[k][0])
        if k == z3.Z3_OP_EQ:
            return r == 0
        if k == z3.Z3_OP_DISTINCT:
            return r != 0
        return {z3.Z3_OP_ULT: r < 0, z3.Z3_OP_SLT: r < 0, z3.Z3_OP_ULEQ: r <= 0, z3.Z3_OP_SLEQ: r <= 0,
                z3.Z3_OP_UGT: r > 0, z3.Z3_OP_SGT: r > 0, z3.Z3_OP_UGEQ: r >= 0, z3.Z3_OP_SGEQ: r >= 0}[k]
    raise _NoPat


_CMPD = {}


def _compared(c):
    """ids of the terms compared anywhere near the top of c"""
    h = _CMPD.get(c.get_id())
    if h is not None:
        return h[1]
    ids, todo, n = set(), [c], 0
    while todo and n < 80:
        e = todo.pop()
        n += 1
        ch = e.children()
        k = e.decl().kind() if z3.is_app(e) else None
        if k in _CMPK or k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            ids.update(x.get_id() for x in ch)
        todo += ch
    if len(_CMPD) > 20000:
        _CMPD.clear()
    _CMPD[c.get_id()] = (c, ids)
    return ids


def _minmax_pattern(c, a, b, w):
    """is (if c then a else b) a minimum or maximum of a and b?"""
    if not (isinstance(a, z3.BitVecRef) and isinstance(b, z3.BitVecRef)) or not isinstance(c, z3.BoolRef):
        return None
    ids = _compared(c)
    if a.get_id() not in ids or b.get_id() not in ids:
        return None
    sign = set()
    try:
        lt = _ord_eval(c, a, b, sign, -1, [40])
        gt = _ord_eval(c, a, b, sign, 1, [40])
    except _NoPat:
        return None
    if lt == gt or len(sign) != 1:
        return None
    return sign.pop() + ('min' if lt else 'max')


def minmax(kind, a, b, w):
    """kind: umin umax smin smax"""
    if type(a) is int and type(b) is int:
        ka, kb = (sgn(a, w), sgn(b, w)) if kind[0] == 's' else (a, b)
        return a if (ka <= kb) == (kind[1:] == 'min') else b
    a, b = bv(a, w), bv(b, w)
    leaves = {}
    for t in (a, b):
        m = _MM.get((kind, t.get_id()))
        for l in (m[1] if m else (t,)):
            leaves[l.get_id()] = l
    ls = [leaves[k] for k in sorted(leaves)]
    le = {'u': z3.ULE, 's': lambda p, q: p <= q}[kind[0]]
    r = ls[0]
    for l in ls[1:]:
        r = z3.If(le(r, l), r, l) if kind[1:] == 'min' else z3.If(le(l, r), r, l)
    _MM[(kind, r.get_id())] = (r, tuple(ls))
    return r


def not_(a):
    if a is True or a is False:
        return not a
    if a is UNDEF:
        return UNDEF
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def mk_and(xs):
    """conjunction without the Python API's sort coercions"""
    c = xs[0].ctx
    return z3.BoolRef(z3.Z3_mk_and(c.ref(), len(xs), (z3.Ast * len(xs))(*[x.as_ast() for x in xs])), c)


def mk_or(xs):
    c = xs[0].ctx
    return z3.BoolRef(z3.Z3_mk_or(c.ref(), len(xs), (z3.Ast * len(xs))(*[x.as_ast() for x in xs])), c)


def and_(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(bl(x))
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return mk_and(out)


def or_(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(bl(x))
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return mk_or(out)


def xor_(a, b):
    if type(a) is bool and type(b) is bool:
        return a != b
    if a is False:
        return b
    if b is False:
        return a
    if a is True:
        return not_(b)
    if b is True:
        return not_(a)
    return z3.Xor(bl(a), bl(b))


def eq(a, b, w):
    if w == 1:
        return not_(xor_(a, b))
    if type(a) is int and type(b) is int:
        return a == b
    if a is UNDEF or b is UNDEF:
        return fresh(1)
    if same(a, b):
        return True
    return bv(a, w) == bv(b, w)


def _arith(op, a, b, w):
    m = (1 << w) - 1
    if type(a) is int and type(b) is int:
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
    if op == 'and':
        if a == 0 and type(a) is int or b == 0 and type(b) is int:
            return 0
        if type(a) is int and a == m:
            return b
        if type(b) is int and b == m:
            return a
        return bv(a, w) & bv(b, w)
    if op == 'add':
        if type(b) is int and b == 0:
            return a
        if type(a) is int and a == 0:
            return b
        return bv(a, w) + bv(b, w)
    if op == 'sub':
        if type(b) is int and b == 0:
            return a
        return bv(a, w) - bv(b, w)
    if op == 'mul':
        if type(b) is int and b in (0, 1):
            return a if b else 0
        if type(a) is int and a in (0, 1):
            return b if a else 0
        return bv(a, w) * bv(b, w)
    if op == 'or':
        if type(b) is int and b == 0:
            return a
        if type(a) is int and a == 0:
            return b
        return bv(a, w) | bv(b, w)
    if op == 'xor':
        if type(b) is int and b == 0:
            return a
        if type(a) is int and a == 0:
            return b
        if type(b) is int and b == m:
            return ~a
        return bv(a, w) ^ bv(b, w)
    raise KeyError(op)


def arith(op, a, b, w):
    """add sub mul and or xor, wrapping; UNDEF propagates"""
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if w == 1:
        if op == 'and' or op == 'mul':
            return and_(a, b)
        if op == 'or':
            return or_(a, b)
        return xor_(a, b)     # xor add sub
    return _arith(op, a, b, w)


def shift_raw(op, a, n, w):
    """shift with n < w assumed"""
    if type(a) is int and type(n) is int:
        n = min(n, w)
        if op == 'shl':
            return (a << n) & mask(w)
        if op == 'lshr':
            return a >> n
        return (sgn(a, w) >> min(n, w - 1)) & mask(w)
    if type(n) is int and n == 0:
        return a
    A, N = bv(a, w), bv(n, w)
    if op == 'shl':
        return A << N
    if op == 'lshr':
        return z3.LShR(A, N)
    return A >> N


def divrem_raw(op, a, b, w):
    """division for b != 0 and no overflow"""
    if type(a) is int and type(b) is int and b != 0:
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == 'sdiv':
            return q & mask(w)
        return (x - q * y) & mask(w)
    A, B = bv(a, w), bv(b, w)
    if op == 'udiv':
        return z3.UDiv(A, B)
    if op == 'urem':
        return z3.URem(A, B)
    if op == 'sdiv':
        return A / B
    return z3.SRem(A, B)


def icmp(pred, a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if pred == 'eq':
        return eq(a, b, w)
    if pred == 'ne':
        return not_(eq(a, b, w))
    if w == 1:
        a = ite(a, 1, 0, 8)
        b = ite(b, 1, 0, 8)
        if pred[0] == 's':
            # i1: true == -1
            a, b = b, a
        w = 8
    if type(a) is int and type(b) is int:
        if pred[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        p = pred[1:]
        return a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b
    A, B = bv(a, w), bv(b, w)
    return {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
            'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y,
            'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[pred](A, B)


def zext(a, fw, tw):
    if a is UNDEF:
        return UNDEF
    if fw == tw:
        return a
    if fw == 1:
        return ite(a, 1, 0, tw)
    if type(a) is int:
        return a
    return z3.ZeroExt(tw - fw, a)


def sext(a, fw, tw):
    if a is UNDEF:
        return UNDEF
    if fw == tw:
        return a
    if fw == 1:
        return ite(a, mask(tw), 0, tw)
    if type(a) is int:
        return sgn(a, fw) & mask(tw)
    return z3.SignExt(tw - fw, a)


_K_EXTRACT = z3.Z3_OP_EXTRACT
_K_ZEXT = z3.Z3_OP_ZERO_EXT
_K_SEXT = z3.Z3_OP_SIGN_EXT


def trunc(a, fw, tw):
    if a is UNDEF:
        return UNDEF
    if fw == tw:
        return a
    if type(a) is int:
        return bool(a & 1) if tw == 1 else a & mask(tw)
    if tw == 1:
        d = a.decl().kind()
        if d == z3.Z3_OP_ITE:
            t, e = concrete(a.arg(1)), concrete(a.arg(2))
            if type(t) is int and type(e) is int:
                t, e = bool(t & 1), bool(e & 1)
                return ite(a.arg(0), t, e, 1)
        return simp(z3.Extract(0, 0, a) == 1)
    k = a.decl().kind()
    if k in (_K_ZEXT, _K_SEXT):
        x = a.arg(0)
        if x.size() == tw:
            return x
    return simp(z3.Extract(tw - 1, 0, a))


def byte_of(a, w, k):
    """k-th (little endian) byte of a w-bit scalar"""
    if a is UNDEF:
        return UNDEF
    if type(a) is int:
        return (a >> (8 * k)) & 255
    if w == 8:
        return a
    return z3.Extract(8 * k + 7, 8 * k, a)


def join_bytes(bs):
    """little endian list of 8-bit scalars -> scalar"""
    if any(b is UNDEF for b in bs):
        if all(b is UNDEF for b in bs):
            return UNDEF
        bs = [fresh(8) if b is UNDEF else b for b in bs]
    if all(type(b) is int for b in bs):
        v = 0
        for i, b in enumerate(bs):
            v |= b << (8 * i)
        return v
    if len(bs) == 1:
        return bs[0]
    return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))


# ------------------------------------------------------------------ bit counting
def ctpop(a, w):
    if type(a) is int:
        return bin(a).count('1')
    if a is UNDEF:
        return UNDEF
    # tree adder over zero-extended bits
    parts = [z3.ZeroExt(w - 1, z3.Extract(i, i, a)) for i in range(w)]
    r = parts[0]
    for p in parts[1:]:
        r = r + p
    return r


def ctlz(a, w):
    if type(a) is int:
        return w - a.bit_length()
    if a is UNDEF:
        return UNDEF
    r = z3.BitVecVal(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return r


def cttz(a, w):
    if type(a) is int:
        return (a & -a).bit_length() - 1 if a else w
    if a is UNDEF:
        return UNDEF
    r = z3.BitVecVal(w, w)
    for i in reversed(range(w)):
        r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(i, w), r)
    return r


def bswap(a, w):
    if a is UNDEF:
        return UNDEF
    if w == 8:
        return a
    n = w // 8
    if type(a) is int:
        return int.from_bytes(a.to_bytes(n, 'little'), 'big')
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(n)])


def bitreverse(a, w):
    if a is UNDEF:
        return UNDEF
    if type(a) is int:
        return int(bin(a)[2:].zfill(w)[::-1], 2)
    return z3.Concat(*[z3.Extract(i, i, a) for i in range(w)])


def rotl(a, n, w):
    """rotate left by n modulo w (w a power of two)"""
    if a is UNDEF or n is UNDEF:
        return UNDEF
    if w == 1:
        return a
    if type(n) is int:
        n %= w
        if type(a) is int:
            return ((a << n) | (a >> (w - n))) & mask(w)
        return z3.RotateLeft(a, n)
    A, N = bv(a, w), bv(n, w)
    N = N & (w - 1)
    return (A << N) | z3.LShR(A, (z3.BitVecVal(w, w) - N) & (w - 1))


def rotr(a, n, w):
    if a is UNDEF or n is UNDEF:
        return UNDEF
    if type(n) is int:
        return rotl(a, (-n) % w, w)
    return rotl(a, z3.BitVecVal(0, w) - n, w)
