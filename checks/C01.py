"""Lane-wise arithmetic and bitwise operators."""
from vsym.dsl import *

AR = [('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/'), ('rem', '%')]
BW = [('and', '&'), ('or', '|'), ('xor', '^')]


def scalar_op(c, t, op, a, b):
    """the scalar semantics of one lane"""
    if t.kind == 'f':
        return c.fp.op2('f' + op, a, b, t.w)
    if op in ('div', 'rem'):
        return divrem_raw(('s' if t.signed else 'u') + op, a, b, t.w)
    return arith(op, a, b, t.w)


def divisor_ok(t, a, b):
    nz = not_(eq(b, 0, t.w))
    if t.signed:
        return and_(nz, not_(and_(eq(a, 1 << (t.w - 1), t.w), eq(b, mask(t.w), t.w))))
    return nz


def binop(t, op, sym):
    args = dict(a=In(t), b=In(t), s=In(S[t.elem]), vv=Out(t), asg=Out(t), vs=Out(t), sv=Out(t), sasg=Out(t))
    body = ('*vv = *a {o} *b; let mut x = *a; x {o}= *b; *asg = x; *vs = *a {o} *s; *sv = *s {o} *b; '
            'let mut y = *a; y {o}= *s; *sasg = y;').format(o=sym)

    def spec(c):
        a, b, s = c.i['a'], c.i['b'], c.i['s'][0]
        vv = each(t.n, lambda k: scalar_op(c, t, op, a[k], b[k]))
        vs = each(t.n, lambda k: scalar_op(c, t, op, a[k], s))
        sv = each(t.n, lambda k: scalar_op(c, t, op, s, b[k]))
        return dict(vv=vv, asg=vv, vs=vs, sv=sv, sasg=vs)

    def pre(c):
        a, b, s = c.i['a'], c.i['b'], c.i['s'][0]
        return and_(*[and_(divisor_ok(t, a[k], b[k]), divisor_ok(t, a[k], s), divisor_ok(t, s, b[k]))
                      for k in range(t.n)])
    return Case('%s__%s' % (op, t.name), args, body, spec, pre if t.kind != 'f' and op in ('div', 'rem') else None,
                cost=t.n)


def unop(t, op):
    args = dict(a=In(t), o=Out(t))

    def spec(c):
        if op == 'not':
            return dict(o=[arith('xor', x, mask(t.w), t.w) for x in c.i['a']])
        if t.kind == 'f':
            return dict(o=[fpm.fneg(x, t.w) for x in c.i['a']])
        return dict(o=[arith('sub', 0, x, t.w) for x in c.i['a']])
    return Case('%s__%s' % (op, t.name), args, '*o = %s*a;' % ('!' if op == 'not' else '-'), spec, cost=t.n / 4)


class P(Prop):
    id = 'C01'
    bounds = ('all lane values of every integer and float vector type (no size bound: types are fixed size); integer '
              'division/remainder for divisors that are non-zero and do not overflow')

    def configs(self, tier):
        return ['base', 'dev', 'avx2'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        cs = []
        for t in INTS + FLOATS:
            for op, sym in AR:
                cs.append(binop(t, op, sym))
            if t.kind != 'f':
                for op, sym in BW:
                    cs.append(binop(t, op, sym))
                cs.append(unop(t, 'not'))
            if t.kind in 'if':
                cs.append(unop(t, 'neg'))
        return cs


PROP = P()
