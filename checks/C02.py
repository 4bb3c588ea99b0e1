"""Shifts and rotates."""
from vsym.dsl import *


def lane_shift(t, d, a, n):
    return shift_raw('shl' if d == 'shl' else 'ashr' if t.signed else 'lshr', a, n, t.w)


def shifts(t, d):
    sym = '<<' if d == 'shl' else '>>'
    args = dict(a=In(t), b=In(t), n=Val('u32', 32), vv=Out(t), asg=Out(t), vs=Out(t), sasg=Out(t))
    body = ('*vv = *a {o} *b; let mut x = *a; x {o}= *b; *asg = x; *vs = *a {o} n; '
            'let mut y = *a; y {o}= n; *sasg = y;').format(o=sym)

    def spec(c):
        a, b, n = c.i['a'], c.i['b'], c.i['n']
        nn = zext(n, 32, t.w) if t.w > 32 else trunc(n, 32, t.w) if t.w < 32 else n
        vv = each(t.n, lambda k: lane_shift(t, d, a[k], b[k]))
        vs = each(t.n, lambda k: lane_shift(t, d, a[k], nn))
        return dict(vv=vv, asg=vv, vs=vs, sasg=vs)

    def pre(c):
        return and_(icmp('ult', c.i['n'], t.w, 32), *[icmp('ult', x, t.w, t.w) for x in c.i['b']])
    return Case('%s__%s' % (d, t.name), args, body, spec, pre, cost=t.n * 2)


def rotate(t, d):
    """amount: the lane of n modulo the lane width"""
    def spec(c):
        f = rotl if d == 'left' else rotr
        return dict(o=[f(a, arith('and', n, t.w - 1, t.w), t.w) for a, n in zip(c.i['a'], c.i['n'])])
    return Case('rotate_%s__%s' % (d, t.name), dict(a=In(t), n=In(t), o=Out(t)), '*o = (*a).rotate_%s(*n);' % d, spec,
                cost=t.n * 3)


class P(Prop):
    id = 'C02'
    bounds = ('every integer vector type, all lane values; shift amounts below the lane width (larger amounts are '
              'documented as undefined); rotate amounts unrestricted')

    def configs(self, tier):
        return ['base', 'dev', 'avx2'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        cs = []
        for t in INTS:
            cs += [shifts(t, 'shl'), shifts(t, 'shr'), rotate(t, 'left'), rotate(t, 'right')]
        return cs


PROP = P()
