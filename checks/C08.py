"""min / max, vertical and horizontal."""
from vsym.dsl import *


def imin(t, op, a, b):
    lt = icmp('slt' if t.signed else 'ult', a, b, t.w)
    return ite(lt, a, b, t.w) if op == 'min' else ite(lt, b, a, t.w)


def fmin_ok(t, op, a, b):
    return lambda r: fpm.minmax_ok(op, [a, b], r, t.w)


def vertical(t):
    args = dict(a=In(t), b=In(t), mn=Out(t), mx=Out(t))

    def spec(c):
        z = list(zip(c.i['a'], c.i['b']))
        if t.kind == 'f':
            return dict(mn=[fmin_ok(t, 'min', x, y) for x, y in z], mx=[fmin_ok(t, 'max', x, y) for x, y in z])
        return dict(mn=[imin(t, 'min', x, y) for x, y in z], mx=[imin(t, 'max', x, y) for x, y in z])
    return Case('vertical__%s' % t.name, args, '*mn = (*a).min(*b); *mx = (*a).max(*b);', spec, cost=t.n)


def horizontal(t, op):
    e = S[t.elem]
    args = dict(a=In(t), o=Out(e))

    def spec(c):
        a = c.i['a']
        if t.kind == 'f':
            return dict(o=[lambda r: fpm.minmax_ok(op, a, r, t.w)])
        r = a[0]
        for x in a[1:]:
            r = minmax(('s' if t.signed else 'u') + op, r, x, t.w)
        return dict(o=[r])
    return Case('%s_element__%s' % (op, t.name), args, '*o = (*a).%s_element();' % op, spec, cost=t.n * t.n / 2)


class P(Prop):
    id = 'C08'
    bounds = ('every integer and float vector type, all lane values including NaN, infinities and both zeros (either zero '
              'is accepted when zeros of both signs compete)')

    def configs(self, tier):
        return ['base', 'dev', 'avx2'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        cs = []
        for t in INTS + FLOATS:
            cs += [vertical(t), horizontal(t, 'min'), horizontal(t, 'max')]
        return cs


PROP = P()
