"""Bit counting."""
from vsym.dsl import *

F = dict(count_ones=ctpop, leading_zeros=ctlz, trailing_zeros=cttz,
         count_zeros=lambda a, w: zeros(a, w))


def zeros(a, w):
    """number of zero bits; two equal ways of writing it, so that either form of the code is matched without an
    arithmetic proof"""
    inv = ctpop(arith('xor', a, mask(w), w), w)
    sub = arith('sub', w, ctpop(a, w), w)
    return lambda r: or_(eq(r, inv, w), eq(r, sub, w))


def bitop(t, op):
    # the result lane holds the count, in the lane type
    return Case('%s__%s' % (op, t.name), dict(a=In(t), o=Out(t)), '*o = (*a).%s();' % op,
                lambda c: dict(o=[F[op](x, t.w) for x in c.i['a']]), cost=t.n * t.w / 16)


class P(Prop):
    id = 'C13'
    bounds = 'every integer vector type, all lane values'

    def configs(self, tier):
        return ['base', 'dev', 'avx2'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        return [bitop(t, op) for t in INTS for op in F]


PROP = P()
