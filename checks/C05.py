"""all / any / none and bitmask, in every build configuration."""
from vsym.dsl import *


def reductions(t):
    def spec(c):
        a = c.i['a']
        return dict(o=[and_(*a), or_(*a), not_(or_(*a))])
    return Case('reduce__%s' % t.name, dict(a=In(t), o=Out('bool', 3)),
                '*o = (*a).all(); *o.add(1) = (*a).any(); *o.add(2) = (*a).none();', spec, cost=t.n)


def bitmask(t):
    w = max(8, t.n)

    def spec(c):
        r = 0
        for k, v in enumerate(c.i['a']):
            b = v if t.kind == 'm' else icmp('slt', v, 0, t.w)
            r = arith('or', r, ite(b, 1 << k, 0, w), w)
        return dict(o=[r])
    return Case('bitmask__%s' % t.name, dict(a=In(t), o=Out('u%d' % w)), '*o = (*a).bitmask();', spec, cost=t.n)


class P(Prop):
    id = 'C05'
    bounds = ('every mask vector type (and every integer vector type for bitmask), all lane values, each x86 '
              'target-feature level the crate has a dedicated implementation for')

    def configs(self, tier):
        return ['base', 'dev', 'ssse3', 'sse41', 'avx', 'avx2'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        return [reductions(t) for t in MASKS] + [bitmask(t) for t in MASKS + INTS]


PROP = P()
