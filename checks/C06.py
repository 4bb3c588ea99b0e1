"""Integer reductions and iterator sums."""
from vsym.dsl import *
from checks import C04


def fold(t, op, xs, init):
    r = init
    for x in xs:
        r = arith(op, r, x, t.w)
    return r


def reductions(t, names):
    e = S[t.elem]
    ops = dict(wrapping_sum=('add', 0), wrapping_product=('mul', 1), xor=('xor', 0), **{
        'and': ('and', mask(t.w)), 'or': ('or', 0)})
    args = dict(a=In(t), o=Out(e, len(names)))
    body = ''.join('*o.add(%d) = (*a).%s(); ' % (k, n) for k, n in enumerate(names))

    def spec(c):
        return dict(o=[fold(t, ops[n][0], c.i['a'], ops[n][1]) for n in names])
    return Case('%s__%s' % ('_'.join(names), t.name), args, body, spec, cost=t.n)


def iters(t, n, op):
    """Sum / Product over n vectors, by value and by reference"""
    tr, o, init = ('sum', 'add', 0) if op == 'sum' else ('product', 'mul', 1)
    args = dict(a=In(t, n), v=Out(t), r=Out(t))
    body = ('let s = core::slice::from_raw_parts(a, {n}); *v = s.iter().copied().{tr}::<{T}>(); '
            '*r = s.iter().{tr}::<{T}>();').format(n=n, tr=tr, T=t.name)

    def spec(c):
        x = c.i['a']
        r = [fold(t, o, [x[j * t.n + k] for j in range(n)], init) for k in range(t.n)]
        return dict(v=r, r=r)
    return Case('iter_%s%d__%s' % (op, n, t.name), args, body, spec, cost=t.n * (n + 1))


class P(Prop):
    id = 'C06'
    bounds = 'every integer vector type (and mask vector type for and/or/xor), all lane values; iterator sums/products over 0, 1, 2 and 3 vectors'

    def configs(self, tier):
        return ['base', 'dev', 'avx2'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        cs = []
        for t in INTS:
            cs += [reductions(t, ['wrapping_sum']), reductions(t, ['wrapping_product']),
                   reductions(t, ['and', 'or', 'xor'])]
            for n in (0, 1, 2, 3):
                cs += [iters(t, n, 'sum'), iters(t, n, 'product')]
        return cs + [C04.reduce_bits(m) for m in MASKS]


PROP = P()
