"""Float sum / product reductions and iterator sums."""
from vsym.dsl import *


def orders(c, t, op, xs, init):
    """results of the admissible evaluation orders: each lane exactly once, left to right or pairwise, with or without
    the neutral element in front"""
    f = lambda a, b: c.fp.op2(op, a, b, t.w)

    def lin(ys):
        r = ys[0]
        for y in ys[1:]:
            r = f(r, y)
        return r

    def tree(ys):
        while len(ys) > 1:
            ys = [f(ys[k], ys[k + 1]) for k in range(0, len(ys), 2)]
        return ys[0]
    l, tr = lin(xs), tree(list(xs))
    return [lin([init] + list(xs)), l, tr, f(init, tr), f(init, l)]


def any_of(t, rs):
    return lambda a: or_(*[fpm.same_mod_nan(a, r, t.w) for r in rs])


def reduction(t, op):
    o, init = ('fadd', 0) if op == 'sum' else ('fmul', ONE[t.w])

    def spec(c):
        return dict(o=[any_of(t, orders(c, t, o, c.i['a'], init))])
    return Case('%s__%s' % (op, t.name), dict(a=In(t), o=Out(t.elem)), '*o = (*a).%s();' % op, spec, cost=t.n)


ONE = {32: 0x3f800000, 64: 0x3ff0000000000000}


def iters(t, n, op):
    o, init = ('fadd', 0) if op == 'sum' else ('fmul', ONE[t.w])
    args = dict(a=In(t, n), v=Out(t), r=Out(t))
    body = ('let s = core::slice::from_raw_parts(a, {n}); *v = s.iter().copied().{tr}::<{T}>(); '
            '*r = s.iter().{tr}::<{T}>();').format(n=n, tr=op, T=t.name)

    def spec(c):
        x = c.i['a']
        r = []
        for k in range(t.n):
            q = init
            for j in range(n):
                q = c.fp.op2(o, q, x[j * t.n + k], t.w)
            p = init
            for j in range(n):
                p = x[j * t.n + k] if j == 0 else c.fp.op2(o, p, x[j * t.n + k], t.w)
            r.append(any_of(t, [q, p]))
        return dict(v=r, r=r)
    return Case('iter_%s%d__%s' % (op, n, t.name), args, body, spec, cost=t.n * (n + 1))


class P(Prop):
    id = 'C07'
    bounds = ('every float vector type, all lane values; iterator sums/products over 0 to 3 vectors; evaluation order left '
              'to right or pairwise')

    def configs(self, tier):
        return ['base', 'dev', 'avx2fma'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        cs = []
        for t in FLOATS:
            for op in ('sum', 'product'):
                cs.append(reduction(t, op))
                for n in (0, 1, 2, 3):
                    cs.append(iters(t, n, op))
        return cs


PROP = P()
