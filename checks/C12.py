"""Run-time shuffles, in every build configuration."""
from vsym.dsl import *


def idx_ty(t):
    if t.elem in ('isize', 'usize', 'msize'):
        return T['usizex%d' % t.n]
    return T['u%dx%d' % (t.w, t.n)]


def dyn(t):
    u = idx_ty(t)

    # masks: lanes as raw bits constrained to be canonical
    at = u if t.kind == 'm' else t

    def sel(c, i):
        a = c.i['a']
        r = a[-1]
        for k in reversed(range(t.n - 1)):
            r = ite(icmp('eq', i, k, u.w), a[k], r, t.w)
        return r

    def pre(c):
        return and_(*[or_(eq(x, 0, t.w), eq(x, mask(t.w), t.w)) for x in c.i['a']])

    def spec(c):
        inr = and_(*[icmp('ult', i, t.n, u.w) for i in c.i['i']])
        c.may_panic = not_(inr)
        r = []
        for i in c.i['i']:
            e = sel(c, i)
            r.append((lambda e: lambda a: or_(not_(inr), eq(a, e, t.w)))(e))
        return dict(o=r)
    return Case('shuffle1_dyn__%s' % t.name, dict(a=In(at), i=In(u), o=Out(at)),
                '*(o as *mut {T}) = (*(a as *const {T})).shuffle1_dyn(*i);'.format(T=t.name), spec,
                pre=pre if t.kind == 'm' else None, cost=t.n * t.n / 4 + 1)


class P(Prop):
    id = 'C12'
    bounds = ('every vector type, all lane values, all index vectors (out-of-range indices may panic or give any value, but '
              'must not be undefined behaviour), each x86 target-feature level with a dedicated implementation')

    def configs(self, tier):
        return ['base', 'dev', 'ssse3', 'avx', 'avx2'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        return [dyn(t) for t in ALL]


PROP = P()
