"""Construction, lane access and lane replacement."""
from vsym.dsl import *


def ety(t):
    """type the lane API speaks"""
    return S['bool'] if t.kind == 'm' else S[t.elem]


def b(t, x):
    return x if t.kind == 'm' else bits(x)


def construct(t):
    e = ety(t)
    args = dict(x=In(e, t.n), s=In(e), nw=Out(t), sp=Out(t), df=Out(t), ln=Out('usize'))
    body = '*nw = %s::new(%s); *sp = %s::splat(*s); *df = Default::default(); *ln = %s::lanes();' % (
        t.name, ', '.join('*x.add(%d)' % k for k in range(t.n)), t.name, t.name)

    def spec(c):
        z = False if t.kind == 'm' else bits(0)
        return dict(nw=[b(t, x) for x in c.i['x']], sp=[b(t, c.i['s'][0])] * t.n, df=[z] * t.n, ln=[t.n])
    return Case('construct__%s' % t.name, args, body, spec, cost=t.n)


def pick(t, a, i):
    r = a[0]
    for k in range(1, t.n):
        c = icmp('eq', i, k, 64)
        r = or_(and_(c, a[k]), and_(not_(c), r)) if t.kind == 'm' else ite(c, a[k], r, t.w)
    return r


def extract(t):
    e = ety(t)

    def spec(c):
        c.panic = icmp('uge', c.i['i'], t.n, 64)
        r = pick(t, c.i['a'], c.i['i'])
        return dict(o=[b(t, r)])
    return Case('extract__%s' % t.name, dict(a=In(t), i=Val(), o=Out(e)), '*o = (*a).extract(i);', spec, cost=t.n)


def replace(t):
    e = ety(t)

    def spec(c):
        i, v = c.i['i'], c.i['v'][0]
        c.panic = icmp('uge', i, t.n, 64)
        r = []
        for k, x in enumerate(c.i['a']):
            q = icmp('eq', i, k, 64)
            r.append(or_(and_(q, v), and_(not_(q), x)) if t.kind == 'm' else bits(ite(q, v, x, t.w)))
        return dict(o=r, l=[b(t, v)])
    # the value read back at the index is the value written
    return Case('replace__%s' % t.name, dict(a=In(t), v=In(e), i=Val(), o=Out(t), l=Out(e)),
                'let r = (*a).replace(i, *v); *o = r; *l = r.extract(i);', spec, cost=t.n * 2)


def unchecked(t):
    e = ety(t)

    def spec(c):
        i, v = c.i['i'], c.i['v'][0]
        r = []
        for k, x in enumerate(c.i['a']):
            q = icmp('eq', i, k, 64)
            r.append(or_(and_(q, v), and_(not_(q), x)) if t.kind == 'm' else bits(ite(q, v, x, t.w)))
        return dict(o=r, l=[b(t, pick(t, c.i['a'], i))])
    return Case('unchecked__%s' % t.name, dict(a=In(t), v=In(e), i=Val(), o=Out(t), l=Out(e)),
                '*o = (*a).replace_unchecked(i, *v); *l = (*a).extract_unchecked(i);', spec,
                pre=lambda c: icmp('ult', c.i['i'], t.n, 64), cost=t.n * 2)


class P(Prop):
    id = 'C09'
    bounds = 'every vector type, all lane values, every usize index (unchecked accessors: indices below the lane count)'

    def configs(self, tier):
        return ['base', 'dev', 'avx2'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        cs = []
        for t in ALL:
            cs += [construct(t), extract(t), replace(t), unchecked(t)]
        return cs


PROP = P()
