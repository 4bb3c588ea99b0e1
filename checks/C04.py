"""Mask algebra and select."""
from vsym.dsl import *
from checks import C03, C09, C15, C20
from checks.convtab import FROM

B = dict(bitand=('&', and_), bitor=('|', or_), bitxor=('^', xor_))


def algebra(t):
    args = dict(a=In(t), b=In(t), s=In('bool'))
    body = ''
    for n, (o, _) in B.items():
        for f in ('vv', 'asg', 'vs', 'sv', 'sasg'):
            args['%s_%s' % (n, f)] = Out(t)
        body += ('*{n}_vv = *a {o} *b; let mut x = *a; x {o}= *b; *{n}_asg = x; *{n}_vs = *a {o} *s; *{n}_sv = *s {o} *b; '
                 'let mut y = *a; y {o}= *s; *{n}_sasg = y; ').format(n=n, o=o)
    args['not'] = Out(t)
    body += '*r#not = !*a;'.replace('r#', '')

    def spec(c):
        a, b, s = c.i['a'], c.i['b'], c.i['s'][0]
        r = {'not': [not_(x) for x in a]}
        for n, (_, f) in B.items():
            r[n + '_vv'] = r[n + '_asg'] = [f(x, y) for x, y in zip(a, b)]
            r[n + '_vs'] = r[n + '_sasg'] = [f(x, s) for x in a]
            r[n + '_sv'] = [f(s, y) for y in b]
        return r
    return Case('algebra__%s' % t.name, args, body, spec, cost=t.n)


def reduce_bits(t):
    args = dict(a=In(t), x=Out('bool', 3))

    def spec(c):
        a = c.i['a']
        x = False
        for v in a:
            x = xor_(x, v)
        return dict(x=[and_(*a), or_(*a), x])
    return Case('bitreduce__%s' % t.name, args, '*x = (*a).and(); *x.add(1) = (*a).or(); *x.add(2) = (*a).xor();', spec,
                cost=t.n / 2)


def select(m, t):
    args = dict(m=In(m), a=In(t), b=In(t), o=Out(t))

    def spec(c):
        r = []
        for q, x, y in zip(c.i['m'], c.i['a'], c.i['b']):
            if t.kind == 'm':
                r.append(or_(and_(q, x), and_(not_(q), y)))
            else:
                r.append(bits(ite(q, x, y, t.w)))
        return dict(o=r)
    return Case('select__%s_%s' % (m.name, t.name), args, '*o = (*m).select(*a, *b);', spec, cost=t.n / 2)


def scalar(t):
    args = dict(a=In(t), s=In('bool'), x=Out(t), d=Out(t), r=Out('bool'))
    return Case('scalar__%s' % t.name, args, '*x = {t}::new(*s); *d = Default::default(); *r = (*a).test();'.format(t=t.name),
                lambda c: dict(x=[c.i['s'][0]], d=[False], r=[c.i['a'][0]]))


def producers():
    """everything else that yields a mask: comparisons, casts, conversions, construction, float categories"""
    cs = []
    for t in ALL:
        cs.append(C03.vertical(t))
    for t in FLOATS:
        cs += C20.category(t)
    for m in MASKS:
        cs += [C09.construct(m), C09.replace(m)]
        cs += [C15.cast(t, m) for t in ALL if t.n == m.n and t is not m]
    cs += [C15.lossless(T[a], T[b]) for a, b in FROM if T[b].kind == 'm']
    return cs


class P(Prop):
    id = 'C04'
    bounds = ('every mask vector type, every (mask, vector) pair select accepts, and every comparison, cast, conversion, '
              'constructor and predicate that yields a mask; all lane values (input masks canonical)')

    def configs(self, tier):
        return ['base', 'dev', 'avx2'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        cs = []
        for m in MASKS:
            cs += [algebra(m), reduce_bits(m)]
            for t in ALL:
                if t.n == m.n:
                    cs.append(select(m, t))
        cs += [scalar(e) for e in S.values() if e.kind == 'm']
        return cs + producers()


PROP = P()
