"""Comparisons: vertical masks, equality, lexicographic orders."""
from vsym.dsl import *

OPS = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']


def lane_cmp(t, op, a, b):
    if t.kind == 'm' or t.kind == 'b':
        lt, gt, e = and_(not_(a), b), and_(a, not_(b)), not_(xor_(a, b))
        return {'eq': e, 'ne': not_(e), 'lt': lt, 'gt': gt, 'le': or_(lt, e), 'ge': or_(gt, e)}[op]
    if t.kind == 'f':
        return fpm.fcmp(('u' if op == 'ne' else 'o') + op, a, b, t.w)
    if op in ('eq', 'ne'):
        return icmp(op, a, b, t.w)
    return icmp(('s' if t.signed else 'u') + op, a, b, t.w)


def vertical(t):
    m = mask_of(t)
    args = dict(a=In(t), b=In(t))
    body = ''
    for o in OPS:
        args[o] = Out(m)
        body += '*%s = (*a).%s(*b); ' % (o, o)

    def spec(c):
        return {o: [lane_cmp(t, o, x, y) for x, y in zip(c.i['a'], c.i['b'])] for o in OPS}
    return Case('vertical__%s' % t.name, args, body, spec, cost=t.n)


def equality(t):
    args = dict(a=In(t), b=In(t), e=Out('bool'), n=Out('bool'), le=Out('bool'), ln=Out('bool'))
    body = ('*e = PartialEq::eq(&*a, &*b); *n = PartialEq::ne(&*a, &*b); '
            'let x = (*a).partial_lex_ord(); let y = (*b).partial_lex_ord(); *le = x == y; *ln = x != y;')
    if t.kind == 'f':
        args = dict(a=In(t), b=In(t), e=Out('bool'), n=Out('bool'))
        body = '*e = PartialEq::eq(&*a, &*b); *n = PartialEq::ne(&*a, &*b);'

    def spec(c):
        e = and_(*[lane_cmp(t, 'eq', x, y) for x, y in zip(c.i['a'], c.i['b'])])
        return dict(e=[e], n=[not_(e)], le=[e], ln=[not_(e)])
    return Case('equality__%s' % t.name, args, body, spec, cost=t.n)


CODE = 'fn code(o: Option<core::cmp::Ordering>) -> u8 { match o { Some(core::cmp::Ordering::Less) => 0, ' \
       'Some(core::cmp::Ordering::Equal) => 1, Some(core::cmp::Ordering::Greater) => 2, None => 3 } }\n'


def lex(t, a, b):
    """(lt, eq, gt) of the first differing lane"""
    lt = gt = False
    e = True
    for x, y in reversed(list(zip(a, b))):
        ke = lane_cmp(t, 'eq', x, y)
        lt = ite_b(ke, lt, lane_cmp(t, 'lt', x, y))
        gt = ite_b(ke, gt, lane_cmp(t, 'gt', x, y))
        e = and_(ke, e)
    return lt, e, gt


def ite_b(c, a, b):
    return or_(and_(c, a), and_(not_(c), b))


def order(t):
    args = dict(a=In(t), b=In(t), pc=Out('u8'), lt=Out('bool'), le=Out('bool'), gt=Out('bool'), ge=Out('bool'))
    body = ('let x = (*a).partial_lex_ord(); let y = (*b).partial_lex_ord(); *pc = code(x.partial_cmp(&y)); '
            '*lt = x < y; *le = x <= y; *gt = x > y; *ge = x >= y; ')
    args['pe'] = Out('bool', 2)
    body += '*pe = x == y; *pe.add(1) = x != y; '
    args['oc'] = Out('u8', 2)
    args['ob'] = Out('bool', 6)
    body += ('let u = (*a).lex_ord(); let v = (*b).lex_ord(); *oc = code(Some(u.cmp(&v))); '
             '*oc.add(1) = code(u.partial_cmp(&v)); *ob = u == v; *ob.add(1) = u != v; *ob.add(2) = u < v; '
             '*ob.add(3) = u <= v; *ob.add(4) = u > v; *ob.add(5) = u >= v;')

    def spec(c):
        lt, e, gt = lex(t, c.i['a'], c.i['b'])
        r = ite(lt, 0, ite(e, 1, ite(gt, 2, 3, 8), 8), 8)
        return dict(pc=[r], oc=[r, r], lt=[lt], le=[or_(lt, e)], gt=[gt], ge=[or_(gt, e)], pe=[e, not_(e)],
                    ob=[e, not_(e), lt, or_(lt, e), gt, or_(gt, e)])
    return Case('lexorder__%s' % t.name, args, body, spec, cost=t.n * 6)


def scalar_mask(t):
    args = dict(a=In(t), b=In(t), o=Out('u8', 2), r=Out('bool', 6), v=Out(t, 2), q=In('bool'))
    body = ('let (x, y) = (*a, *b); *o = code(x.partial_cmp(&y)); *o.add(1) = code(Some(x.cmp(&y))); *r = x == y; '
            '*r.add(1) = x != y; *r.add(2) = x < y; *r.add(3) = x <= y; *r.add(4) = x > y; *r.add(5) = x >= y; '
            '*v = %s::new(*q); *v.add(1) = if x.test() { %s::new(true) } else { Default::default() };' % (t.name, t.name))

    def spec(c):
        x, y = c.i['a'][0], c.i['b'][0]
        lt, e, gt = lex(t, [x], [y])
        r = ite(lt, 0, ite(e, 1, 2, 8), 8)
        return dict(o=[r, r], r=[lane_cmp(t, o, x, y) for o in OPS], v=[c.i['q'][0], x])
    return Case('scalarmask__%s' % t.name, args, body, spec)


class P(Prop):
    id = 'C03'
    extra_src = CODE
    bounds = ('every integer, float and mask vector type, all lane values (NaN, infinities, both zeros, subnormals '
              'included); masks hold canonical lanes; loops over lanes fully unrolled')

    def configs(self, tier):
        return ['base', 'dev', 'avx2'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        cs = []
        for t in ALL:
            cs += [vertical(t), equality(t)]
            if t.kind != 'f':
                cs.append(order(t))
        for s in S.values():
            if s.kind == 'm':
                cs.append(scalar_mask(s))
        return cs


PROP = P()
