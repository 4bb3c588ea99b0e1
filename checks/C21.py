"""Scalar masks are Booleans; vector types have the lanes, size and element type in their names."""
from vsym.dsl import *
from checks.C03 import CODE, OPS, lex, lane_cmp


def scalar_mask(t):
    args = dict(a=In(t), b=In(t), q=In('bool'), nw=Out(t), df=Out(t), cl=Out(t), ts=Out('bool', 5), o=Out('u8', 2),
                r=Out('bool', 6), mm=Out(t, 2))
    body = ('let (x, y) = (*a, *b); *nw = {t}::new(*q); *df = Default::default(); *cl = Clone::clone(&x); '
            '*ts = x.test(); *ts.add(1) = Mask::test(&x); *ts.add(2) = {t}::new(*q).test(); '
            '*ts.add(3) = <{t} as Default>::default().test(); *ts.add(4) = {t}::new(*q) == x; '
            '*o = code(x.partial_cmp(&y)); *o.add(1) = code(Some(x.cmp(&y))); '
            '*r = x == y; *r.add(1) = x != y; *r.add(2) = x < y; *r.add(3) = x <= y; *r.add(4) = x > y; '
            '*r.add(5) = x >= y; *mm = Ord::min(x, y); *mm.add(1) = Ord::max(x, y);').format(t=t.name)

    def spec(c):
        x, y, q = c.i['a'][0], c.i['b'][0], c.i['q'][0]
        lt, e, gt = lex(t, [x], [y])
        r = ite(lt, 0, ite(e, 1, 2, 8), 8)
        return dict(nw=[q], df=[False], cl=[x], ts=[x, x, q, False, not_(xor_(q, x))], o=[r, r],
                    r=[lane_cmp(t, o, x, y) for o in OPS], mm=[and_(x, y), or_(x, y)])
    return Case('scalar__%s' % t.name, args, body, spec)


def layout(name, elem, n, w):
    """constants of the type, and a copy made through Clone"""
    u = T['u%dx%d' % (w, n)] if 'u%dx%d' % (w, n) in T else T['usizex%d' % n]
    args = dict(a=In('u8', u.size), k=Out('usize', 6), cl=Out('u8', u.size))
    body = ('*k = core::mem::size_of::<{t}>(); *k.add(1) = core::mem::align_of::<{t}>(); *k.add(2) = {t}::lanes(); '
            '*k.add(3) = <{t} as SimdVector>::LANES; *k.add(4) = core::mem::size_of::<<{t} as SimdVector>::Element>(); '
            '*k.add(5) = <[{e}; {n}] as SimdArray>::N; '
            'let s: Simd<[{e}; {n}]> = Clone::clone(&*(a as *const {t})); *(cl as *mut {t}) = s;').format(
                t=name, e=elem, n=n)

    def spec(c):
        return dict(k=[u.size, u.size, n, n, w // 8, n], cl=list(c.i['a']))
    return Case('layout__%s' % name.replace('::<', '_').replace('>', ''), args, body, spec, cost=u.size)


class P(Prop):
    id = 'C21'
    extra_src = CODE
    bounds = 'every scalar mask type and both values; every vector and pointer-vector type and every bit pattern'

    def configs(self, tier):
        return ['base', 'dev', 'avx2'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        cs = [scalar_mask(s) for s in S.values() if s.kind == 'm']
        cs += [layout(t.name, t.elem, t.n, t.w) for t in ALL]
        cs += [layout('%sx%d::<u16>' % (k, n), '%s u16' % q, n, 64)
               for k, q in (('cptr', '*const'), ('mptr', '*mut')) for n in (2, 4, 8)]
        return cs


PROP = P()
