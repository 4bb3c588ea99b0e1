"""Numeric casts and lossless conversions."""
from vsym.dsl import *
from checks.convtab import FROM


def f2i_sat(c, src, dst, x):
    """`as` semantics: truncate towards zero, saturate, NaN -> 0"""
    s, fw, w = dst.signed, src.w, dst.w
    ok = c.fp.f2i_inrange(s, x, fw, w)
    neg = fpm.signbit(x, fw)
    lo, hi = (1 << (w - 1), mask(w - 1)) if s else (0, mask(w))
    return ite(fpm.isnan(x, fw), 0, ite(ok, c.fp.f2i_raw(s, x, fw, w), ite(neg, lo, hi, w), w), w)


def conv(c, src, dst, x):
    """expected destination lane for source lane x"""
    if dst.kind == 'm':
        if src.kind == 'm':
            return x
        if src.kind == 'f':
            return not_(fpm.iszero(x, src.w))
        return not_(eq(x, 0, src.w))
    if src.kind == 'm':
        # a true lane is all ones, i.e. -1
        if dst.kind == 'f':
            return ite(x, NEG1[dst.w], 0, dst.w)
        return ite(x, mask(dst.w), 0, dst.w)
    if src.kind == 'f' and dst.kind == 'f':
        return c.fp.fext(x, src.w, dst.w) if src.w != dst.w else bits(x)
    if src.kind == 'f':
        return f2i_sat(c, src, dst, x)
    if dst.kind == 'f':
        return c.fp.i2f(src.signed, x, src.w, dst.w)
    if src.w == dst.w:
        return x
    if src.w > dst.w:
        return trunc(x, src.w, dst.w)
    return sext(x, src.w, dst.w) if src.signed else zext(x, src.w, dst.w)


NEG1 = {32: 0xbf800000, 64: 0xbff0000000000000}


def cast(src, dst):
    return Case('cast__%s_%s' % (src.name, dst.name), dict(a=In(src), o=Out(dst), q=Out(dst)),
                '*o = (*a).cast(); *q = FromCast::from_cast(*a);',
                lambda c: dict(o=[conv(c, src, dst, x) for x in c.i['a']], q=[conv(c, src, dst, x) for x in c.i['a']]),
                cost=src.n * (3 if src.kind == 'f' and dst.kind in 'iu' else 1), cls='cast_%s%s' % (src.kind, dst.kind))


def lossless(src, dst):
    return Case('from__%s_%s' % (src.name, dst.name), dict(a=In(src), o=Out(dst), q=Out(dst)),
                '*o = From::from(*a); *q = (*a).into();',
                lambda c: dict(o=[conv(c, src, dst, x) for x in c.i['a']], q=[conv(c, src, dst, x) for x in c.i['a']]),
                cost=src.n, cls='from_%s%s' % (src.kind, dst.kind))


OFFERED = '''
pub trait NotOffered { const YES: bool = false; }
impl<T: ?Sized> NotOffered for T {}
pub struct Off<A, B>(core::marker::PhantomData<(A, B)>);
impl<A, B: From<A>> Off<A, B> { pub const YES: bool = true; }
'''


def preserves(src, dst):
    """every value of src is a value of dst"""
    if src.kind == 'm' or dst.kind == 'm':
        return src.kind == dst.kind
    if 'size' in src.elem or 'size' in dst.elem:
        return False
    if dst.kind == 'f':
        return src.w < dst.w if src.kind == 'f' else src.w <= {32: 24, 64: 53}[dst.w]
    if src.kind == 'f':
        return False
    if src.signed and not dst.signed:
        return False
    return src.w < dst.w


def lossy(dst):
    """no conversion is offered as lossless that is not"""
    src = [t for t in ALL if t.n == dst.n and t is not dst and not preserves(t, dst)]
    body = ' '.join('*o.add(%d) = Off::<%s, %s>::YES;' % (k, t.name, dst.name) for k, t in enumerate(src))
    return Case('lossy__%s' % dst.name, dict(o=Out('bool', len(src))), body, lambda c: dict(o=[False] * len(src)))


class P(Prop):
    id = 'C15'
    extra_src = OFFERED
    bounds = ('every pair of vector types with the same lane count (1164 casts) and every lossless conversion, all lane '
              'values; out-of-range floats saturate and NaN becomes zero, as `as` does')

    def configs(self, tier):
        return ['base', 'dev', 'avx2'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        cs = [cast(a, b) for a in ALL for b in ALL if a.n == b.n and a is not b]
        cs += [lossless(T[a], T[b]) for a, b in FROM]
        cs += [lossy(t) for t in ALL]
        return cs


PROP = P()
