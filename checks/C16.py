"""Bit casts and array conversions."""
from vsym.dsl import *
from checks.convtab import BITS

ARCH = {16: ['__m128', '__m128i', '__m128d'], 32: ['__m256', '__m256i', '__m256d']}


def allbytes(t, xs):
    r = []
    for x in xs:
        m = ite(x, mask(t.w), 0, t.w) if t.kind == 'm' else x
        r += [byte_of(m, t.w, k) for k in range(t.w // 8)]
    return r


def bitcast(src, dst):
    args = dict(a=In(src), o=Out('u8', dst.size), q=Out('u8', dst.size))

    def spec(c):
        b = allbytes(src, c.i['a'])
        return dict(o=b, q=b)
    return Case('bits__%s_%s' % (src.name, dst.name), args,
                'let x: {d} = (*a).into_bits(); *(o as *mut {d}) = x; let y: {d} = FromBits::from_bits(*a); '
                '*(q as *mut {d}) = y;'.format(d=dst.name), spec, cost=src.size, cls='from_bits')


def arch_to(src, arch):
    args = dict(a=In(src), o=Out('u8', src.size), q=Out('u8', src.size))

    def spec(c):
        b = allbytes(src, c.i['a'])
        return dict(o=b, q=b)
    return Case('to_arch__%s_%s' % (src.name, arch), args,
                'use core::arch::x86_64::*; let x: {d} = (*a).into_bits(); *(o as *mut {d}) = x; '
                'let y: {d} = FromBits::from_bits(*a); *(q as *mut {d}) = y;'.format(d=arch), spec, cost=src.size,
                cls='into_arch')


def arch_from(arch, dst):
    args = dict(a=In('u8', dst.size), o=Out('u8', dst.size), q=Out('u8', dst.size))

    def spec(c):
        return dict(o=c.i['a'], q=c.i['a'])
    return Case('from_arch__%s_%s' % (arch, dst.name), args,
                'use core::arch::x86_64::*; let v = *(a as *const {s}); let x: {d} = v.into_bits(); '
                '*(o as *mut {d}) = x; let y: {d} = FromBits::from_bits(v); *(q as *mut {d}) = y;'.format(
                    s=arch, d=dst.name), spec, cost=dst.size, cls='from_arch')


def array(t):
    args = dict(a=In(t), v=Out(t), w=Out(t), o=Out('u8', t.size), q=Out('u8', t.size))
    body = ('let arr: [{e}; {n}] = *(a as *const [{e}; {n}]); *v = {t}::from(arr); *w = arr.into(); '
            'let x: [{e}; {n}] = <[{e}; {n}]>::from(*a); *(o as *mut [{e}; {n}]) = x; '
            'let y: [{e}; {n}] = (*a).into(); *(q as *mut [{e}; {n}]) = y;').format(t=t.name, e=t.elem, n=t.n)

    def spec(c):
        b = allbytes(t, c.i['a'])
        xs = c.i['a']
        ex = [bits(x) for x in xs] if t.kind == 'f' else list(xs)
        return dict(v=ex, w=ex, o=b, q=b)
    return Case('array__%s' % t.name, args, body, spec, cost=t.size)


OFFERED = '''
pub trait NotOffered { const YES: bool = false; }
impl<T: ?Sized> NotOffered for T {}
pub struct Off<A, B>(core::marker::PhantomData<(A, B)>);
impl<A, B: FromBits<A>> Off<A, B> { pub const YES: bool = true; }
'''


def unsound(dst):
    """a mask is not offered as a bit cast of anything whose bit patterns are not all masks"""
    src = [t.name for t in ALL if t.size == dst.size and t is not dst and not (t.kind == 'm' and t.w >= dst.w)]
    src += ['core::arch::x86_64::' + h for h in ARCH.get(dst.size, [])] + ['[u8; %d]' % dst.size]
    body = ' '.join('*o.add(%d) = Off::<%s, %s>::YES;' % (k, t, dst.name) for k, t in enumerate(src))
    return Case('unsound__%s' % dst.name, dict(o=Out('bool', len(src))), body, lambda c: dict(o=[False] * len(src)))


class P(Prop):
    id = 'C16'
    extra_src = OFFERED
    bounds = ('every pair of equally sized vector types for which a bit cast is offered, the six x86_64 register types in '
              'both directions, and the array of every vector type; all bit patterns')

    def configs(self, tier):
        return ['base', 'dev', 'avx2'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        cs = [bitcast(T[a], T[b]) for a, b in BITS]
        for size, archs in ARCH.items():
            for t in ALL:
                if t.size != size or 'size' in t.elem:
                    continue
                for h in archs:
                    cs.append(arch_to(t, h))
                    if t.kind != 'm':
                        cs.append(arch_from(h, t))
        return cs + [array(t) for t in ALL] + [unsound(t) for t in MASKS]


PROP = P()
