"""Lane-wise floating-point math, categories and constants."""
import math
import struct
from vsym.dsl import *

PI = {32: 0x40490fdb, 64: 0x400921fb54442d18}
ONE = {32: 0x3f800000, 64: 0x3ff0000000000000}


def unary(f, t, sp, ref, cost=1):
    def spec(c):
        return dict(o=[sp(c, x, t.w) for x in c.i['a']])
    r = 'let x = a as *const {e}; let y = o as *mut {e}; for k in 0..{n} {{ let v = *x.add(k); *y.add(k) = {r}; }}'.format(
        e=t.elem, n=t.n, r=ref)
    return Case('%s__%s' % (f, t.name), dict(a=In(t), o=Out(t)), '*o = (*a).%s();' % f, spec, cost=t.n * cost, ref=r)


def UN(t):
    e = t.elem
    return [
        unary('abs', t, lambda c, x, w: bits(fpm.fabs(x, w)), 'v.abs()'),
        unary('sqrt', t, lambda c, x, w: c.fp.sqrt(x, w), 'v.sqrt()'),
        unary('sqrte', t, lambda c, x, w: c.fp.sqrt(x, w), 'v.sqrt()'),
        unary('rsqrte', t, lambda c, x, w: c.fp.op2('fdiv', ONE[w], c.fp.sqrt(x, w), w), '1.0 / v.sqrt()'),
        unary('recpre', t, lambda c, x, w: c.fp.op2('fdiv', ONE[w], x, w), '1.0 / v'),
        unary('sin', t, lambda c, x, w: c.fp.fn('sin', [x], w), 'v.sin()'),
        unary('cos', t, lambda c, x, w: c.fp.fn('cos', [x], w), 'v.cos()'),
        unary('exp', t, lambda c, x, w: c.fp.fn('exp', [x], w), 'v.exp()'),
        unary('ln', t, lambda c, x, w: c.fp.fn('log', [x], w), 'v.ln()'),
        unary('tanh', t, lambda c, x, w: c.fp.fn('tanh', [x], w), '<%s>::splat(v).tanh().extract(0)' % t.name),
        unary('sin_pi', t, lambda c, x, w: c.fp.fn('sin', [c.fp.op2('fmul', x, PI[w], w)], w),
              '(v * core::%s::consts::PI).sin()' % e),
        unary('cos_pi', t, lambda c, x, w: c.fp.fn('cos', [c.fp.op2('fmul', x, PI[w], w)], w),
              '(v * core::%s::consts::PI).cos()' % e),
    ]


def sin_cos_pi(t):
    def spec(c):
        y = [c.fp.op2('fmul', x, PI[t.w], t.w) for x in c.i['a']]
        return dict(s=[c.fp.fn('sin', [v], t.w) for v in y], q=[c.fp.fn('cos', [v], t.w) for v in y])
    ref = ('let x = a as *const {e}; for k in 0..{n} {{ let v = *x.add(k) * core::{e}::consts::PI; '
           '*(s as *mut {e}).add(k) = v.sin(); *(q as *mut {e}).add(k) = v.cos(); }}').format(e=t.elem, n=t.n)
    return Case('sin_cos_pi__%s' % t.name, dict(a=In(t), s=Out(t), q=Out(t)),
                'let r = (*a).sin_cos_pi(); *s = r.0; *q = r.1;', spec, cost=t.n, ref=ref)


def powf(t):
    def spec(c):
        return dict(o=[c.fp.fn('pow', [x, y], t.w) for x, y in zip(c.i['a'], c.i['b'])])
    ref = ('let x = a as *const {e}; for k in 0..{n} {{ *(o as *mut {e}).add(k) = '
           '(*x.add(k)).powf(*(b as *const {e}).add(k)); }}').format(e=t.elem, n=t.n)
    return Case('powf__%s' % t.name, dict(a=In(t), b=In(t), o=Out(t)), '*o = (*a).powf(*b);', spec, cost=t.n, ref=ref)


def mul_add(t):
    def spec(c):
        return dict(o=[c.fp.fma(x, y, z, t.w) for x, y, z in zip(c.i['a'], c.i['b'], c.i['c'])])
    return Case('mul_add__%s' % t.name, dict(a=In(t), b=In(t), c=In(t), o=Out(t)), '*o = (*a).mul_add(*b, *c);', spec,
                cost=t.n)


def mul_adde(t):
    """fused or not, per lane"""
    def spec(c):
        def one(x, y, z):
            f1 = c.fp.fma(x, y, z, t.w)
            f2 = c.fp.op2('fadd', c.fp.op2('fmul', x, y, t.w), z, t.w)
            return lambda r: or_(fpm.same_mod_nan(r, f1, t.w), fpm.same_mod_nan(r, f2, t.w))
        return dict(o=[one(x, y, z) for x, y, z in zip(c.i['a'], c.i['b'], c.i['c'])])
    return Case('mul_adde__%s' % t.name, dict(a=In(t), b=In(t), c=In(t), o=Out(t)), '*o = (*a).mul_adde(*b, *c);', spec,
                cost=t.n * 2)


def category(t):
    m = mask_of(t)
    out = []
    for f, p in (('is_nan', fpm.isnan), ('is_infinite', fpm.isinf), ('is_finite', fpm.isfinite)):
        out.append(Case('%s__%s' % (f, t.name), dict(a=In(t), o=Out(m)), '*o = (*a).%s();' % f,
                        (lambda p: lambda c: dict(o=[p(x, t.w) for x in c.i['a']]))(p), cost=t.n))
    return out


def b32(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


def b64(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


CONST = dict(PI=math.pi, FRAC_PI_2=math.pi / 2, FRAC_PI_3=1.04719755119659774615421446109316763,
             FRAC_PI_4=math.pi / 4, FRAC_PI_6=0.52359877559829887307710723054658381, FRAC_PI_8=math.pi / 8,
             FRAC_1_PI=0.318309886183790671537767526745028724, FRAC_2_PI=0.636619772367581343075535053490057448,
             FRAC_2_SQRT_PI=1.12837916709551257389615890312154517, SQRT_2=1.41421356237309504880168872420969808,
             FRAC_1_SQRT_2=0.707106781186547524400844362104849039, E=math.e, LOG2_E=1.44269504088896340735992468100189214,
             LOG10_E=0.434294481903251827651128918916605082, LN_2=0.693147180559945309417232121458176568,
             LN_10=2.30258509299404568401799145468436421)
SPEC = {32: dict(EPSILON=0x34000000, MIN=0xff7fffff, MIN_POSITIVE=0x00800000, MAX=0x7f7fffff, INFINITY=0x7f800000,
                 NEG_INFINITY=0xff800000),
        64: dict(EPSILON=0x3cb0000000000000, MIN=0xffefffffffffffff, MIN_POSITIVE=0x0010000000000000,
                 MAX=0x7fefffffffffffff, INFINITY=0x7ff0000000000000, NEG_INFINITY=0xfff0000000000000)}


def consts(t):
    vals = dict(SPEC[t.w])
    for k, v in CONST.items():
        vals[k] = b32(v) if t.w == 32 else b64(v)
    names = sorted(vals)
    args = {'c_' + n: Out(t) for n in names}
    args['nan'] = Out(t)
    body = ' '.join('*c_{n} = {t}::{n};'.format(n=n, t=t.name) for n in names) + ' *nan = %s::NAN;' % t.name

    def spec(c):
        d = {'c_' + n: [bits(vals[n])] * t.n for n in names}
        d['nan'] = [lambda a: fpm.isnan(a, t.w)] * t.n
        return d
    return Case('consts__%s' % t.name, args, body, spec, cost=t.n)


class P(Prop):
    id = 'C20'
    bounds = ('every float vector type, all lane values; elementary functions are uninterpreted scalar functions, so what is '
              'decided is that each result lane is that function of the same input lane(s) and of nothing else')
    assumptions = ('sin, cos, exp, log, pow and tanh of the platform and of the libm crate are uninterpreted; the optional '
                   'sleef-sys back end is not available offline and is not encoded',)

    def configs(self, tier):
        return ['base', 'dev', 'avx2fma'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        cs = []
        for t in FLOATS:
            cs += UN(t) + [sin_cos_pi(t), powf(t), mul_add(t), mul_adde(t)] + category(t) + [consts(t)]
        return cs


PROP = P()
