"""Vectors of pointers: lane operations, address arithmetic, masked gather and scatter."""
from vsym.dsl import *

# element types and their sizes
MAXI = (1 << 63) - 1
ELEM = {'()': 0, 'u8': 1, 'i32': 4, 'u64': 8, '[u8; 3]': 3, 'u128': 16}
PTRS = [(k, n) for k in ('cptr', 'mptr') for n in (2, 4, 8)]


def nm(k, n, e=''):
    return '%sx%d%s' % (k, n, '_' + (''.join(c for c in e if c.isalnum()) or 'unit') if e else '')


def V(k, n, e):
    return '%sx%d<%s>' % (k, n, e)


def P_(k, e):
    return ('*const ' if k == 'cptr' else '*mut ') + e


U = {n: T['usizex%d' % n] for n in (2, 4, 8)}
I = {n: T['isizex%d' % n] for n in (2, 4, 8)}
M = {n: T['msizex%d' % n] for n in (2, 4, 8)}


def in_range(a, off):
    """address + off (64-bit, itself in range) does not wrap around the address space"""
    q = arith('add', a, off, 64)
    p = icmp('sge', off, 0, 64)
    return or_(and_(p, icmp('uge', q, a, 64)), and_(not_(p), icmp('ult', q, a, 64)))


def ok_count(c, s, signed):
    """count * size fits an isize"""
    m = MAXI // s if s else MAXI
    if signed:
        return and_(icmp('sle', c, m, 64), icmp('sge', c, (-m) & mask(64), 64))
    return icmp('ule', c, m, 64)


def arith_ops(k, n, e):
    """offset & co: address + count * size, modulo 2^64; the unsafe forms within their documented preconditions"""
    s = ELEM[e]
    out = []
    ops = [('offset', 'isize', 1), ('wrapping_offset', 'isize', 1), ('add', 'usize', 1), ('wrapping_add', 'usize', 1),
           ('sub', 'usize', -1), ('wrapping_sub', 'usize', -1)]
    for f, c, sg in ops:
        ct = T['%sx%d' % (c, n)]

        def off(x, sg=sg):
            m = arith('mul', x, s, 64)
            return m if sg > 0 else arith('sub', 0, m, 64)

        def spec(x, off=off):
            return dict(o=[arith('add', a, off(b), 64) for a, b in zip(x.i['a'], x.i['c'])])

        def pre(x, off=off, c=c):
            return and_(*[q for a, b in zip(x.i['a'], x.i['c'])
                          for q in (ok_count(b, s, c == 'isize'), in_range(a, off(b)))])
        out.append(Case('%s__%s' % (f, nm(k, n, e)), dict(a=In(U[n]), c=In(ct), o=Out(U[n])),
                        '*(o as *mut {v}) = (*(a as *const {v})).{f}(*c);'.format(v=V(k, n, e), f=f), spec, cost=n,
                        cls='ptr_' + f, pre=None if f.startswith('wrapping') else pre))
    if not s:
        return out

    def spec(x):
        return dict(o=[divrem_raw('sdiv', arith('sub', a, b, 64), s, 64) for a, b in zip(x.i['a'], x.i['b'])])
    out.append(Case('wrapping_offset_from__%s' % nm(k, n, e), dict(a=In(U[n]), b=In(U[n]), o=Out(I[n])),
                    '*o = (*(a as *const {v})).wrapping_offset_from(*(b as *const {v}));'.format(v=V(k, n, e)), spec,
                    cost=n * (20 if s == 3 else 2), cls='ptr_offset_from'))

    # the unsafe form: a is b moved by some number k of elements (the quotient is then k, the inverse of offset)
    def pre(x):
        return and_(*[q for a, b, d in zip(x.i['a'], x.i['b'], x.i['k'])
                      for q in (ok_count(d, s, True), in_range(b, arith('mul', d, s, 64)),
                                eq(a, arith('add', b, arith('mul', d, s, 64), 64), 64))])
    out.append(Case('offset_from__%s' % nm(k, n, e), dict(a=In(U[n]), b=In(U[n]), k=In(I[n]), o=Out(I[n])),
                    'let _ = k; *o = (*(a as *const {v})).offset_from(*(b as *const {v}));'.format(v=V(k, n, e)),
                    spec, pre=pre, cost=n * (20 if s == 3 else 2), cls='ptr_offset_from'))
    return out


def lanes(k, n, e):
    v, p = V(k, n, e), P_(k, e)
    d = dict(v=v, p=p, n=n)
    out = []
    N = nm(k, n, e)
    args = ', '.join('*(a as *const %s).add(%d)' % (p, i) for i in range(n))
    out.append(Case('new__' + N, dict(a=In(U[n]), o=Out(U[n])), '*(o as *mut {v}) = <{v}>::new({a});'.format(a=args, **d),
                    lambda c: dict(o=c.i['a']), cost=n))
    out.append(Case('splat__' + N, dict(a=Val('usize'), o=Out(U[n]), z=Out(U[n]), y=Out(U[n])),
                    '*(o as *mut {v}) = <{v}>::splat(a as {p}); *(z as *mut {v}) = <{v}>::null(); '
                    '*(y as *mut {v}) = <{v}>::default();'.format(**d),
                    lambda c: dict(o=[c.i['a']] * n, z=[0] * n, y=[0] * n), cost=n))
    out.append(Case('extract__' + N, dict(a=In(U[n]), i=Val(), o=Out('usize')),
                    '*o = (*(a as *const {v})).extract(i) as usize;'.format(**d), lambda c: sel(c, n), cost=n))
    out.append(Case('extract_unchecked__' + N, dict(a=In(U[n]), i=Val(), o=Out('usize')),
                    '*o = (*(a as *const {v})).extract_unchecked(i) as usize;'.format(**d),
                    lambda c: sel(c, n), pre=lambda c: icmp('ult', c.i['i'], n, 64), cost=n))

    def rep(c):
        c.panic = not_(icmp('ult', c.i['i'], n, 64))
        return dict(o=[ite(eq(c.i['i'], j, 64), c.i['x'], y, 64) for j, y in enumerate(c.i['a'])])
    out.append(Case('replace__' + N, dict(a=In(U[n]), i=Val(), x=Val(), o=Out(U[n])),
                    '*(o as *mut {v}) = (*(a as *const {v})).replace(i, x as {p});'.format(**d), rep, cost=n))
    out.append(Case('replace_unchecked__' + N, dict(a=In(U[n]), i=Val(), x=Val(), o=Out(U[n])),
                    '*(o as *mut {v}) = (*(a as *const {v})).replace_unchecked(i, x as {p});'.format(**d), rep,
                    pre=lambda c: icmp('ult', c.i['i'], n, 64), cost=n))
    out.append(Case('is_null__' + N, dict(a=In(U[n]), o=Out(M[n])), '*o = (*(a as *const {v})).is_null();'.format(**d),
                    lambda c: dict(o=[eq(x, 0, 64) for x in c.i['a']]), cost=n))
    for f, pr in (('eq', 'eq'), ('ne', 'ne'), ('lt', 'ult'), ('le', 'ule'), ('gt', 'ugt'), ('ge', 'uge')):
        out.append(Case('%s__%s' % (f, N), dict(a=In(U[n]), b=In(U[n]), o=Out(M[n])),
                        '*o = <{v}>::{f}(*(a as *const {v}), *(b as *const {v}));'.format(f=f, **d),
                        (lambda pr: lambda c: dict(o=[icmp(pr, x, y, 64) for x, y in zip(c.i['a'], c.i['b'])]))(pr),
                        cost=n))

    def whole(c):
        q = and_(*[eq(x, y, 64) for x, y in zip(c.i['a'], c.i['b'])])
        return dict(e=[q], f=[not_(q)], g=[q], h=[not_(q)])
    out.append(Case('partial_eq__' + N, dict(a=In(U[n]), b=In(U[n]), e=Out('bool'), f=Out('bool'), g=Out('bool'),
                                             h=Out('bool')),
                    'let (x, y) = (*(a as *const {v}), *(b as *const {v})); *e = x == y; *f = x != y; '
                    '*g = PartialEq::eq(&x, &y); *h = PartialEq::ne(&x, &y);'.format(**d), whole, cost=n))
    out.append(Case('array__' + N, dict(a=In(U[n]), o=Out(U[n]), q=Out(U[n])),
                    'let arr = *(a as *const [{p}; {n}]); *(o as *mut {v}) = <{v}>::from(arr); '
                    'let b: [{p}; {n}] = (*(a as *const {v})).into(); *(q as *mut [{p}; {n}]) = b;'.format(**d),
                    lambda c: dict(o=c.i['a'], q=c.i['a']), cost=n))
    out.append(Case('shuffle1_dyn__' + N, dict(a=In(U[n]), i=In(U[n]), o=Out(U[n])),
                    '*(o as *mut {v}) = (*(a as *const {v})).shuffle1_dyn(*i);'.format(**d),
                    lambda c: dict(o=[pick(c.i['a'], x) for x in c.i['i']]),
                    pre=lambda c: and_(*[icmp('ult', x, n, 64) for x in c.i['i']]), cost=n * n))
    # static shuffles: reverse, rotate, interleave with the second operand
    for tag, ix in (('rev', list(range(n))[::-1]), ('rot', [(j + 1) % n for j in range(n)]),
                    ('two', [j // 2 + (n if j % 2 else 0) for j in range(n)]), ('hi', [2 * n - 1 - j for j in range(n)])):
        out.append(Case('shuffle_%s__%s' % (tag, N), dict(a=In(U[n]), b=In(U[n]), o=Out(U[n])),
                        'let r: {v} = shuffle!(*(a as *const {v}), *(b as *const {v}), {ix}); *(o as *mut {v}) = r;'.format(
                            ix=ix, **d),
                        (lambda ix: lambda c: dict(o=[(list(c.i['a']) + list(c.i['b']))[j] for j in ix]))(ix), cost=n,
                        cls='ptr_shuffle'))
    for m in MASKS:
        if m.n == n:
            out.append(Case('select__%s_%s' % (N, m.name), dict(m=In(m), a=In(U[n]), b=In(U[n]), o=Out(U[n])),
                            '*(o as *mut {v}) = (*m).select(*(a as *const {v}), *(b as *const {v}));'.format(**d),
                            lambda c: dict(o=[ite(q, x, y, 64) for q, x, y in zip(c.i['m'], c.i['a'], c.i['b'])]),
                            cost=n, cls='ptr_select'))
    # slices of pointers
    es = S['usize']

    def load_spec(c, al):
        s = c.i['s']
        c.panic = or_(icmp('ult', s.len, n, 64), not_(eq(arith('and', s.base, 8 * n - 1, 64), 0, 64)) if al else False)
        return dict(o=s.elems[:n])

    def store_spec(c, al):
        s = c.i['s']
        c.panic = or_(icmp('ult', s.len, n, 64), not_(eq(arith('and', s.base, 8 * n - 1, 64), 0, 64)) if al else False)
        return dict(s=list(c.i['a']) + s.elems[n:])
    for al in (True, False):
        w = 'aligned' if al else 'unaligned'
        out.append(Case('from_slice_%s__%s' % (w, N), dict(s=Slice(es, n + 1), o=Out(U[n])),
                        '*(o as *mut {v}) = <{v}>::from_slice_{w}(core::slice::from_raw_parts(s as *const {p}, s_len));'
                        .format(w=w, **d), (lambda al: lambda c: load_spec(c, al))(al), cost=n, cls='ptr_slice'))
        out.append(Case('write_to_slice_%s__%s' % (w, N), dict(a=In(U[n]), s=Slice(es, n + 2, mut=True)),
                        '(*(a as *const {v})).write_to_slice_{w}(core::slice::from_raw_parts_mut(s as *mut {p}, s_len));'
                        .format(w=w, **d), (lambda al: lambda c: store_spec(c, al))(al), cost=n, cls='ptr_slice'))
    # hash: the address bytes
    NB = 8 * n + 32

    def hspec(c):
        r = list(n.to_bytes(8, 'little'))
        for x in c.i['a']:
            r += [byte_of(x, 64, j) for j in range(8)]
        return dict(h=r + [0] * (NB - len(r)), m=[8 + 8 * n])
    out.append(Case('hash__' + N, dict(a=In(U[n]), h=Out('u8', NB), m=Out('usize')),
                    'use core::hash::Hash; core::ptr::write_bytes(h, 0, {NB}); let mut g = H {{ b: h, n: 0 }}; '
                    '(*(a as *const {v})).hash(&mut g); *m = g.n;'.format(NB=NB, **d), hspec, cost=n))
    return out


def sel(c, n):
    c.panic = not_(icmp('ult', c.i['i'], n, 64))
    return dict(o=[pick(c.i['a'], c.i['i'])])


def pick(xs, i, w=64):
    r = xs[-1]
    for j in range(len(xs) - 2, -1, -1):
        r = ite(eq(i, j, 64), xs[j], r, w)
    return r


def lanes_setup(k, n, e, mutp):
    """each enabled lane points at element i[k] of the buffer, each disabled lane holds an arbitrary address"""
    q = P_(k, e)
    return ('let mut p = [g_null::<{e}>() as {q}; {n}]; for j in 0..{n} {{ p[j] = if (*mk).extract(j) {{ '
            '(b as {q}).wrapping_add(*(i as *const usize).add(j)) }} else {{ *(z as *const usize).add(j) as {q} }}; }} '
            'let p = {v}::from(p);').format(e=e, q=q, n=n, v='%sx%d::<%s>' % (k, n, e))


K = 3


def gather(k, n, t, m):
    args = dict(b=Buf(S[t.elem], K), mk=In(m), i=In(U[n]), z=In(U[n]), d=In(t), o=Out(t))

    def spec(c):
        r = []
        for j in range(n):
            x = ite(c.i['mk'][j], pick(c.i['b'], c.i['i'][j], t.w), c.i['d'][j], t.w)
            r.append(bits(x) if t.kind == 'f' else x)
        return dict(o=r, b=[bits(x) if t.kind == 'f' else x for x in c.i['b']])
    return Case('gather__%s_%s_%s' % (nm(k, n), t.name, m.name), args,
                lanes_setup(k, n, t.elem, False) + ' *o = p.read(*mk, *d);', spec,
                pre=lambda c: and_(*[icmp('ult', x, K, 64) for x in c.i['i']]), cost=10 * n, cls='gather')


def scatter(n, t, m):
    args = dict(b=Buf(S[t.elem], K), mk=In(m), i=In(U[n]), z=In(U[n]), d=In(t))

    def spec(c):
        b = list(c.i['b'])
        for j in range(n):
            hit = [and_(c.i['mk'][j], eq(c.i['i'][j], e, 64)) for e in range(K)]
            b = [ite(h, c.i['d'][j], x, t.w) for h, x in zip(hit, b)]
        return dict(b=[bits(x) if t.kind == 'f' else x for x in b])
    return Case('scatter__mptrx%d_%s_%s' % (n, t.name, m.name), args,
                lanes_setup('mptr', n, t.elem, True) + ' p.write(*mk, *d);', spec,
                pre=lambda c: and_(*[icmp('ult', x, K, 64) for x in c.i['i']]), cost=10 * n, cls='scatter')


class P(Prop):
    id = 'C19'
    extra_src = '''
pub struct H { b: *mut u8, n: usize }
impl core::hash::Hasher for H {
    fn finish(&self) -> u64 { self.n as u64 }
    fn write(&mut self, x: &[u8]) { unsafe { core::ptr::copy_nonoverlapping(x.as_ptr(), self.b.add(self.n), x.len()); } self.n += x.len(); }
}
fn g_null<T>() -> *mut T { core::ptr::null_mut() }
'''
    bounds = ('the six pointer vector types over element sizes 0 (not for distances), 1, 3, 4, 8 and 16, all addresses and counts (the unsafe forms: all that '
              'meet their documented preconditions); gather/scatter '
              'over every non-mask lane type with 2, 4 or 8 lanes, every mask type for one of them, lanes pointing at any '
              'element of a %d-element buffer (so aliasing lanes are included) and disabled lanes holding any address' % K)
    assumptions = ('pointer vectors are examined as the vectors of their addresses; provenance is not modelled beyond '
                   'allocation bounds',)

    def configs(self, tier):
        return ['base', 'dev', 'avx2'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        cs = []
        for k, n in PTRS:
            for e in ELEM:
                cs += arith_ops(k, n, e)
            cs += lanes(k, n, 'i32')
            for t in ALL:
                if t.n == n and t.kind in 'iuf' and 'size' not in t.elem:
                    ms = [mask_of(t)]
                    if t.elem in ('i32', 'f64'):
                        ms = [m for m in MASKS if m.n == n]
                    for m in ms:
                        cs.append(gather(k, n, t, m))
                        if k == 'mptr':
                            cs.append(scatter(n, t, m))
        return cs


PROP = P()
