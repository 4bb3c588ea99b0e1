"""Formatting: the type name and every lane, in order, with the caller's options; errors propagate."""
from vsym.dsl import *
from vsym import fmtstub

TRAITS = ['Debug', 'LowerHex', 'UpperHex', 'Octal', 'Binary']
SPECS = {'Debug': ['{:?}', '{:#?}', '{:7?}', '{:+?}', '{:08x?}', '{:.3?}', '{:*<9?}', '{:>4.1?}'], 'LowerHex': ['{:x}', '{:#x}', '{:#012x}', '{:_^5x}'],
         'UpperHex': ['{:X}', '{:#X}', '{:#012X}', '{:_^5X}'], 'Octal': ['{:o}', '{:#o}', '{:#012o}', '{:_^5o}'],
         'Binary': ['{:b}', '{:#b}', '{:#012b}', '{:_^5b}']}

SRC = '''
pub struct W { pub n: usize, pub lim: usize, pub h: u64, pub dead: bool }
impl core::fmt::Write for W {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if self.dead { self.h = self.h.wrapping_mul(31) ^ 0x55; return Err(core::fmt::Error); }
        for &b in s.as_bytes() {
            if self.n == self.lim { self.dead = true; return Err(core::fmt::Error); }
            self.h = (self.h ^ b as u64).wrapping_mul(0x100000001b3);
            self.n += 1;
        }
        Ok(())
    }
}
'''


def val_ok(e, kind, ty, x, w, f):
    """event e prints value x of rust type ty with trait kind through formatter f"""
    if e.kind != kind or e.ty != ty or e.fmt != f:
        return False
    if kind == 'bool':
        return eq(e.val, ite(x, 1, 0, 8), 8)
    return eq(e.val, x, w)


def match(evs, want):
    """condition that the events are a prefix of `want` (complete unless an error ended them)"""
    ok = True
    i, pos = 0, 0
    err = False
    for e in evs:
        if err:
            return False        # wrote again after an error
        if e.kind == 'err':
            err = True
            continue
        if e.kind == 'lit':
            t = e.val
            while t:
                if i >= len(want) or type(want[i]) is not str:
                    return False
                rest = want[i][pos:]
                k = min(len(rest), len(t))
                if rest[:k] != t[:k]:
                    return False
                t = t[k:]
                pos += k
                if pos == len(want[i]):
                    i, pos = i + 1, 0
            continue
        if i >= len(want) or type(want[i]) is str:
            return False
        ok = and_(ok, val_ok(e, *want[i]))
        if ok is False:
            return False
        i += 1
    if not err and i != len(want):
        return False
    return ok


def spec(case_args, want):
    def f(c):
        def ev(s, c):
            w = want(c)
            failed = any(e.kind == 'err' for e in s.ev)
            r = case_args['r'].final(c.E, s)[0]
            return [('wrong output', not_(match(s.ev, w))),
                    ('error not propagated' if failed else 'spurious error',
                     not_(eq(r, 1 if failed else 0, 8)))]
        return {'%ev': ev} if c.E is not None else {}
    return f


def native(t, vty, ety, tr, lane, head, tail=')'):
    """run the real formatting machinery on the concrete vector, with every output-length limit"""
    def go(conc):
        def body(write):
            b = 'let mut q = 0usize;'
            for s in SPECS[tr]:
                b += ('let mut lim = 0usize; let mut acc = 0u64; loop { let mut w = W { n: 0, lim, h: 0xcbf29ce484222325, '
                      'dead: false }; let r: core::fmt::Result = (|| { ' + write(s) + ' })(); '
                      'acc = acc.wrapping_mul(0x9e3779b97f4a7c15) ^ w.h ^ (r.is_err() as u64); '
                      'if r.is_ok() { acc ^= (w.n as u64) << 40; break; } lim += 1; if lim > 20000 { acc = 1; break; } } '
                      '*z.add(q) = acc; q += 1; ')
            return b
        v = body(lambda s: 'use core::fmt::Write; write!(w, "%s", *(a as *const %s))' % (s, vty))

        def refw(s):
            n = t.n
            r = 'use core::fmt::Write; w.write_str(%s)?; ' % head
            for k in range(n):
                r += ('w.write_str(", ")?; ' if k else '') + 'write!(w, "%s", %s)?; ' % (s, lane(k))
            return r + 'w.write_str("%s")' % tail
        sub = Case('fmt_replay', dict(a=In(t), z=Out('u64', len(SPECS[tr]))), v,
                   lambda c: dict(z=[lambda x: False] * len(SPECS[tr])), ref=body(refw))
        return sub, dict(a=conc['a'], z=None)
    return go


def vec(t, tr):
    args = dict(a=In(t), f=Opaque("core::fmt::Formatter<'static>"), r=Out('u8'))

    def want(c):
        w = [t.name + '(']
        for k, x in enumerate(c.i['a']):
            if k:
                w.append(', ')
            w.append(('bool', 'bool', x, 8, 'f') if t.kind == 'm' else (tr, t.elem, x, t.w, 'f'))
        w.append(')')
        return w
    body = '*r = core::fmt::{tr}::fmt(&*a, &mut *f).is_err() as u8;'.format(tr=tr)
    lane = (lambda k: '(*(a as *const u%d).add(%d) != 0)' % (t.w, k)) if t.kind == 'm' else \
        (lambda k: '*(a as *const %s).add(%d)' % (t.elem, k))
    return Case('%s__%s' % (tr, t.name), args, body, spec(args, want), cost=t.n * t.n,
                native=native(t, t.name, t.elem, tr, lane, '"%s("' % t.name), cls=tr)


def ptr(k, n, e):
    t = T['usizex%d' % n]
    args = dict(a=In(t), f=Opaque("core::fmt::Formatter<'static>"), r=Out('u8'))
    q = '*const' if k == 'cptr' else '*mut'
    name = '%sx%d' % (k, n)

    def want(c):
        w = ['%s<%s>(' % (name, e)]
        for j, x in enumerate(c.i['a']):
            if j:
                w.append(', ')
            w.append(('Pointer', 'ptr', x, 64, 'f'))
        w.append(')')
        return w
    body = '*r = core::fmt::Debug::fmt(&*(a as *const {v}<{e}>), &mut *f).is_err() as u8;'.format(v=name, e=e)
    return Case('Debug__%s_%s' % (name, e), args, body, spec(args, want), cost=n * n, cls='Debug',
                native=native(t, '%s<%s>' % (name, e), '', 'Debug', lambda j: '*(a as *const %s %s).add(%d)' % (q, e, j),
                              '"%s<%s>("' % (name, e)))


def scalar_mask(t):
    args = dict(a=In(t), f=Opaque("core::fmt::Formatter<'static>"), r=Out('u8'))

    def want(c):
        return [t.name + '(', ('bool', 'bool', c.i['a'][0], 8, 'fmt_default'), ')']
    return Case('Debug__%s' % t.name, args, '*r = core::fmt::Debug::fmt(&*a, &mut *f).is_err() as u8;', spec(args, want),
                native=native(t, t.name, '', 'Debug', lambda k: 'format_args!("{}", *(a as *const u8) != 0)',
                              '"%s("' % t.name), cls='Debug')


class P(Prop):
    id = 'C18'
    setup = staticmethod(fmtstub.setup)
    extra_src = SRC
    bounds = ('Debug for every vector, pointer-vector and mask type, LowerHex/UpperHex/Octal/Binary for every integer vector '
              'type; all lane values and every pattern of write failures')
    assumptions = ('core::fmt is modelled as a recorder: each primitive call (write_fmt pieces, write_str, the lane type\'s '
                   'own formatter) is an event that succeeds or fails arbitrarily; text produced by core for one lane is '
                   'not modelled',)

    def configs(self, tier):
        return ['base', 'dev', 'avx2'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        cs = [vec(t, 'Debug') for t in ALL]
        cs += [vec(t, tr) for t in INTS for tr in TRAITS[1:]]
        cs += [ptr(k, n, e) for k in ('cptr', 'mptr') for n in (2, 4, 8) for e in ('i32', 'u8')]
        cs += [scalar_mask(t) for t in S.values() if t.kind == 'm']
        return cs


PROP = P()
