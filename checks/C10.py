"""Reading vectors from and writing vectors to slices."""
from vsym.dsl import *


def rd(t, kind, unchecked, lim):
    al = kind == 'aligned'
    fn = 'from_slice_%s%s' % (kind, '_unchecked' if unchecked else '')

    def bad(c):
        s = c.i['s']
        r = icmp('ult', s.len, t.n, 64)
        if al:
            r = or_(r, not_(eq(arith('and', s.base, t.size - 1, 64), 0, 64)))
        return r

    def spec(c):
        if not unchecked:
            c.panic = bad(c)
        return dict(o=[bits(x) for x in c.i['s'].elems[:t.n]])
    body = '*o = %s::%s(core::slice::from_raw_parts(s, s_len));' % (t.name, fn)
    return Case('%s__%s' % (fn, t.name), dict(s=Slice(t.elem, lim), o=Out(t)), body, spec,
                pre=(lambda c: not_(bad(c))) if unchecked else None, cost=t.n * 2)


def wr(t, kind, unchecked, lim):
    al = kind == 'aligned'
    fn = 'write_to_slice_%s%s' % (kind, '_unchecked' if unchecked else '')

    def bad(c):
        s = c.i['s']
        r = icmp('ult', s.len, t.n, 64)
        if al:
            r = or_(r, not_(eq(arith('and', s.base, t.size - 1, 64), 0, 64)))
        return r

    def spec(c):
        if not unchecked:
            c.panic = bad(c)
        # first lanes written, everything after untouched
        return dict(s=[bits(x) for x in c.i['a'] + c.i['s'].elems[t.n:]])
    body = '(*a).%s(core::slice::from_raw_parts_mut(s, s_len));' % fn
    return Case('%s__%s' % (fn, t.name), dict(a=In(t), s=Slice(t.elem, lim, mut=True)), body, spec,
                pre=(lambda c: not_(bad(c))) if unchecked else None, cost=t.n * 3)


class P(Prop):
    id = 'C10'
    bounds = ('every integer and float vector type; slice length any value up to isize::MAX bytes, any address aligned to '
              'the element, all contents; the first 2*lanes+1 elements of the slice are compared individually (writes beyond '
              'the slice or further into it are reported)')

    def configs(self, tier):
        return ['base', 'dev', 'avx2'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        cs = []
        for t in INTS + FLOATS:
            lim = t.n + 2 if tier == 'quick' else 2 * t.n + 1
            for kind in ('aligned', 'unaligned'):
                for u in (False, True):
                    cs += [rd(t, kind, u, lim), wr(t, kind, u, lim)]
        return cs


PROP = P()
