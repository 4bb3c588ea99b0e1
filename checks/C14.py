"""Byte order."""
from vsym.dsl import *


def swap(t):
    args = dict(a=In(t), o=Out(t), le=Out(t), be=Out(t), fle=Out(t), fbe=Out(t), rt=Out(t))
    body = ('*o = (*a).swap_bytes(); *le = (*a).to_le(); *be = (*a).to_be(); *fle = {T}::from_le(*a); '
            '*fbe = {T}::from_be(*a); *rt = (*a).swap_bytes().swap_bytes();').format(T=t.name)

    def spec(c):
        # documented: the byte order of the whole vector is reversed
        a = c.i['a']
        r = [bswap(x, t.w) for x in reversed(a)]
        return dict(o=r, be=r, fbe=r, le=a, fle=a, rt=a)
    return Case('swap_bytes__%s' % t.name, args, body, spec, cost=t.n)


class P(Prop):
    id = 'C14'
    bounds = 'every integer vector type, all lane values; little-endian target'

    def configs(self, tier):
        return ['base', 'dev', 'ssse3', 'avx2'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        return [swap(t) for t in INTS]


PROP = P()
