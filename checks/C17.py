"""Hashing agrees with equality."""
from vsym.dsl import *

SRC = '''
pub struct H { b: *mut u8, n: usize }
impl core::hash::Hasher for H {
    fn finish(&self) -> u64 { self.n as u64 }
    fn write(&mut self, x: &[u8]) { unsafe { core::ptr::copy_nonoverlapping(x.as_ptr(), self.b.add(self.n), x.len()); } self.n += x.len(); }
}
'''


def vec(t):
    """the bytes fed to the hasher are those of the lane array, so equal vectors hash equally and unequal vectors feed
    different bytes"""
    N = t.size + 64
    args = dict(a=In(t), v=Out('u8', N), x=Out('u8', N), nv=Out('usize'), nx=Out('usize'))
    body = ('use core::hash::Hash; core::ptr::write_bytes(v, 0, {N}); core::ptr::write_bytes(x, 0, {N}); '
            'let mut h = H {{ b: v, n: 0 }}; (*a).hash(&mut h); *nv = h.n; '
            'let arr: [{e}; {n}] = [{xs}]; let mut g = H {{ b: x, n: 0 }}; arr.hash(&mut g); *nx = g.n;').format(
        N=N, e=t.elem, n=t.n, xs=', '.join('*(a as *const %s).add(%d)' % (t.elem, k) for k in range(t.n)))

    def spec(c):
        # array hash: 8-byte length prefix, then the lanes' bytes
        r = list((t.n).to_bytes(8, 'little'))
        for x in c.i['a']:
            r += [byte_of(x, t.w, k) for k in range(t.w // 8)]
        r += [0] * (N - len(r))
        n = 8 + t.size
        return dict(v=r, x=r, nv=[n], nx=[n])
    return Case('hash__%s' % t.name, args, body, spec, cost=t.size)


def smask(t):
    args = dict(a=In(t), v=Out('u8', 16), nv=Out('usize'))
    body = ('use core::hash::Hash; core::ptr::write_bytes(v, 0, 16); let mut h = H { b: v, n: 0 }; (*a).hash(&mut h); '
            '*nv = h.n;')

    def spec(c):
        return dict(v=[ite(c.i['a'][0], 1, 0, 8)] + [0] * 15, nv=[1])
    return Case('hash__%s' % t.name, args, body, spec)


class P(Prop):
    id = 'C17'
    extra_src = SRC
    bounds = 'every hashable vector type and scalar mask type, all lane values; hasher observed as a byte stream'

    def configs(self, tier):
        return ['base', 'dev', 'avx2'] if tier == 'quick' else X86 + ['dev']

    def cases(self, tier, cfg):
        return [vec(t) for t in INTS] + [smask(s) for s in S.values() if s.kind == 'm']


PROP = P()
