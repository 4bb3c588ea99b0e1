"""The public vector types of the crate."""
import re


class Ty:
    """kind: i u f m (mask) b (bool) p (pointer); w: lane bits; n: lanes; elem: rust lane type"""

    def __init__(self, name, kind, w, n, elem, scalar=False):
        self.name = name
        self.kind = kind
        self.w = w
        self.n = n
        self.elem = elem
        self.scalar = scalar
        self.size = w // 8 * n

    def __repr__(self):
        return self.name

    @property
    def signed(self):
        return self.kind == 'i'

    @property
    def width(self):
        return self.w * self.n


T = {}
S = {}


def _s(name, kind, w):
    S[name] = Ty(name, kind, w, 1, name, True)


for w in (8, 16, 32, 64, 128):
    _s('i%d' % w, 'i', w)
    _s('u%d' % w, 'u', w)
    _s('m%d' % w, 'm', w)
_s('f32', 'f', 32)
_s('f64', 'f', 64)
_s('isize', 'i', 64)
_s('usize', 'u', 64)
_s('msize', 'm', 64)
_s('bool', 'b', 8)


def _v(name, elem, n):
    e = S[elem]
    T[name] = Ty(name, e.kind, e.w, n, elem)


for total in (16, 32, 64, 128, 256, 512):
    for w in (8, 16, 32, 64, 128):
        n = total // w
        if n < 1 or (n == 1 and w != 128):
            continue
        for k in 'ium':
            _v('%s%dx%d' % (k, w, n), '%s%d' % (k, w), n)
        if w in (32, 64):
            _v('f%dx%d' % (w, n), 'f%d' % w, n)
for n in (2, 4, 8):
    for k in ('isize', 'usize', 'msize'):
        _v('%sx%d' % (k, n), k, n)

PT = ['cptrx2', 'cptrx4', 'cptrx8', 'mptrx2', 'mptrx4', 'mptrx8']

INTS = [t for t in T.values() if t.kind in 'iu']
SINTS = [t for t in INTS if t.kind == 'i']
UINTS = [t for t in INTS if t.kind == 'u']
FLOATS = [t for t in T.values() if t.kind == 'f']
MASKS = [t for t in T.values() if t.kind == 'm']
ALL = list(T.values())


def mask_of(t):
    """mask vector type associated with a vector type (comparison results)"""
    if t.elem in ('isize', 'usize', 'msize'):
        return T['msizex%d' % t.n]
    return T['m%dx%d' % (t.w, t.n)]
