"""Short names shared by the property modules."""
from .core import Case, In, Out, Val, Slice, Buf, Opaque, bits
from .runner import Prop
from .vals import *
from . import fpm
from .vtypes import T, S, PT, INTS, SINTS, UINTS, FLOATS, MASKS, ALL, mask_of, Ty

X86 = ['base', 'ssse3', 'sse41', 'sse42', 'avx', 'avx2', 'avx2fma']


def each(n, f):
    return [f(k) for k in range(n)]
