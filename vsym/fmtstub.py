"""core::fmt as an event recorder.

The formatting machinery of core is not encoded; each primitive it offers is an event on the state's log, and each
event may succeed or fail (a fresh Boolean), so that error propagation is explored as well.
"""
import re
import z3
from .ex import Ptr, FnPtr, Unsupported
from .vals import *

PRIM = re.compile(r'core\.\.fmt\.\.(Debug|Display|LowerHex|UpperHex|Octal|Binary|LowerExp|UpperExp)\$u20\$for\$u20\$'
                  r'([iu](?:8|16|32|64|128|size)|f32|f64)\$GT\$3fmt')
BOOL = re.compile(r'_\$LT\$bool\$u20\$as\$u20\$core\.\.fmt\.\.(Debug|Display)\$GT\$3fmt')
STR = re.compile(r'_\$LT\$str\$u20\$as\$u20\$core\.\.fmt\.\.(Display)\$GT\$3fmt')
WF = re.compile(r'core3fmt9Formatter9write_fmt|core3fmt5Write9write_fmt|Formatter\$u20\$as\$u20\$core\.\.fmt\.\.Write\$GT\$9write_fmt')
WS = re.compile(r'core3fmt9Formatter9write_str|Formatter\$u20\$as\$u20\$core\.\.fmt\.\.Write\$GT\$9write_str')
WC = re.compile(r'Formatter\$u20\$as\$u20\$core\.\.fmt\.\.Write\$GT\$10write_char')
PAD = re.compile(r'core3fmt9Formatter3pad17h')
PTRF = re.compile(r'core3fmt17pointer_fmt_inner')
OPT = re.compile(r'core3fmt9Formatter(?:\d+)(alternate|sign_plus|sign_minus|sign_aware_zero_pad|debug_lower_hex|debug_upper_hex)17h')

OPTV = re.compile(r'core3fmt9Formatter(?:\d+)(width|precision|fill|align|flags)17h')

W = dict(i8=8, u8=8, i16=16, u16=16, i32=32, u32=32, i64=64, u64=64, i128=128, u128=128, isize=64, usize=64, f32=32,
         f64=64, bool=8)


class Ev:
    __slots__ = ('kind', 'ty', 'val', 'fmt')

    def __init__(self, kind, ty, val, fmt):
        self.kind, self.ty, self.val, self.fmt = kind, ty, val, fmt

    def __repr__(self):
        return 'Ev(%s %s %r %s)' % (self.kind, self.ty, self.val, self.fmt)


_n = [0]


def emit(ex, st, e):
    if any(x.kind == 'err' for x in st.ev):
        ex.viols.append((st.pc, 'writes on after an error'))
        return []
    _n[0] += 1
    err = z3.Bool('fmt_err!%d' % _n[0])
    s2 = st.fork(err)
    s2.ev = st.ev + (Ev('err', None, e, None),)
    st.pc = st.pc + (z3.Not(err),)
    st.ev = st.ev + (e,)
    return [(st, False), (s2, True)]


def fname(ex, f):
    if type(f) is Ptr and f.off == 0:
        return ex.objs[f.oid].name
    return '?'


def seq(ex, st, steps):
    """run steps (state -> [(state, 0|1)]) in order, stopping a path at its first error"""
    live, done = [st], []
    for s in steps:
        nxt = []
        for x in live:
            for y, r in s(x):
                r = simp(r)
                if type(r) in (int, bool):
                    (done if int(r) else nxt).append(y)
                else:
                    raise Unsupported('symbolic fmt result')
        live = nxt
    return [(x, False) for x in live] + [(x, True) for x in done]


def rd(ex, st, p, w):
    return simp(ex.load(st, p, ('i', w)))


def rdptr(ex, st, p):
    return ex.load(st, p, ('ptr',))


def text(ex, st, p, n):
    n = simp(n)
    if type(n) is not int:
        raise Unsupported('symbolic string length')
    out = []
    for k in range(n):
        b = rd(ex, st, ex.padd(p, k), 8)
        if type(b) is not int:
            raise Unsupported('symbolic string')
        out.append(b)
    return bytes(out).decode('utf-8', 'replace')


def handler(ex, st, nm, pretty, rt, tys, v):
    m = PRIM.search(nm)
    if m:
        k, ty = m.groups()
        f = fname(ex, v[1])
        if k == 'Debug' and f == 'fmt_default':
            k = 'Display' if ty[0] in 'iu' else k
        return emit(ex, st, Ev(k, ty, rd(ex, st, v[0], W[ty]), f))
    if BOOL.search(nm):
        return emit(ex, st, Ev('bool', 'bool', rd(ex, st, v[0], 8), fname(ex, v[1])))
    if STR.search(nm):
        f = fname(ex, v[2])
        t = text(ex, st, v[0], v[1])
        return emit(ex, st, Ev('lit', None, t, None) if f == 'fmt_default' else Ev('pad', None, t, f))
    if PAD.search(nm):
        f = fname(ex, v[0])
        t = text(ex, st, v[1], v[2])
        return emit(ex, st, Ev('lit', None, t, None) if f == 'fmt_default' else Ev('pad', None, t, f))
    if WS.search(nm):
        return emit(ex, st, Ev('lit', None, text(ex, st, v[1], v[2]), None))
    if WC.search(nm):
        c = simp(v[1])
        if type(c) is not int:
            raise Unsupported('symbolic char')
        return emit(ex, st, Ev('lit', None, chr(c), None))
    if PTRF.search(nm):
        a = v[0]
        a = ex.addr(a) if type(a) in (Ptr, FnPtr) else a
        return emit(ex, st, Ev('Pointer', 'ptr', a, fname(ex, v[1])))
    m = OPT.search(nm)
    if m:
        f = fname(ex, v[0])
        return [(st, False if f == 'fmt_default' else z3.Bool('opt_%s_%s' % (m.group(1), f)))]
    m = OPTV.search(nm)
    if m:
        k, f = m.group(1), fname(ex, v[0])
        if k == 'fill':
            return [(st, ord(' ') if f == 'fmt_default' else z3.BitVec('opt_fill_%s' % f, 32))]
        if k in ('width', 'precision') and rt[0] == 'struct':
            if f == 'fmt_default':
                return [(st, (0, 0))]
            some = z3.If(z3.Bool('opt_has_%s_%s' % (k, f)), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
            return [(st, (some, z3.BitVec('opt_%s_%s' % (k, f), 64)))]
        raise Unsupported('formatter option %s' % k)
    if WF.search(nm):
        a = v[1]
        np, na = rd(ex, st, ex.padd(a, 8), 64), rd(ex, st, ex.padd(a, 24), 64)
        if type(np) is not int or type(na) is not int:
            raise Unsupported('format_args of symbolic shape')
        pieces, args = rdptr(ex, st, a), rdptr(ex, st, ex.padd(a, 16))
        ph = rdptr(ex, st, ex.padd(a, 32))
        ph = simp(ph) if type(ph) is not Ptr else ph
        default = type(ph) is int and ph == 0
        fo = ex.fmt_default if default else ex.fmt_custom
        steps = []
        if not default and na != np and na + 1 != np:
            raise Unsupported('format_args with placeholders')
        for k in range(max(np, na)):
            if k < np:
                t = text(ex, st, rdptr(ex, st, ex.padd(pieces, 16 * k)), rd(ex, st, ex.padd(pieces, 16 * k + 8), 64))
                if t:
                    steps.append(lambda s, t=t: emit(ex, s, Ev('lit', None, t, None)))
            if k < na:
                val = rdptr(ex, st, ex.padd(args, 16 * k))
                fn = rdptr(ex, st, ex.padd(args, 16 * k + 8))
                if type(fn) is not FnPtr:
                    fn = ex.addrfn.get(simp(ex.addr(fn)))
                if fn is None:
                    raise Unsupported('format_args with unknown formatter')

                def step(s, fn=fn, val=val):
                    g = fn.mod.funcs.get(fn.name)
                    if g is None or g.is_decl:
                        g = ex.symtab.get(fn.name, g)
                    return ex.invoke(s, None, fn.name, g, ('i', 1), [('ptr',), ('ptr',)], [val, Ptr(fo, 0)])
                steps.append(step)
        return seq(ex, st, steps)
    return NotImplemented


def setup(ex):
    ex.stubs.append((re.compile(r'fmt'), handler))
    ex.max_states = 2000
    for nm in ('fmt_default', 'fmt_custom'):
        setattr(ex, nm, ex.new_obj(None, 64, nm, 16))
