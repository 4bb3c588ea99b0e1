"""Symbolic executor for LLVM IR with state merging at post-dominators."""
import re
import sys
import time
import bisect
import z3
from . import llir
from .llir import IRError, size_of, struct_layout, I64, PTR, VOID, EXIT
from .vals import *
from . import fpm
from .fpm import FP

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """Something the encoding does not model: the check must not claim anything."""


class Ptr:
    __slots__ = ('oid', 'off')

    def __init__(self, oid, off):
        self.oid = oid
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.oid, self.off)


class FnPtr:
    __slots__ = ('name', 'mod')

    def __init__(self, name, mod):
        self.name = name
        self.mod = mod


class Obj:
    """Memory object; chunks: offset -> (value, nbytes)."""
    __slots__ = ('oid', 'size', 'base', 'chunks', 'tok', 'name', 'lazy', 'ro', 'align')

    def __init__(self, oid, size, base, name, chunks=None, tok=None, lazy=None, ro=False):
        self.oid = oid
        self.size = size          # int or BV64
        self.base = base          # int or BV64
        self.name = name
        self.chunks = {} if chunks is None else chunks
        self.tok = tok
        self.lazy = lazy          # f(off, nbytes) -> scalar or None  (default contents)
        self.ro = ro

    def clone(self, tok):
        return Obj(self.oid, self.size, self.base, self.name, dict(self.chunks), tok, self.lazy, self.ro)


class State:
    __slots__ = ('mem', 'pc', 'tok', 'ev')

    def __init__(self, mem, pc, ev=()):
        self.mem = mem
        self.pc = pc
        self.tok = object()
        self.ev = ev              # event log (formatting, hashing): tuple of events

    def fork(self, *conds):
        s = State(dict(self.mem), self.pc + tuple(conds), self.ev)
        self.tok = object()
        return s


class Unmergeable(Exception):
    pass


class PathDead(Exception):
    pass


def width(t):
    k = t[0]
    if k in ('i', 'f'):
        return t[1]
    if k == 'ptr':
        return 64
    raise IRError('width %r' % (t,))


PANIC_RE = re.compile(
    r'^(core::panicking::|core::option::expect_failed|core::option::unwrap_failed|core::result::unwrap_failed|'
    r'core::slice::index::slice_\w+_fail|core::slice::index::slice_\w+::|core::str::slice_error_fail|'
    r'std::panicking::|alloc::alloc::handle_alloc_error|core::cell::panic_already|'
    r'core::slice::<impl \[T\]>::copy_from_slice::len_mismatch_fail|alloc::raw_vec::capacity_overflow|'
    r'std::process::abort|core::array::.*panic|std::rt::begin_panic)')


class Exec:
    def __init__(self, mods, fpmode='uf', max_steps=3000000, deadline=None):
        self.mods = mods
        self.fp = FP(fpmode)
        self.base_solver = None
        self.next_oid = 1
        self.next_addr = 0x10000000
        self.gobj = {}             # (mod,name) -> oid
        self.gmem = {}             # oid -> Obj
        self.fnaddr = {}
        self.addrfn = {}
        self.objs = {}             # oid -> (base,size,name)   (all ever allocated; for address resolution)
        self.obls = []             # (kind, pc, cond, desc)
        self.panics = []           # (pc, what)
        self.viols = []            # (pc, what): specification broken on the way
        self.funcs_used = {}
        self.steps = 0
        self.max_steps = max_steps
        self.deadline = deadline
        self.nqueries = 0
        self.solver_time = 0.0
        self.merges = 0
        self.forks = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.sstack = []
        self.cache = {}
        from . import intrin
        self.stubs = [(re.compile('libm'), intrin.libm_stub)]            # (regex, handler)
        self.intrin_cache = {}
        self.assumed = []
        self.symtab = {}
        for m in mods:
            for nm, f in m.funcs.items():
                if not f.is_decl and nm not in self.symtab and not re.search(r'^define (internal|private)', f.header):
                    self.symtab[nm] = f
        self.h = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('i_')}
        self.max_call_depth = 200
        self.depth = 0
        self.max_states = 64

    # ---------------------------------------------------------------- memory objects
    def new_obj(self, st, size, name, align=16, base=None, lazy=None, chunks=None, ro=False):
        oid = self.next_oid
        self.next_oid += 1
        if base is None:
            a = max(align, 64)
            self.next_addr = (self.next_addr + a - 1) // a * a
            # odd multiple of the requested alignment: nothing is accidentally over-aligned
            if align >= 64:
                base = self.next_addr
            else:
                base = self.next_addr + align
            sz = size if type(size) is int else 1 << 20
            self.next_addr = base + sz + 4096
        o = Obj(oid, size, base, name, chunks, st.tok if st is not None else None, lazy, ro)
        self.objs[oid] = o
        if st is not None:
            st.mem[oid] = o
        else:
            self.gmem[oid] = o
        return oid

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.gmem.get(oid)
        return o

    def wobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            g = self.gmem.get(oid)
            if g is not None:
                if g.ro:
                    return None
                raise Unsupported('write to mutable global %s' % g.name)
            return None
        if o.tok is not st.tok:
            o = o.clone(st.tok)
            st.mem[oid] = o
        return o

    def addr(self, p):
        """address of pointer value as i64 scalar"""
        if type(p) is Ptr:
            return arith('add', self.objs[p.oid].base, p.off, 64)
        if type(p) is FnPtr:
            a = self.fnaddr.get(p.name)
            if a is None:
                a = 0x1000 + 16 * len(self.fnaddr)
                self.fnaddr[p.name] = a
                self.addrfn[a] = p
            return a
        return p

    # ---------------------------------------------------------------- solver
    def _sync(self, pc):
        ss = self.sstack
        n = 0
        m = min(len(ss), len(pc))
        while n < m and ss[n] is pc[n]:
            n += 1
        if len(ss) > n:
            self.solver.pop(len(ss) - n)
            del ss[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            ss.append(c)

    def check(self, pc, cond=True):
        """satisfiability of pc /\\ cond : True / False / None(unknown)"""
        if cond is False:
            return False
        cond = simp(cond)
        if cond is False:
            return False
        t = time.time()
        self._sync(pc)
        self.nqueries += 1
        if cond is True:
            r = self.solver.check()
        else:
            r = self.solver.check(cond)
        self.solver_time += time.time() - t
        return True if r == z3.sat else False if r == z3.unsat else None

    def feasible(self, pc, cond):
        r = self.check(pc, cond)
        return r is not False

    def oblige(self, st, kind, cond, desc):
        """UB if cond holds here.  Records the obligation and assumes not cond afterwards."""
        cond = simp(cond)
        if cond is False:
            return
        if cond is True:
            self.obls.append((kind, st.pc, True, desc))
            raise PathDead()
        self.obls.append((kind, st.pc, cond, desc))
        st.pc = st.pc + (z3.Not(cond),)

    # ---------------------------------------------------------------- memory access
    def resolve(self, st, p, n, what, write=False, align=1):
        """pointer value -> list of (cond, oid, off)"""
        if p is UNDEF:
            self.oblige(st, 'ub', True, '%s through undefined pointer' % what)
        if type(p) is Ptr:
            r = [(True, p.oid, p.off)]
        elif type(p) is FnPtr:
            raise Unsupported('memory access through function pointer')
        else:
            r = self._resolve_raw(st, p, n, what)
        for c, oid, off in r:
            o = self.obj(st, oid)
            if o is None:
                self.oblige(st, 'ub', c, '%s of dead object %s' % (what, self.objs[oid].name))
                continue
            # bounds
            if type(off) is int and type(o.size) is int:
                bad = not (0 <= off and off + n <= o.size)
            else:
                sz = bv(o.size, 64)
                of = bv(off, 64)
                # off <= size - n without overflow
                bad = simp(z3.Not(z3.And(z3.ULE(of, sz), z3.ULE(z3.BitVecVal(n, 64), sz - of))))
            if bad is not False:
                self.oblige(st, 'ub', and_(c, bad), 'out-of-bounds %s of %d bytes at offset %s of %s (size %s)' % (
                    what, n, off if type(off) is int else '<sym>', o.name, o.size if type(o.size) is int else '<sym>'))
            if write and o.ro:
                self.oblige(st, 'ub', c, 'write to read-only object %s' % o.name)
            if align > 1:
                a = arith('add', o.base, off, 64)
                if type(a) is int:
                    if a % align:
                        self.oblige(st, 'ub', c, 'misaligned %s (align %d)' % (what, align))
                else:
                    self.oblige(st, 'ub', and_(c, simp(z3.Extract(align.bit_length() - 2, 0, a) != 0)),
                                'misaligned %s (align %d) of %s' % (what, align, o.name))
        return r

    def _find_addr(self, st, a):
        for oid, o in list(st.mem.items()) + list(self.gmem.items()):
            if type(o.base) is int:
                sz = o.size if type(o.size) is int else 1 << 20
                if o.base <= a < o.base + sz or (a == o.base):
                    return oid, a - o.base
        return None

    def _resolve_raw(self, st, p, n, what):
        p = simp(p)
        if type(p) is int:
            f = self._find_addr(st, p)
            if f is None:
                self.oblige(st, 'ub', True, '%s at invalid address %#x' % (what, p))
            return [(True, f[0], f[1])]
        # symbolic base objects first
        live = list(st.mem.values()) + list(self.gmem.values())
        for o in live:
            if type(o.base) is not int:
                d = simp(p - o.base)
                if type(d) is int and d < (1 << 32):
                    return [(True, o.oid, d)]
                if type(d) is not int and not self._mentions(d, o.base):
                    if self._mentions(p, o.base):
                        return [(True, o.oid, d)]
        # ite tree of pointers
        if z3.is_app_of(p, z3.Z3_OP_ITE):
            out = []
            c = p.arg(0)
            for cc, x in ((c, p.arg(1)), (z3.Not(c), p.arg(2))):
                if not self.feasible(st.pc, cc):
                    continue
                for c2, oid, off in self._resolve_raw(st, x, n, what):
                    out.append((and_(cc, c2), oid, off))
            return out
        # model based: which objects can it be in?
        out = []
        pc = st.pc
        excl = []
        for _ in range(12):
            t = time.time()
            self._sync(pc)
            self.nqueries += 1
            r = self.solver.check(*excl)
            self.solver_time += time.time() - t
            if r == z3.unsat:
                return out
            if r != z3.sat:
                raise Unsupported('pointer resolution: solver unknown')
            m = self.solver.model()
            a = m.eval(p, True).as_long()
            f = None
            for o in live:
                b = o.base if type(o.base) is int else m.eval(o.base, True).as_long()
                s = o.size if type(o.size) is int else m.eval(o.size, True).as_long()
                if b <= a < b + max(s, 1):
                    f = o
                    break
            if f is None:
                # address outside all objects is possible
                inany = []
                for o in live:
                    inany.append(z3.ULT(p - bv(o.base, 64), bv(o.size, 64)))
                bad = z3.And(z3.Not(z3.Or(*inany)), *excl) if inany else True
                self.oblige(st, 'ub', bad, '%s at invalid address' % what)
                pc = st.pc
                continue
            inside = z3.ULT(p - bv(f.base, 64), bv(f.size, 64))
            out.append((inside, f.oid, simp(p - bv(f.base, 64))))
            excl.append(z3.Not(inside))
        raise Unsupported('pointer resolution: too many objects')

    def _mentions(self, e, v):
        seen = set()
        todo = [e]
        vid = v.get_id()
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i == vid:
                return True
            if i in seen:
                continue
            seen.add(i)
            todo.extend(x.children())
        return False

    # chunk level ------------------------------------------------------------
    def _split(self, o, start):
        v, n = o.chunks.pop(start)
        v = self._as_int(v, n * 8)
        for k in range(n):
            b = byte_of(v, n * 8, k)
            if b is not UNDEF:
                o.chunks[start + k] = (b, 1)

    def _as_int(self, v, w):
        if type(v) is Ptr or type(v) is FnPtr:
            return self.addr(v)
        if type(v) is bool or (isinstance(v, z3.BoolRef)):
            return zext(v, 1, w)
        return v

    def _covering(self, o, off):
        for k in range(0, 16):
            c = o.chunks.get(off - k)
            if c is not None:
                return (off - k) if c[1] > k else None
        return None

    def _clear(self, o, off, n):
        ch = o.chunks
        s = self._covering(o, off)
        if s is not None and s != off:
            self._split(o, s)
        if n == 1:
            c = ch.get(off)
            if c is not None and c[1] > 1:
                self._split(o, off)
            ch.pop(off, None)
            return
        e = self._covering(o, off + n)
        if e is not None and e != off + n:
            self._split(o, e)
        if len(ch) < n:
            for k in [k for k in ch if off <= k < off + n]:
                del ch[k]
        else:
            for k in range(off, off + n):
                ch.pop(k, None)

    def _put(self, o, off, v, n):
        ch = o.chunks
        c = ch.get(off)
        if c is None or c[1] != n:
            self._clear(o, off, n)
        if v is UNDEF:
            if o.lazy is not None:
                for k in range(n):
                    ch[off + k] = (fresh(8), 1)
            else:
                ch.pop(off, None)
            return
        ch[off] = (v, n)

    def _get(self, o, off, n):
        c = o.chunks.get(off)
        if c is not None and c[1] == n:
            return c[0]
        bs = []
        for k in range(n):
            s = self._covering(o, off + k)
            if s is None:
                if o.lazy is not None:
                    o2 = o.lazy(off + k)
                    if o2 is not None:
                        ls, lv, ln = o2
                        if ls == off and ln == n and not any((off + j) in o.chunks for j in range(n)):
                            o.chunks[ls] = (lv, ln)
                            return lv
                        bs.append(byte_of(lv, ln * 8, off + k - ls))
                        continue
                bs.append(UNDEF)
            else:
                v, m = o.chunks[s]
                bs.append(byte_of(self._as_int(v, 8 * m), 8 * m, off + k - s))
        return join_bytes(bs)

    def _conv(self, v, t):
        """memory scalar -> value of type t"""
        k = t[0]
        if v is UNDEF:
            return UNDEF
        if k == 'ptr':
            return v
        w = t[1]
        if type(v) is Ptr or type(v) is FnPtr:
            v = self.addr(v)
        isb = type(v) is bool or isinstance(v, z3.BoolRef)
        if w == 1:
            return v if isb else trunc(v, 8, 1)
        if isb:
            v = zext(v, 1, 8)
        sz = size_of(t) * 8
        if w != sz:
            return trunc(v, sz, w)
        return v

    def load_at(self, o, off, t):
        k = t[0]
        if k in ('i', 'f', 'ptr'):
            return self._conv(self._get(o, off, size_of(t)), t)
        if k == 'vec':
            e = t[2]
            if e == ('i', 1):
                n = size_of(t)
                x = self._get(o, off, n)
                x = self._as_int(x, 8 * n)
                return tuple(trunc(simp(z3.LShR(bv(x, 8 * n), i)), 8 * n, 1) if is_sym(x) else
                             (UNDEF if x is UNDEF else bool((x >> i) & 1)) for i in range(t[1]))
            s = size_of(e)
            ch = o.chunks
            out = []
            for i in range(t[1]):
                c = ch.get(off + i * s)
                if c is not None and c[1] == s:
                    out.append(self._conv(c[0], e))
                else:
                    out.append(self._conv(self._get(o, off + i * s, s), e))
            return tuple(out)
        if k == 'arr':
            s = size_of(t[2])
            return tuple(self.load_at(o, off + i * s, t[2]) for i in range(t[1]))
        if k == 'struct':
            offs, _ = struct_layout(t)
            return tuple(self.load_at(o, off + a, x) for a, x in zip(offs, t[1]))
        raise IRError('load %r' % (t,))

    def store_at(self, o, off, t, v):
        k = t[0]
        if k in ('i', 'f', 'ptr'):
            n = size_of(t)
            if k == 'i' and t[1] != n * 8:
                if t[1] != 1:
                    v = zext(v, t[1], n * 8)
                else:
                    v = zext(v, 1, 8)
            self._put(o, off, v, n)
            return
        if v is UNDEF:
            self._clear(o, off, size_of(t))
            return
        if k == 'vec':
            e = t[2]
            if e == ('i', 1):
                n = size_of(t)
                self._put(o, off, self.pack_bits(v, n * 8), n)
                return
            s = size_of(e)
            for i in range(t[1]):
                self._put(o, off + i * s, v[i], s)
            return
        if k == 'arr':
            s = size_of(t[2])
            for i in range(t[1]):
                self.store_at(o, off + i * s, t[2], v[i])
            return
        if k == 'struct':
            offs, _ = struct_layout(t)
            for a, x, y in zip(offs, t[1], v):
                self.store_at(o, off + a, x, y)
            return
        raise IRError('store %r' % (t,))

    def pack_bits(self, v, w):
        """<n x i1> -> w-bit integer (lane 0 = bit 0)"""
        if all(type(x) is bool for x in v):
            return sum((1 << i) for i, x in enumerate(v) if x)
        if len(v) == 1 and w == 1:
            return v[0]
        parts = [z3.If(bl(x), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for x in v]
        if w > len(v):
            parts.append(z3.BitVecVal(0, w - len(v)))
        parts.reverse()
        return z3.Concat(*parts) if len(parts) > 1 else parts[0]

    def stride(self, st, off):
        """largest power of two known to divide off (cheap syntactic test through simplify)"""
        for k in (6, 5, 4, 3, 2, 1):
            if simp(z3.Extract(k - 1, 0, off) == 0) is True:
                return 1 << k
        return 1

    def merge_val(self, c, a, b, t):
        k = t[0]
        if k == 'vec' or k == 'arr':
            if a is UNDEF or b is UNDEF:
                if a is b:
                    return a
                a = a if a is not UNDEF else (UNDEF,) * t[1]
                b = b if b is not UNDEF else (UNDEF,) * t[1]
            return tuple(self.merge_val(c, x, y, t[2]) for x, y in zip(a, b))
        if k == 'struct':
            if a is UNDEF or b is UNDEF:
                if a is b:
                    return a
                a = a if a is not UNDEF else (UNDEF,) * len(t[1])
                b = b if b is not UNDEF else (UNDEF,) * len(t[1])
            return tuple(self.merge_val(c, x, y, e) for x, y, e in zip(a, b, t[1]))
        return self.merge_scalar(c, a, b, width(t))

    def merge_scalar(self, c, a, b, w):
        if same(a, b):
            return a
        ta, tb = type(a), type(b)
        if ta is Ptr and tb is Ptr and a.oid == b.oid:
            if same(a.off, b.off):
                return a
            return Ptr(a.oid, ite(c, a.off, b.off, 64))
        if ta in (Ptr, FnPtr):
            a = self.addr(a)
        if tb in (Ptr, FnPtr):
            b = self.addr(b)
        # Bool versus BV mismatch
        ab = type(a) is bool or isinstance(a, z3.BoolRef)
        bb = type(b) is bool or isinstance(b, z3.BoolRef)
        if ab != bb and a is not UNDEF and b is not UNDEF:
            if ab:
                a = zext(a, 1, w)
            else:
                b = zext(b, 1, w)
        elif ab or bb:
            w = 1
        return ite(c, a, b, w)

    def load(self, st, p, t, align=1, what='read'):
        n = size_of(t)
        if n == 0:
            return self.zero_sized(t)
        r = self.resolve(st, p, n, what, False, align)
        res = None
        for c, oid, off in r:
            o = self.obj(st, oid)
            if o is None:
                continue
            if type(off) is int:
                v = self.load_at(o, off, t)
            else:
                v = self._load_sym(st, o, off, t, n)
            if res is None:
                res = v
            else:
                res = self.merge_val(c, v, res, t)
        if res is None:
            raise PathDead()
        return res

    def zero_sized(self, t):
        if t[0] == 'struct':
            return tuple(self.zero_sized(x) for x in t[1])
        return ()

    def _cands(self, st, o, off, n):
        off = bv(off, 64)
        lim = o.size if type(o.size) is int else None
        s = self.stride(st, off)
        if lim is None:
            hi = max(o.chunks) if o.chunks else 0
            if o.lazy is None:
                raise Unsupported('symbolic offset into object of symbolic size')
            lim = getattr(o.lazy, 'limit', None)
            if lim is None:
                raise Unsupported('symbolic offset into object of symbolic size')
            # offsets beyond the limit must be infeasible
            if self.feasible(st.pc, z3.UGT(off, lim - n)):
                raise Unsupported('symbolic offset beyond modelled prefix')
        c = list(range(0, lim - n + 1, s))
        if len(c) > 16:
            # narrow by feasibility
            if len(c) > 600:
                raise Unsupported('symbolic offset: %d candidates' % len(c))
        return off, c

    def _load_sym(self, st, o, off, t, n):
        off, c = self._cands(st, o, off, n)
        if not c:
            raise PathDead()
        res = self.load_at(o, c[-1], t)
        for k in reversed(c[:-1]):
            v = self.load_at(o, k, t)
            res = self.merge_val(simp(off == k), v, res, t)
        return res

    def store(self, st, p, t, v, align=1, guard=True, what='write'):
        n = size_of(t)
        if n == 0:
            return
        r = self.resolve(st, p, n, what, True, align)
        for c, oid, off in r:
            o = self.wobj(st, oid)
            if o is None:
                continue
            c = and_(c, guard)
            if c is False:
                continue
            if type(off) is int:
                if c is True:
                    self.store_at(o, off, t, v)
                else:
                    old = self.load_at(o, off, t)
                    self.store_at(o, off, t, self.merge_val(c, v, old, t))
            else:
                off, cs = self._cands(st, o, off, n)
                s = cs[1] - cs[0] if len(cs) > 1 else n
                if s < n:
                    # overlapping candidates: go sequentially, reading the old value first
                    olds = [self.load_at(o, k, t) for k in cs]
                    raise Unsupported('overlapping symbolic store') if n > 1 else None
                for k in cs:
                    old = self.load_at(o, k, t)
                    self.store_at(o, k, t, self.merge_val(and_(c, simp(off == k)), v, old, t))

    def memcpy(self, st, dst, src, n, move=False):
        if type(n) is not int:
            n = simp(n)
        if n is UNDEF or type(n) is not int:
            raise Unsupported('memcpy of symbolic length')
        if n == 0:
            return
        rs = self.resolve(st, src, n, 'read', False, 1)
        rd = self.resolve(st, dst, n, 'write', True, 1)
        if len(rs) != 1 or len(rd) != 1:
            raise Unsupported('memcpy through ambiguous pointers')
        _, so, sf = rs[0]
        _, do, df = rd[0]
        if type(sf) is not int or type(df) is not int:
            # element-wise through symbolic offsets
            for k in range(n):
                b = self.load(st, self.padd(src, k), ('i', 8))
                self.store(st, self.padd(dst, k), ('i', 8), b)
            return
        s = self.obj(st, so)
        d = self.wobj(st, do)
        s = self.obj(st, so)
        if s is None or d is None:
            raise PathDead()
        if not move and so == do and not (sf + n <= df or df + n <= sf):
            if sf != df:
                self.oblige(st, 'ub', True, 'memcpy of overlapping ranges')
            return
        if s.lazy is not None:
            k = 0
            while k < n:
                if self._covering(s, sf + k) is None:
                    l = s.lazy(sf + k)
                    if l is not None:
                        ls, lv, ln = l
                        if not any((ls + j) in s.chunks for j in range(ln)) and self._covering(s, ls) is None:
                            s.chunks[ls] = (lv, ln)
                k += 1
        # make chunk boundaries match
        if s.tok is not st.tok and s.oid in st.mem:
            s = self.wobj(st, so)
        for edge in (sf, sf + n):
            c = self._covering(s, edge)
            if c is not None and c != edge:
                if s.oid not in st.mem:
                    s = s.clone(None)
                self._split(s, c)
        if len(s.chunks) < n:
            items = [(k - sf, v) for k, v in s.chunks.items() if sf <= k < sf + n]
        else:
            items = [(k, s.chunks[sf + k]) for k in range(n) if (sf + k) in s.chunks]
        d = self.wobj(st, do)
        self._clear(d, df, n)
        for k, v in items:
            d.chunks[df + k] = v

    def padd(self, p, k):
        if type(p) is Ptr:
            return Ptr(p.oid, arith('add', p.off, k & mask(64) if type(k) is int and type(p.off) is not int else k, 64)
                       if not (type(p.off) is int and type(k) is int) else p.off + k)
        if p is UNDEF:
            return UNDEF
        p = self.addr(p)
        return arith('add', p, k & mask(64) if type(k) is int else k, 64)

    # ---------------------------------------------------------------- operands
    def gval(self, f, nm):
        mod = f.mod
        fn = mod.funcs.get(nm)
        if fn is not None:
            return FnPtr(nm, mod)
        key = (mod.path, nm)
        oid = self.gobj.get(key)
        if oid is not None:
            return Ptr(oid, 0)
        d = mod.global_def(nm)
        home = f
        if d is None or d[1] is None:
            for m in self.mods:
                if nm in m.globals_txt:
                    d2 = m.global_def(nm)
                    if d2 is not None and d2[1] is not None:
                        d = d2
                        home = next(iter(m.funcs.values()))
                        key2 = (m.path, nm)
                        if key2 in self.gobj:
                            return Ptr(self.gobj[key2], 0)
                        key = key2
                        break
        if d is None or d[1] is None:
            # unknown external: opaque object
            oid = self.new_obj(None, 0, nm, 16, ro=True)
            self.gobj[key] = oid
            return Ptr(oid, 0)
        t, init, al = d
        oid = self.new_obj(None, size_of(t), nm, max(al, 1), ro=True)
        self.gobj[key] = oid
        o = self.gmem[oid]
        v = self.cval(home, init, t)
        self.store_at(o, 0, t, v)
        return Ptr(oid, 0)

    def cval(self, f, op, t):
        k = op[0]
        if k == 'c':
            return op[1]
        if k == 'undef':
            return self.undef_of(t)
        if k == 'g':
            return self.gval(f, op[1])
        if k == 'agg':
            if t[0] == 'struct':
                return tuple(self.cval(f, x, e) for x, e in zip(op[1], t[1]))
            return tuple(self.cval(f, x, t[2]) for x in op[1])
        if k == 'cgep':
            return self.gep(op[1], op[2], self.cval(f, op[3], op[2]),
                            [(it, self.cval(f, x, it)) for it, x in op[4]])
        if k == 'ccast':
            return self.cast(op[1], op[2], self.cval(f, op[3], op[2]), op[4])
        if k == 'cbin':
            return self.binop(None, op[1], op[2], self.cval(f, op[3], op[2]), self.cval(f, op[4], op[2]), ())
        if k == 'meta':
            return None
        raise IRError('const %r' % (op,))

    def undef_of(self, t):
        k = t[0]
        if k in ('vec', 'arr'):
            return (self.undef_of(t[2]),) * t[1]
        if k == 'struct':
            return tuple(self.undef_of(x) for x in t[1])
        return UNDEF

    def ev(self, f, regs, op, t):
        k = op[0]
        if k == 'r':
            return regs[op[1]]
        if k == 'c':
            return op[1]
        c = self.cache.get(id(op))
        if c is not None:
            return c[0]
        v = self.cval(f, op, t)
        self.cache[id(op)] = (v, op)
        return v

    # ---------------------------------------------------------------- operations
    def binop(self, st, op, t, a, b, flags):
        if t[0] == 'vec':
            return tuple(self.binop1(st, op, t[2], x, y, flags) for x, y in zip(a, b))
        return self.binop1(st, op, t, a, b, flags)

    def binop1(self, st, op, t, a, b, flags):
        w = t[1]
        if op[0] == 'f':
            return self.fp.op2(op, a, b, w)
        ta, tb = type(a), type(b)
        if ta is Ptr or ta is FnPtr:
            a = self.addr(a)
        if tb is Ptr or tb is FnPtr:
            b = self.addr(b)
        if op in ('add', 'sub', 'mul'):
            r = arith(op, a, b, w)
            if flags and r is not UNDEF:
                ok = True
                if 'nsw' in flags:
                    ok = and_(ok, not_(ovf('s' + op, a, b, w)))
                if 'nuw' in flags:
                    ok = and_(ok, not_(ovf('u' + op, a, b, w)))
                if ok is not True:
                    ok = simp(ok)
                    if ok is False:
                        return UNDEF
                    if ok is not True:
                        r = ite(ok, r, fresh(w, 'poison'), w)
            return r
        if op in ('and', 'or', 'xor'):
            return arith(op, a, b, w)
        if op in ('shl', 'lshr', 'ashr'):
            if a is UNDEF or b is UNDEF:
                return UNDEF
            if w == 1:
                return ite(b, fresh(1, 'poison'), a, 1)
            if type(b) is int:
                if b >= w:
                    return UNDEF
                return shift_raw(op, a, b, w)
            r = shift_raw(op, a, b, w)
            inr = simp(z3.ULT(b, w))
            if inr is True:
                return r
            return ite(inr, r, fresh(w, 'poison'), w)
        # division
        if b is UNDEF:
            self.oblige(st, 'ub', True, 'division by undefined value')
        if a is UNDEF:
            a = fresh(w)
        if w == 1:
            raise Unsupported('i1 division')
        self.oblige(st, 'ub', eq(b, 0, w), 'division by zero')
        if op[0] == 's':
            self.oblige(st, 'ub', and_(eq(b, mask(w), w), eq(a, 1 << (w - 1), w)), 'signed division overflow')
        return divrem_raw(op, a, b, w)

    def icmp_v(self, pred, t, a, b):
        if t[0] == 'vec':
            return tuple(self.icmp1(pred, t[2], x, y) for x, y in zip(a, b))
        return self.icmp1(pred, t, a, b)

    def icmp1(self, pred, t, a, b):
        ta, tb = type(a), type(b)
        if ta is Ptr and tb is Ptr and a.oid == b.oid and pred in ('eq', 'ne'):
            r = eq(a.off if type(a.off) is not int else a.off & mask(64),
                   b.off if type(b.off) is not int else b.off & mask(64), 64)
            return r if pred == 'eq' else not_(r)
        if ta is Ptr or ta is FnPtr:
            a = self.addr(a)
        if tb is Ptr or tb is FnPtr:
            b = self.addr(b)
        return icmp(pred, a, b, width(t))

    def cast(self, op, ft, v, tt, st=None):
        if ft[0] == 'vec' and tt[0] == 'vec' and op not in ('bitcast',):
            return tuple(self.cast1(op, ft[2], x, tt[2], st) for x in v)
        if op == 'bitcast' and (ft[0] == 'vec' or tt[0] == 'vec'):
            return self.bitcast(ft, v, tt)
        return self.cast1(op, ft, v, tt, st)

    def cast1(self, op, ft, v, tt, st=None):
        if v is UNDEF:
            return UNDEF
        if op == 'zext':
            return zext(v, ft[1], tt[1])
        if op == 'sext':
            return sext(v, ft[1], tt[1])
        if op == 'trunc':
            return trunc(v, ft[1], tt[1])
        if op == 'ptrtoint':
            a = self.addr(v)
            w = tt[1]
            if w < 64:
                return trunc(a, 64, w)
            return zext(a, 64, w)
        if op == 'inttoptr':
            w = ft[1]
            if w < 64:
                v = zext(v, w, 64)
            elif w > 64:
                v = trunc(v, w, 64)
            if type(v) is int:
                fn = self.addrfn.get(v)
                if fn is not None:
                    return fn
            return v
        if op == 'bitcast':
            if ft[0] == 'ptr' and tt[0] == 'ptr':
                return v
            if ft[0] != 'ptr' and tt[0] != 'ptr':
                return v
            raise Unsupported('bitcast ptr')
        if op in ('sitofp', 'uitofp'):
            return self.fp.i2f(op[0] == 's', v, ft[1], tt[1])
        if op in ('fptosi', 'fptoui'):
            s = op == 'fptosi'
            inr = simp(self.fp.f2i_inrange(s, v, ft[1], tt[1]))
            if inr is False:
                return UNDEF
            r = self.fp.f2i_raw(s, v, ft[1], tt[1])
            if inr is True:
                return r
            return ite(inr, r, fresh(tt[1], 'poison'), tt[1])
        if op in ('fpext', 'fptrunc'):
            return self.fp.fext(v, ft[1], tt[1])
        raise Unsupported('cast %s' % op)

    def bitcast(self, ft, v, tt):
        """through a little-endian bit image"""
        def bits(t):
            if t[0] == 'vec':
                return t[1] * (64 if t[2][0] == 'ptr' else t[2][1])
            return width(t)
        n = bits(ft)
        if n != bits(tt):
            raise IRError('bitcast size')
        fe = ft[2] if ft[0] == 'vec' else ft
        te = tt[2] if tt[0] == 'vec' else tt
        fw, tw = width(fe), width(te)
        vs = list(v) if ft[0] == 'vec' else [v]
        if fe == te or (fw == tw and fe[0] != 'ptr' and te[0] != 'ptr'):
            out = vs
        elif fw % 8 == 0 and tw % 8 == 0:
            bs = []
            for x in vs:
                x = self._as_int(x, fw) if x is not UNDEF else x
                for k in range(fw // 8):
                    bs.append(byte_of(x, fw, k))
            out = [join_bytes(bs[i:i + tw // 8]) for i in range(0, len(bs), tw // 8)]
        elif fw == 1:
            out = []
            for i in range(0, len(vs), tw):
                out.append(self.pack_bits(vs[i:i + tw], tw))
        elif tw == 1:
            out = []
            for x in vs:
                for k in range(fw):
                    if x is UNDEF:
                        out.append(UNDEF)
                    elif type(x) is int:
                        out.append(bool((x >> k) & 1))
                    else:
                        out.append(simp(z3.Extract(k, k, x) == 1))
        else:
            raise Unsupported('bitcast %r %r' % (ft, tt))
        return tuple(out) if tt[0] == 'vec' else out[0]

    def gep(self, bt, pt, p, idx):
        n = None
        if pt[0] == 'vec':
            n = pt[1]
        for it, x in idx:
            if it[0] == 'vec':
                n = it[1]
        if n is not None:
            out = []
            for l in range(n):
                pl = p[l] if pt[0] == 'vec' else p
                il = [((it[2], x[l]) if it[0] == 'vec' else (it, x)) for it, x in idx]
                out.append(self.gep(bt, PTR, pl, il))
            return tuple(out)
        t = bt
        first = True
        off = 0
        for it, x in idx:
            if first:
                s = size_of(t)
                first = False
            elif t[0] == 'struct':
                if type(x) is not int:
                    raise Unsupported('symbolic struct index')
                off = self._addoff(off, struct_layout(t)[0][x])
                t = t[1][x]
                continue
            else:
                t = t[2]
                s = size_of(t)
            if x is UNDEF:
                return UNDEF
            iw = it[1]
            if type(x) is int:
                off = self._addoff(off, sgn(x, iw) * s)
            else:
                if type(x) is Ptr:
                    x = self.addr(x)
                X = sext(x, iw, 64) if iw < 64 else (x if iw == 64 else trunc(x, iw, 64))
                off = self._addoff(off, arith('mul', X, s, 64))
        return self.padd(p, off)

    def _addoff(self, a, b):
        if type(a) is int and type(b) is int:
            return a + b
        if type(a) is int:
            a &= mask(64)
        if type(b) is int:
            b &= mask(64)
        return arith('add', a, b, 64)

    # ---------------------------------------------------------------- instruction handlers
    def i_bin(self, st, regs, ins, f):
        _, dst, op, t, a, b, flags = ins
        regs[dst] = self.binop(st, op, t, self.ev(f, regs, a, t), self.ev(f, regs, b, t), flags)

    def i_load(self, st, regs, ins, f):
        _, dst, t, p, al = ins
        regs[dst] = self.load(st, self.ev(f, regs, p, PTR), t, al)

    def i_store(self, st, regs, ins, f):
        _, _, t, v, p, al = ins
        self.store(st, self.ev(f, regs, p, PTR), t, self.ev(f, regs, v, t), al)

    def i_gep(self, st, regs, ins, f):
        _, dst, bt, pt, p, idx, inb = ins
        regs[dst] = self.gep(bt, pt, self.ev(f, regs, p, pt), [(it, self.ev(f, regs, x, it)) for it, x in idx])

    def i_cast(self, st, regs, ins, f):
        _, dst, op, ft, v, tt = ins
        regs[dst] = self.cast(op, ft, self.ev(f, regs, v, ft), tt, st)

    def i_icmp(self, st, regs, ins, f):
        _, dst, pred, t, a, b = ins
        regs[dst] = self.icmp_v(pred, t, self.ev(f, regs, a, t), self.ev(f, regs, b, t))

    def i_fcmp(self, st, regs, ins, f):
        _, dst, pred, t, a, b = ins
        A, B = self.ev(f, regs, a, t), self.ev(f, regs, b, t)
        if t[0] == 'vec':
            regs[dst] = tuple(fpm.fcmp(pred, x, y, t[2][1]) for x, y in zip(A, B))
        else:
            regs[dst] = fpm.fcmp(pred, A, B, t[1])

    def i_fneg(self, st, regs, ins, f):
        _, dst, t, a = ins
        A = self.ev(f, regs, a, t)
        if t[0] == 'vec':
            regs[dst] = tuple(fpm.fneg(x, t[2][1]) for x in A)
        else:
            regs[dst] = fpm.fneg(A, t[1])

    def i_freeze(self, st, regs, ins, f):
        _, dst, t, a = ins
        A = self.ev(f, regs, a, t)
        if t[0] == 'vec':
            regs[dst] = tuple(fresh(width(t[2])) if x is UNDEF else x for x in A)
        else:
            regs[dst] = fresh(width(t)) if A is UNDEF else A

    def i_select(self, st, regs, ins, f):
        _, dst, ct, c, t, a, b = ins
        C = self.ev(f, regs, c, ct)
        A = self.ev(f, regs, a, t)
        B = self.ev(f, regs, b, t)
        if ct[0] == 'vec':
            regs[dst] = tuple(UNDEF if x is UNDEF else y if x is True else z if x is False else
                              self.merge_scalar(x, y, z, width(t[2])) for x, y, z in zip(C, A, B))
        elif C is True:
            regs[dst] = A
        elif C is False:
            regs[dst] = B
        elif C is UNDEF:
            regs[dst] = self.undef_of(t)
        else:
            regs[dst] = self.merge_val(C, A, B, t)

    def i_extractelement(self, st, regs, ins, f):
        _, dst, vt, v, it, i = ins
        V = self.ev(f, regs, v, vt)
        I = self.ev(f, regs, i, it)
        I = self.lane_index(st, I, vt, it, 'read')
        if type(I) is int:
            regs[dst] = V[I]
            return
        w = width(vt[2])
        r = V[-1]
        for k in reversed(range(vt[1] - 1)):
            r = self.merge_scalar(I == k, V[k], r, w)
        regs[dst] = r

    def lane_index(self, st, I, vt, it, what):
        """A lane index: simd_extract / simd_insert (the only source of these instructions in the
        unoptimised IR) are undefined for an index outside the vector."""
        n = vt[1]
        if I is UNDEF:
            self.oblige(st, 'ub', True, 'lane %s at an undefined index' % what)
        I = simp(I)
        if type(I) is int:
            self.oblige(st, 'ub', I >= n, 'lane %s outside the vector (lane %d of %d)' % (what, I, n))
        elif (n >> it[1]) == 0:
            self.oblige(st, 'ub', simp(z3.UGE(I, n)), 'lane %s outside the vector of %d lanes' % (what, n))
        return I

    def i_insertelement(self, st, regs, ins, f):
        _, dst, vt, v, et, e, it, i = ins
        V = self.ev(f, regs, v, vt)
        E = self.ev(f, regs, e, et)
        I = self.ev(f, regs, i, it)
        I = self.lane_index(st, I, vt, it, 'write')
        if type(I) is int:
            regs[dst] = V[:I] + (E,) + V[I + 1:]
            return
        w = width(vt[2])
        regs[dst] = tuple(self.merge_scalar(simp(I == k), E, V[k], w) for k in range(vt[1]))

    def i_shufflevector(self, st, regs, ins, f):
        _, dst, vt, a, b, mt, m = ins
        A = self.ev(f, regs, a, vt)
        B = self.ev(f, regs, b, vt)
        M = self.ev(f, regs, m, mt)
        AB = A + B
        regs[dst] = tuple(UNDEF if x is UNDEF else AB[x] for x in M)

    def i_extractvalue(self, st, regs, ins, f):
        _, dst, t, v, idx = ins
        V = self.ev(f, regs, v, t)
        for i in idx:
            V = UNDEF if V is UNDEF else V[i]
        regs[dst] = V

    def i_insertvalue(self, st, regs, ins, f):
        _, dst, t, v, et, e, idx = ins
        V = self.ev(f, regs, v, t)
        E = self.ev(f, regs, e, et)
        regs[dst] = self._insv(V, E, idx, t)

    def _insv(self, V, E, idx, t):
        if not idx:
            return E
        if V is UNDEF:
            V = self.undef_of(t)
        i = idx[0]
        et = t[1][i] if t[0] == 'struct' else t[2]
        return V[:i] + (self._insv(V[i], E, idx[1:], et),) + V[i + 1:]

    def i_nop(self, st, regs, ins, f):
        pass

    # ---------------------------------------------------------------- control
    def lookup(self, f, nm):
        g = f.mod.funcs.get(nm)
        if g is not None and not g.is_decl:
            return g
        h = self.symtab.get(nm)
        if h is not None:
            return h
        return g

    def call_fn(self, st, g, args):
        """execute a defined function; -> list of (state, retval)"""
        g.mod.prepare(g)
        self.funcs_used[g.name] = g.pretty
        if self.depth > self.max_call_depth:
            raise Unsupported('call depth')
        if len(args) != len(g.params):
            raise IRError('arg count for ' + g.name)
        regs = {}
        k = 0
        for i, ((t, nm), a) in enumerate(zip(g.params, args)):
            if nm is None:
                nm = '%%%d' % k
                k += 1
            regs[nm] = a
        llir.compute_ipdom(g)
        self.depth += 1
        frame = []
        regs['%%frame'] = frame
        try:
            res = self.run(st, regs, g, g.entry, 0, EXIT)
        finally:
            self.depth -= 1
        out = []
        for s, r in res:
            for oid in frame:
                s.mem.pop(oid, None)
            out.append((s, r.get('%%ret')))
        return out

    def goto(self, f, regs, frm, to):
        """evaluate phis of `to` for edge frm->to"""
        blk = f.blocks[to]
        if blk and blk[0][0] == 'phi':
            new = []
            for ins in blk:
                if ins[0] != 'phi':
                    break
                for v, lab in ins[3]:
                    if lab == frm:
                        new.append((ins[1], self.ev(f, regs, v, ins[2])))
                        break
                else:
                    raise IRError('phi edge')
            for d, v in new:
                regs[d] = v

    def run(self, st, regs, f, blk, idx, stop):
        """Run until `stop` (block name or EXIT).  -> list of (state, regs)."""
        results = []
        work = [(st, regs, blk, idx)]
        while work:
            st, regs, blk, idx = work.pop()
            try:
                self._run1(st, regs, f, blk, idx, stop, work, results)
            except PathDead:
                pass
            if len(work) > self.max_states:
                raise Unsupported('too many states in %s' % f.name)
        if len(results) > 1:
            results = self.merge_all(results, f)
        return results

    def _run1(self, st, regs, f, blk, idx, stop, work, results):
        while True:
            if blk == stop and idx == 0:
                results.append((st, regs))
                return
            body = f.blocks[blk]
            n = len(body)
            while idx < n:
                ins = body[idx]
                k = ins[0]
                self.steps += 1
                h = self.h.get(k)
                if h is not None:
                    h(st, regs, ins, f)
                    idx += 1
                    continue
                if k == 'phi':
                    idx += 1
                    continue
                if k == 'alloca':
                    _, dst, t, nt, cnt, al = ins
                    c = self.ev(f, regs, cnt, nt)
                    if type(c) is not int:
                        raise Unsupported('dynamic alloca')
                    oid = self.new_obj(st, size_of(t) * c, f.name[:40] + dst, max(al, 1))
                    regs['%%frame'].append(oid)
                    regs[dst] = Ptr(oid, 0)
                    idx += 1
                    continue
                if k == 'call':
                    r = self.do_call(st, regs, ins, f)
                    # list of (state, value)
                    if not r:
                        return
                    nxt = ins[5]
                    for s2, v in r[1:]:
                        rg = dict(regs)
                        if ins[1] is not None:
                            rg[ins[1]] = v
                        if nxt:
                            self.goto(f, rg, blk, nxt)
                            work.append((s2, rg, nxt, 0))
                        else:
                            work.append((s2, rg, blk, idx + 1))
                    st, v = r[0]
                    if ins[1] is not None:
                        regs = dict(regs) if len(r) > 1 else regs
                        regs[ins[1]] = v
                    if nxt:
                        self.goto(f, regs, blk, nxt)
                        blk, idx = nxt, 0
                        break
                    idx += 1
                    continue
                if self.steps > self.max_steps:
                    raise Unsupported('step limit')
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported('deadline')
                if k == 'br':
                    self.goto(f, regs, blk, ins[2])
                    blk, idx = ins[2], 0
                    break
                if k == 'condbr':
                    c = self.ev(f, regs, ins[2], llir.I1)
                    c = simp(c)
                    if c is UNDEF:
                        self.oblige(st, 'ub', True, 'branch on undefined value')
                    if c is True or c is False:
                        to = ins[3] if c else ins[4]
                        self.goto(f, regs, blk, to)
                        blk, idx = to, 0
                        break
                    self.branch(st, regs, f, blk, [(c, ins[3]), (z3.Not(c), ins[4])], stop, work, results)
                    return
                if k == 'switch':
                    t = ins[2]
                    v = simp(self.ev(f, regs, ins[3], t))
                    if v is UNDEF:
                        self.oblige(st, 'ub', True, 'switch on undefined value')
                    if type(v) in (int, bool):
                        to = ins[4]
                        for cv, lab in ins[5]:
                            if cv == v:
                                to = lab
                                break
                        self.goto(f, regs, blk, to)
                        blk, idx = to, 0
                        break
                    alts = []
                    neg = []
                    for cv, lab in ins[5]:
                        e = eq(v, cv, t[1])
                        alts.append((and_(e), lab))
                        neg.append(z3.Not(e))
                    alts.append((mk_and(neg) if neg else True, ins[4]))
                    self.branch(st, regs, f, blk, alts, stop, work, results)
                    return
                if k == 'ret':
                    if ins[3] is not None:
                        regs['%%ret'] = self.ev(f, regs, ins[3], ins[2])
                        regs['%%rett'] = ins[2]
                    if stop != EXIT:
                        raise IRError('ret before post-dominator in ' + f.name)
                    results.append((st, regs))
                    return
                if k == 'unreachable':
                    self.obls.append(('ub', st.pc, True, 'unreachable executed in ' + (f.pretty or f.name)))
                    return
                raise Unsupported('%s in %s' % (ins, f.name))
            else:
                raise IRError('fell off block')

    def branch(self, st, regs, f, blk, alts, stop, work, results):
        live = []
        for c, to in alts:
            if self.feasible(st.pc, c):
                live.append((c, to))
        if not live:
            return
        if len(live) == 1:
            c, to = live[0]
            # the path condition implies c: no need to record it
            self.goto(f, regs, blk, to)
            work.append((st, regs, to, 0))
            return
        j = f.ipdom.get(blk)
        self.forks += len(live) - 1
        out = []
        for i, (c, to) in enumerate(live):
            s2 = st.fork(c)
            r2 = dict(regs)
            self.goto(f, r2, blk, to)
            if j is None:
                # no return reachable from here: run to the bitter end
                out += self.run(s2, r2, f, to, 0, stop)
            elif to == j:
                out.append((s2, r2))
            else:
                out += self.run(s2, r2, f, to, 0, j)
        if j is None:
            results += out
            return
        if not out:
            return
        out = self.merge_all(out, f)
        for s, r in out:
            if j == stop:
                results.append((s, r))
            else:
                work.append((s, r, j, 0))

    # ---------------------------------------------------------------- merging
    def merge_all(self, lst, f):
        out = []
        for x in lst:
            done = False
            for i, y in enumerate(out):
                try:
                    out[i] = self.merge2(y, x, f)
                    done = True
                    break
                except Unmergeable:
                    continue
            if not done:
                out.append(x)
        if len(out) > self.max_states:
            raise Unsupported('state explosion')
        return out

    def merge2(self, A, B, f):
        sa, ra = A
        sb, rb = B
        if sa.ev is not sb.ev and sa.ev != sb.ev:
            raise Unmergeable()
        pa, pb = sa.pc, sb.pc
        n = 0
        m = min(len(pa), len(pb))
        while n < m and pa[n] is pb[n]:
            n += 1
        sufa, sufb = pa[n:], pb[n:]
        if not sufa and not sufb:
            raise Unmergeable()
        c = None
        if sufa and sufb:
            x, y = sufa[0], sufb[0]
            if (z3.is_not(y) and y.arg(0).eq(x)) or (z3.is_not(x) and x.arg(0).eq(y)):
                c = x
        full = c is not None and len(sufa) == 1 and len(sufb) == 1
        ca = mk_and(sufa) if len(sufa) > 1 else sufa[0] if sufa else z3.BoolVal(True)
        cb = mk_and(sufb) if len(sufb) > 1 else sufb[0] if sufb else z3.BoolVal(True)
        if c is None:
            c = ca
        st = State(dict(sa.mem), pa[:n] if full else pa[:n] + (z3.Or(ca, cb),), sa.ev)
        self.merges += 1
        # memory
        for oid, ob in sb.mem.items():
            oa = sa.mem.get(oid)
            if oa is None:
                st.mem[oid] = ob
                continue
            if oa is ob:
                continue
            st.mem[oid] = self.merge_obj(c, oa, ob, st.tok)
        # registers
        regs = {}
        for k, va in ra.items():
            if k in rb:
                vb = rb[k]
                if va is vb or k == '%%frame' or k == '%%rett':
                    regs[k] = va
                else:
                    regs[k] = self.merge_any(c, va, vb, f, k, ra)
        return st, regs

    def merge_any(self, c, a, b, f, k, ra):
        t = ra.get('%%rett') if k == '%%ret' else self.reg_type(f, k)
        if t is None:
            raise Unmergeable()
        return self.merge_val(c, a, b, t)

    def reg_type(self, f, k):
        d = self.cache.get(('rt', f.name, f.mod.path))
        if d is None:
            d = {}
            for b in f.blocks.values():
                for ins in b:
                    if ins[1] is None:
                        continue
                    op = ins[0]
                    if op == 'bin':
                        d[ins[1]] = ins[3]
                    elif op == 'load':
                        d[ins[1]] = ins[2]
                    elif op == 'cast':
                        d[ins[1]] = ins[5]
                    elif op in ('icmp', 'fcmp'):
                        d[ins[1]] = ('i', 1) if ins[3][0] != 'vec' else ('vec', ins[3][1], ('i', 1))
                    elif op == 'phi':
                        d[ins[1]] = ins[2]
                    elif op == 'call':
                        d[ins[1]] = ins[2]
                    elif op == 'select':
                        d[ins[1]] = ins[4]
                    elif op in ('fneg', 'freeze'):
                        d[ins[1]] = ins[2]
                    elif op in ('alloca', 'gep'):
                        d[ins[1]] = PTR
                    elif op == 'extractelement':
                        d[ins[1]] = ins[2][2]
                    elif op in ('insertelement', 'insertvalue'):
                        d[ins[1]] = ins[2]
                    elif op == 'shufflevector':
                        d[ins[1]] = ('vec', ins[5][1], ins[2][2])
                    elif op == 'extractvalue':
                        t = ins[2]
                        for i in ins[4]:
                            t = t[1][i] if t[0] == 'struct' else t[2]
                        d[ins[1]] = t
            for t, nm in f.params:
                if nm:
                    d[nm] = t
            self.cache[('rt', f.name, f.mod.path)] = d
        return d.get(k)

    def merge_obj(self, c, a, b, tok):
        o = Obj(a.oid, a.size, a.base, a.name, None, tok, a.lazy, a.ro)
        ca, cb = a.chunks, b.chunks
        ch = o.chunks
        todo = set(ca) | set(cb)
        bad = []
        for k in todo:
            x, y = ca.get(k), cb.get(k)
            if x is not None and y is not None:
                if x is y:
                    ch[k] = x
                    continue
                if x[1] == y[1]:
                    if same(x[0], y[0]):
                        ch[k] = x
                    else:
                        ch[k] = (self.merge_scalar(c, x[0], y[0], 8 * x[1]), x[1])
                    continue
            bad.append(k)
        if bad:
            # byte-wise for the regions that are chunked differently or initialised on one side only
            A, B = a.clone(None), b.clone(None)
            region = set()
            for k in bad:
                for src in (ca, cb):
                    if k in src:
                        region.update(range(k, k + src[k][1]))
            # a region byte may be covered by a chunk already merged above (cannot be, same key/size) or
            # by chunks starting earlier on the other side
            simple = all((k in ca) != (k in cb) for k in bad) and not self._overlap(bad, ca, cb)
            if simple:
                for k in bad:
                    x = ca.get(k) or cb.get(k)
                    if o.lazy is not None:
                        other = self._get(B if k in ca else A, k, x[1])
                        va, vb = (x[0], other) if k in ca else (other, x[0])
                        ch[k] = (self.merge_scalar(c, va, vb, 8 * x[1]), x[1])
                    else:
                        u = fresh(8 * x[1]) if x[1] * 8 > 1 else fresh(8)
                        va, vb = (x[0], u) if k in ca else (u, x[0])
                        ch[k] = (self.merge_scalar(c, va, vb, 8 * x[1]), x[1])
                return o
            grown = True
            while grown:
                grown = False
                for src in (ca, cb):
                    for k, (v, n) in src.items():
                        r = range(k, k + n)
                        if any(i in region for i in r) and not all(i in region for i in r):
                            region.update(r)
                            grown = True
            for k in list(ch):
                if k in region:
                    del ch[k]
            for i in sorted(region):
                x = self._as_int(self._get(A, i, 1), 8)
                y = self._as_int(self._get(B, i, 1), 8)
                if x is UNDEF and y is UNDEF:
                    continue
                ch[i] = (simp(ite(c, x, y, 8)), 1)
        return o

    def _overlap(self, bad, ca, cb):
        for k in bad:
            src, oth = (ca, cb) if k in ca else (cb, ca)
            n = src[k][1]
            for j in range(k - 15, k + n):
                x = oth.get(j)
                if x is not None and j + x[1] > k:
                    return True
        return False

    # ---------------------------------------------------------------- calls
    def do_call(self, st, regs, ins, f):
        _, dst, rt, callee, args, normal, noret = ins
        if callee[0] == 'g':
            nm = callee[1]
            if nm.startswith('@llvm.'):
                vals = [self.ev(f, regs, a, t) if t[0] != 'metadata' else None for t, a in args]
                from . import intrin
                return intrin.call(self, st, nm[1:], rt, [t for t, a in args], vals)
            g = self.lookup(f, nm)
        else:
            fp = self.ev(f, regs, callee, PTR)
            if type(fp) is not FnPtr:
                fp = simp(self.addr(fp)) if fp is not UNDEF else fp
                if type(fp) is int and fp in self.addrfn:
                    fp = self.addrfn[fp]
                else:
                    raise Unsupported('indirect call through symbolic pointer')
            nm = fp.name
            g = fp.mod.funcs.get(nm)
            if g is None or g.is_decl:
                g = self.symtab.get(nm, g)
        vals = [self.ev(f, regs, a, t) if t[0] != 'metadata' else None for t, a in args]
        return self.invoke(st, f, nm, g, rt, [t for t, a in args], vals, noret)

    def invoke(self, st, f, nm, g, rt, tys, vals, noret=False):
        pretty = (g.pretty if g is not None else '') or nm[1:]
        for rx, h in self.stubs:
            if rx.search(pretty) or rx.search(nm):
                r = h(self, st, nm, pretty, rt, tys, vals)
                if r is not NotImplemented:
                    return r
        if PANIC_RE.match(pretty):
            self.panics.append((st.pc, pretty))
            return []
        if g is not None and not g.is_decl:
            return self.call_fn(st, g, vals)
        if g is not None:
            g.mod.prepare(g)
            if g.noreturn or noret:
                self.panics.append((st.pc, pretty))
                return []
        from . import intrin
        r = intrin.extern(self, st, nm[1:], pretty, rt, tys, vals)
        if r is not None:
            return r
        raise Unsupported('external function %s (%s)' % (nm, pretty))


def ovf(op, a, b, w):
    """overflow predicate: uadd usub umul sadd ssub smul"""
    k = op[1:]
    if op[0] == 'u':
        if k == 'sub':
            return icmp('ult', a, b, w)
        if k == 'add':
            r = arith('add', a, b, w)
            return icmp('ult', r, a, w)
        W = 2 * w
        r = arith('mul', zext(a, w, W), zext(b, w, W), W)
        return icmp('ugt', r, mask(w), W)
    W = w + 1 if k != 'mul' else 2 * w
    r = arith(k, sext(a, w, W), sext(b, w, W), W)
    t = sext(trunc(r, W, w), w, W)
    return not_(eq(r, t, W))
