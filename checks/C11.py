"""Compile-time shuffles."""
import random
from vsym.dsl import *


def b(t, x):
    return x if t.kind == 'm' else bits(x)


def out_ty(t, n):
    for q in ALL:
        if q.elem == t.elem and q.n == n:
            return q


def patterns(nin, nout, rnd, extra):
    """index lists of length nout into nin lanes; every output position sees distinct source lanes across patterns"""
    ps = [[k % nin for k in range(nout)], [(nin - 1 - k) % nin for k in range(nout)]]
    ps.append([(k // 2 + (nin // 2 if k % 2 else 0)) % nin for k in range(nout)])
    for _ in range(extra):
        if nout <= nin:
            ps.append(rnd.sample(range(nin), nout))
        else:
            ps.append([rnd.randrange(nin) for _ in range(nout)])
    out = []
    for p in ps:
        if p not in out:
            out.append(p)
    return out


def shuf(t, o, idx, two, tag):
    ix = ', '.join(map(str, idx))
    args = dict(a=In(t), b=In(t), o=Out(o), n=Out('u32', 2))
    if two:
        body = ('let mut q = [0u32; 2]; *o = shuffle!({ q[0] += 1; *a }, { q[1] += 1; *b }, [%s]); *n = q[0]; '
                '*n.add(1) = q[1];' % ix)
    else:
        body = 'let mut q = 0u32; *o = shuffle!({ q += 1; *a }, [%s]); *n = q; *n.add(1) = 1;' % ix

    def spec(c):
        s = c.i['a'] + c.i['b']
        return dict(o=[b(t, s[k]) for k in idx], n=[1, 1])
    return Case('shuffle%d_%s__%s_%s' % (2 if two else 1, tag, t.name, o.name), args, body, spec, cost=o.n,
                cls='shuffle%d' % (2 if two else 1))


class P(Prop):
    id = 'C11'
    bounds = ('every (input type, output lane count) the macro accepts, one and two inputs, all lane values; index lists are '
              'compile-time constants: identity, reversed, interleaved and seeded random lists per pair (quick: 1 random, '
              'thorough: 8)')

    def configs(self, tier):
        return ['base', 'dev', 'avx2'] if tier == 'quick' else ['base', 'ssse3', 'avx', 'avx2', 'dev']

    def cases(self, tier, cfg):
        import os
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        cs = []
        for t in ALL:
            for no in (2, 4, 8, 16, 32, 64):
                o = out_ty(t, no)
                if o is None:
                    continue
                for two in (False, True):
                    nin = t.n * (2 if two else 1)
                    if no > 2 * t.n:
                        continue
                    rnd = random.Random('%s %d %s %d' % (t.name, no, two, seed))
                    for j, p in enumerate(patterns(nin, no, rnd, 1 if tier == 'quick' else 8)):
                        cs.append(shuf(t, o, p, two, str(j)))
        return cs


PROP = P()
