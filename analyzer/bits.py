"""Bit addressing (C21): a known-bits evaluation of index, shift, mask and table arithmetic over the interpreted terms."""
import itertools
from terms import *
from units import Unit, run_unit, unit, okv, is_err, where, absent, strip, murky, arg, CONFIGS, RULES
from contract import segment
from absint import Event, short, PhiName, Unsupported, Budget

W = 128
ALL = (1 << W) - 1
P = 'C21'


# ---- abstract numbers: (known zeros, known ones) and affine a*q + c ---------------------------
class N:
    """A number: zero bits z, one bits o; and, when known, its exact form a*q + c over the symbolic quotient q."""
    __slots__ = ('z', 'o', 'a', 'c')

    def __init__(self, z=0, o=0, a=None, c=None):
        self.z, self.o, self.a, self.c = z, o, a, c

    @property
    def const(self):
        return self.c if self.a == 0 else None

    def span(self):
        return (self.o, ALL & ~self.z)

    def __repr__(self):
        return 'N(%s)' % (self.c if self.a == 0 else '%s*q+%s' % (self.a, self.c) if self.a is not None else bin(self.o))


def num(c):
    if c < 0:
        return N(0, 0, 0, c)
    return N(ALL & ~c, c, 0, c)


def aff(a, c):
    if a == 0:
        return num(c)
    z = o = 0
    if a > 0 and c >= 0:
        low = (a & -a) - 1
        z, o = low & ~c, low & c
    return N(z, o, a, c)


def kb(z, o):
    if (z | o) & ALL == ALL:
        return num(o)
    return N(z & ALL, o & ALL)


def add2(x, y):
    if x.a is not None and y.a is not None:
        return aff(x.a + y.a, x.c + y.c)
    if x.const is not None and x.const < 0 or y.const is not None and y.const < 0:
        return None
    z = o = 0
    carry = (True, False)   # (may be 0, may be 1)
    for i in range(W):
        b = 1 << i
        xs = [v for v, m in ((0, x.o), (1, x.z)) if not m & b]
        ys = [v for v, m in ((0, y.o), (1, y.z)) if not m & b]
        cs = [v for v in (0, 1) if carry[v]]
        sums = {p + q + c for p in xs for q in ys for c in cs}
        bits = {s & 1 for s in sums}
        if bits == {0}:
            z |= b
        elif bits == {1}:
            o |= b
        cc = {s >> 1 for s in sums}
        carry = (0 in cc, 1 in cc)
    return kb(z, o)


def scale2(x, k):
    if x.a is not None:
        return aff(x.a * k, x.c * k)
    if k >= 0:
        r = num(0)
        for i in range(k.bit_length()):
            if k >> i & 1:
                r = add2(r, kb((x.z << i | ((1 << i) - 1)) & ALL, x.o << i & ALL))
        return r
    return None


WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}


def ev(t, env):
    """Abstract number of term t, or None when it is not determined this way."""
    r = env.get(t)
    if r is not None:
        return r
    o, a = t.op, t.args
    if o == 'int':
        return num(a[0])
    if o == 'lin':
        pos, rest = num(max(a[0], 0)), []
        items = [(k, v) for k, v in a[1]]
        vals = [(ev(k, env), v) for k, v in items]
        if any(v is None for v, _ in vals):
            return None
        if all(v.a is not None for v, _ in vals):
            r = aff(0, a[0])
            for v, k in vals:
                r = add2(r, scale2(v, k))
            return r
        r = num(a[0])
        for v, k in sorted(vals, key=lambda x: -x[1]):
            s = scale2(v, k)
            r = add2(r, s) if s is not None and r is not None else None
        return r
    if o == 'trunc':
        x = ev(a[1], env)
        if x is None:
            return kb(ALL & ~((1 << a[0]) - 1), 0)
        if x.const is not None:
            return num(x.const & ((1 << a[0]) - 1))
        m = (1 << a[0]) - 1
        return kb(x.z | ALL & ~m, x.o & m)
    if o == 'at' and a[0].op in ('bytes', 'seq'):
        tab = list(a[0].args[0]) if a[0].op == 'bytes' else [x.args[0] if x.op == 'int' else None for x in a[0].args[1:] if isinstance(x, T)]
        if None in tab:
            return None
        x = ev(a[1], env)
        ent = [v for i, v in enumerate(tab) if x is None or (x.const == i if x.a == 0 else not (i & x.z) and not (~i & x.o))]
        if not ent:
            return None
        z, on = ALL, ALL
        for v in ent:
            z, on = z & ~v, on & v
        return kb(z & ALL, on)
    if o == 'bool2int':
        b = evb(a[0], env)
        return num(int(b)) if b is not None else None
    if o == 'arith':
        n, xs = a[0], [ev(x, env) for x in a[1:]]
        if n.startswith('num::'):
            n, _, ty = n[5:].partition(':')
            w = WIDTH.get(ty)
            x = xs[0]
            if n in ('leading_zeros', 'ilog2') and x is not None and x.o:
                top = x.o.bit_length() - 1
                if not (ALL & ~x.z) >> (top + 1):
                    return num(top if n == 'ilog2' else w - 1 - top) if n == 'ilog2' or w else None
            if n == 'pow' and len(xs) == 2 and all(v is not None and v.const is not None for v in xs):
                return num(xs[0].const ** xs[1].const) if 0 <= xs[1].const < 64 else None
            if n == 'rem_euclid':
                n = 'Rem'
            elif n == 'div_euclid':
                n = 'Div'
            else:
                return None
        if n == 'Not':
            x = xs[0]
            return N(x.o, x.z) if x is not None and (x.const is None or x.const >= 0) else None
        if len(xs) != 2:
            return None
        x, y = xs
        if n in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = x or kb(0, 0), y or kb(0, 0)
            if n == 'BitAnd':
                r = kb(x.z | y.z, x.o & y.o)
            elif n == 'BitOr':
                r = kb(x.z & y.z, x.o | y.o)
            else:
                r = kb(x.z & y.z | x.o & y.o, x.z & y.o | x.o & y.z)
            if r.a is None:     # q-forms whose low bits alone are changed stay exact
                for p, k in ((x, y), (y, x)):
                    if p.a and k.const is not None and p.a & (p.a - 1) == 0 and p.a > 0 and 0 <= p.c < p.a:
                        m = p.a - 1
                        if n == 'BitAnd' and k.const & m != k.const and (k.const | m) & ((1 << 64) - 1) == (1 << 64) - 1:
                            return aff(p.a, p.c & k.const & m)
                        if n == 'BitOr' and k.const <= m:
                            return aff(p.a, p.c | k.const)
                        if n == 'BitXor' and k.const <= m:
                            return aff(p.a, p.c ^ k.const)
            return r
        if x is None or y is None:
            return None
        if n == 'Shr' and y.const is not None and y.const >= 0:
            k = y.const
            if x.a is not None and x.a % (1 << k) == 0 and x.c >= 0:
                return aff(x.a >> k, x.c >> k)
            return kb(x.z >> k | ALL & ~(ALL >> k), x.o >> k) if x.const is None or x.const >= 0 else None
        if n == 'Shl' and y.const is not None and y.const >= 0:
            return scale2(x, 1 << y.const)
        if n in ('Div', 'Rem') and y.const:
            k = y.const
            if x.a is not None and x.a % k == 0 and x.c >= 0:
                return aff(x.a // k, x.c // k) if n == 'Div' else num(x.c % k)
            if k & (k - 1) == 0 and (x.const is None or x.const >= 0):
                s = k.bit_length() - 1
                return kb(x.z >> s | ALL & ~(ALL >> s), x.o >> s) if n == 'Div' else kb(x.z | ALL & ~(k - 1), x.o & (k - 1))
        if n == 'Mul':
            for p, q in ((x, y), (y, x)):
                if p.const is not None:
                    return scale2(q, p.const)
        return None
    return None


def evb(t, env):
    """True, False or None for a boolean term."""
    if t.op == 'int':
        return bool(t.args[0])
    r = env.get(t)
    if isinstance(r, bool):
        return r
    if t.op == 'not':
        v = evb(t.args[0], env)
        return None if v is None else not v
    if t.op in ('eq0', 'le0'):
        x = ev(t.args[0], env)
        if x is None:
            return None
        if x.a is not None and x.a != 0:
            return None
        if x.const is not None:
            return x.const == 0 if t.op == 'eq0' else x.const <= 0
        if x.o:
            return False
        return None
    if t.op == 'eq':
        x, y = ev(t.args[0], env), ev(t.args[1], env)
        if x is None or y is None:
            return None
        if x.a is not None and y.a is not None and x.a == y.a:
            return x.c == y.c
        if x.o & y.z or x.z & y.o:
            return False
        return None
    if t.op in ('and', 'or'):
        x, y = evb(t.args[0], env), evb(t.args[1], env)
        d = t.op == 'or'
        if x is d or y is d:
            return d
        return x if x is y else None
    return None


def fact_ok(k, v, env):
    """True/False when the fact certainly holds/fails in env, None when undetermined."""
    if isinstance(k, tuple):
        if k[0] == 'b':
            x = ev(k[1], env)
            if x is None or x.a:
                return None
            lo, hi = v
            if x.const is not None:
                return (lo is None or x.const >= lo) and (hi is None or x.const <= hi)
            mn, mx = x.span()
            if lo is not None and mx < lo or hi is not None and mn > hi:
                return False
            if (lo is None or mn >= lo) and (hi is None or mx <= hi):
                return True
            return None
        return None
    if isinstance(v, bool):
        b = evb(k, env)
        return None if b is None else b == v
    return None


def feasible(facts, env):
    return not any(fact_ok(k, v, env) is False for k, v in facts.items())


# ---- one bit of a key ------------------------------------------------------------------------
PROBES = tuple(range(4)) + tuple(x for n in range(3, 18) for x in ((1 << n) - 1, 1 << n)) + (1000, 100000)


def misplaced(ix, pos, s, facts):
    """A byte index that is certainly not the quotient for some quotient the path allows."""
    for q in PROBES:
        env = {pos: num(8 * q + s)}
        i = ev(ix, env)
        if i is not None and i.const is not None and i.const != q and feasible(facts, env):
            return '%d for byte %d' % (i.const, q)
    return None


def bit_env(t_list, key, pos, facts):
    """Environments for every residue of the position and both values of the addressed bit; yields (s, b, env, wrong) where wrong
    lists the bytes of key read at a place that is certainly not the addressed one."""
    reads = set()
    for t in t_list:
        for x in subterms(t):
            if x.op == 'at' and strip(x.args[0]) is key:
                reads.add(x)
    for s in range(8):
        for b in (0, 1):
            env = {pos: aff(8, s)}
            wrong, lost = [], []
            for x in reads:
                i = ev(x.args[1], env)
                if i is not None and i.a == 1 and i.c == 0:
                    m = 1 << (7 - s)
                    env[x] = kb(ALL & ~0xff | (0 if b else m), m if b else 0)
                elif i is not None and i.a is not None:
                    wrong.append((x, i))
                elif misplaced(x.args[1], pos, s, facts):
                    wrong.append((x, misplaced(x.args[1], pos, s, facts)))
                else:
                    lost.append(x)
            yield s, b, env, wrong, lost


def bound(facts, t):
    """Known bounds of t, whichever way round the fact is kept."""
    v = facts.get(('b', t))
    if v is not None:
        return v
    v = facts.get(('b', scale(t, -1)))
    return None if v is None else (None if v[1] is None else -v[1], None if v[0] is None else -v[0])


def fterms(facts):
    return [k[1] if isinstance(k, tuple) else k for k in facts]


def known_bit(facts, key, pos):
    """(bits the addressed bit of key can have under these facts, were all the facts about the key decided?)"""
    rel = {k: v for k, v in facts.items() if contains(k[1] if isinstance(k, tuple) else k, key) or contains(k[1] if isinstance(k, tuple) else k, pos)}
    poss, sure = set(), True
    for s, b, env, wrong, lost in bit_env(fterms(rel), key, pos, rel):
        if lost:
            sure = False
        if wrong:
            poss.add(b)
            continue
        if feasible(rel, env):
            poss.add(b)
        for k, v in rel.items():
            t = k[1] if isinstance(k, tuple) else k
            if isinstance(k, tuple) and k[0] == 'v' or not any(contains(t, x) for x in env if x is not pos):
                continue
            if fact_ok(k, v, env) is None:
                sure = False
    return poss, sure


def bit_test(R, cfg, rule, idn, span, fn, paths, key, pos, ok_of, fails_ok):
    """The body answers whether the addressed bit of key is zero."""
    n = 0
    for i, p in enumerate(paths):
        v = ok_of(p)
        if v is None:
            if not is_err(p):
                R.check(P, rule, idn + (i,), 'unknown', span, 'answers %s' % show(p.value, 4), fn)
                continue
            out = any(isinstance(k, tuple) and k[0] == 'v' and x == 'None' for k, x in p.facts.items())
            bounds = [k for k in p.facts if isinstance(k, tuple) and k[0] == 'b' and contains(k[1], pos)]
            R.check(P, rule, idn + (i,), 'ok' if out else 'unknown', span, 'fails %s' % ('when the position lies beyond the key' if out else 'on a condition'), fn)
            continue
        v = strip(v)
        terms = [v] + fterms(p.facts)
        for s, b, env, wrong, lost in bit_env(terms, key, pos, p.facts):
            n += 1
            d = idn + (i, s, b)
            if wrong:
                x, at = wrong[0]
                R.check(P, rule, d, 'bad', span, 'position 8q+%d reads byte %r instead of byte q' % (s, at), fn)
                continue
            if lost:
                R.check(P, rule, d, 'unknown', span, 'reads %s' % show(lost[0], 5), fn)
                continue
            if not feasible(p.facts, env):
                R.check(P, rule, d, 'ok', span, 'position 8q+%d with bit %d does not take this path' % (s, b), fn)
                continue
            r = evb(v, env)
            if r is None:
                R.check(P, rule, d, 'bad' if refuted(v, p.facts, env, b == 0) is not None else 'unknown', span, 'position 8q+%d with bit %d: answer %s is not the addressed bit' % (s, b, show(v, 6)), fn)
                continue
            opened = [k for k, x in p.facts.items() if not (isinstance(k, tuple) and k[0] == 'v') and fact_ok(k, x, env) is None and any(contains(k[1] if isinstance(k, tuple) else k, e) for e in env)]
            good = r == (b == 0)
            R.check(P, rule, d, 'ok' if good else 'unknown' if opened else 'bad', span, 'position 8q+%d with bit %d answers %s' % (s, b, 'zero' if r else 'one'), fn)
    return n


def complete(env):
    """All ways to fill in the undetermined bits of the bytes in env (one byte), and small quotients for a*q+c forms."""
    bytes_ = [(t, x) for t, x in env.items() if isinstance(x, N) and x.a is None]
    pos = [(t, x) for t, x in env.items() if isinstance(x, N) and x.a]
    if len(bytes_) > 1:
        return
    for q in (0, 1, 2, 3, 15, 16, 31, 32, 33, 63, 64, 127, 128) if pos else (0,):
        base = dict(env)
        for t, x in pos:
            base[t] = num(x.a * q + x.c)
        if not bytes_:
            yield base
            continue
        t, x = bytes_[0]
        for v in range(256):
            if not v & x.z and not ~v & x.o & 0xff:
                e = dict(base)
                e[t] = num(v)
                yield e


def refuted(v, facts, env, want):
    """Is there a full assignment of the byte (and a small quotient) under which every relevant fact holds and v is not want?"""
    mine = [t for t, x in env.items() if isinstance(x, N)]
    rel = {k: x for k, x in facts.items() if not (isinstance(k, tuple) and k[0] == 'v') and any(contains(k[1] if isinstance(k, tuple) else k, t) for t in mine)}
    for e in complete(env):
        r = evb(v, e) if isinstance(want, bool) else ev(v, e)
        if r is None or not isinstance(want, bool) and r.const is None:
            continue
        if (r if isinstance(want, bool) else r.const) != want and all(fact_ok(k, x, e) for k, x in rel.items()):
            return r if isinstance(want, bool) else r.const
    return None


# ---- highest differing bit -------------------------------------------------------------------
def high(h):
    """A byte whose highest one bit is h."""
    return kb(ALL & ~((2 << h) - 1), 1 << h)


def xors(t, ours):
    """Xor terms of two bytes in t."""
    out = []
    for x in subterms(t):
        if x.op == 'arith' and x.args[0] == 'BitXor' and all(ours(y) for y in x.args[1:]):
            out.append(x)
    return out


def is_byte(t):
    return t.op == 'at' and t.args[0].op not in ('bytes', 'seq')


class Div:
    """A divergence position: E = 8*j + 7 - (highest differing bit of bytes A[j] and B[j])."""
    def __init__(self, verdict, why, a=None, b=None, j=None):
        self.verdict, self.why, self.a, self.b, self.j = verdict, why, a, b, j


def divergence(E, facts=None):
    xs = xors(E, is_byte)
    if len(set(xs)) != 1:
        return Div('unknown', 'no single pair of bytes compared in %s' % show(E, 5))
    x, = set(xs)
    A, B = x.args[1], x.args[2]
    if A.args[1] is not B.args[1]:
        d = add(A.args[1], B.args[1], -1)
        return Div('bad' if d.op == 'int' else 'unknown', 'bytes at different places are compared: %s and %s' % (show(A, 4), show(B, 4)), A.args[0], B.args[0], A.args[1])
    j = A.args[1]
    rest = add(E, scale(j, 8), -1)
    for h in range(8):
        env = {x: high(h)}
        if facts is not None and not feasible({k: v for k, v in facts.items() if contains(k[1] if isinstance(k, tuple) else k, x)}, env):
            continue
        r = ev(rest, env)
        if r is None or r.const is None:
            w = refuted(rest, facts or {}, env, 7 - h)
            if w is not None:
                return Div('bad', 'bytes that differ first at bit %d of byte j can give position 8*j%+d' % (7 - h, w), A.args[0], B.args[0], j)
            _, parts = lin_parts(rest)
            off = [k for k in parts if ev(k, env) is None]
            plain = off and all(k is j for k in off) and all(ev(k, env).const is not None for k in parts if k not in off)
            return Div('bad' if plain else 'unknown', '%s is not 8*j + 7 - highest differing bit' % show(E, 6), A.args[0], B.args[0], j)
        if r.const != 7 - h:
            return Div('bad', 'bytes that differ first at bit %d of byte j give position 8*j+%d' % (7 - h, r.const), A.args[0], B.args[0], j)
    return Div('ok', 'first differing bit of byte j for each of the 8 highest differing bits', A.args[0], B.args[0], j)


def div_offset(pos):
    """The constant that makes pos a divergence position (0 when there is none)."""
    xs = set(xors(pos, is_byte))
    if len(xs) != 1:
        return 0
    x, = xs
    rest = add(pos, scale(x.args[1].args[1], 8), -1)
    r = ev(rest, {x: high(7)})
    return -r.const if r is not None and r.const is not None else 0


def equal_bytes(facts):
    """[(a, b, truth)] of byte comparisons a path has made."""
    out = []
    for k, v in facts.items():
        t = k[1] if isinstance(k, tuple) else k
        if isinstance(k, tuple):
            if k[0] == 'b' and t.op == 'arith' and t.args[0] == 'BitXor' and all(is_byte(x) for x in t.args[1:]):
                if v == (0, 0):
                    out.append((t.args[1], t.args[2], True))
                elif v[0] is not None and v[0] > 0:
                    out.append((t.args[1], t.args[2], False))
            if k[0] == 'b' and t.op == 'lin' and v == (0, 0):
                p = byte_diff(t)
                if p:
                    out.append(p + (True,))
            continue
        if not isinstance(v, bool):
            continue
        if t.op == 'eq' and all(is_byte(x) for x in t.args):
            out.append((t.args[0], t.args[1], v))
        elif t.op == 'eq0' and t.args[0].op == 'arith' and t.args[0].args[0] == 'BitXor' and all(is_byte(x) for x in t.args[0].args[1:]):
            out.append((t.args[0].args[1], t.args[0].args[2], v))
        elif t.op == 'eq0' and t.args[0].op == 'lin':
            p = byte_diff(t.args[0])
            if p:
                out.append(p + (v,))
    return out


def byte_diff(t):
    c, d = lin_parts(t)
    ks = list(d.items())
    if c == 0 and len(ks) == 2 and {ks[0][1], ks[1][1]} == {1, -1} and all(is_byte(k) for k, _ in ks):
        return ks[0][0], ks[1][0]
    return None


PKEY = sym('some key')


class Bits(Unit):
    keep_errs = True

    def __init__(self):
        super().__init__()
        self.partitions = []

    def on_partition(self, it, st, fr, v, f):
        try:
            outs = [(it.load(s, x), s) for x, s in it.call_value(st.copy(), fr, f, [PKEY], tag=91)]
        except (Unsupported, Budget, RecursionError, KeyError):
            outs = None
        self.partitions.append((v, f, outs))

    def on_put(self, it, st, fr, kind, k, x):
        st.log = st.log + (('put', kind, k, x),) if x is not None else st.log + (('put', kind, k),)

    def on_push(self, it, st, fr, v, x, where_):
        st.log = st.log + (('push', x),)

    def leave(self, it, st, lid, fr, h, tgt):
        e = Event('leave', (), fr.fn.blocks[h]['sp'], fr.fn.key, (fr.ctx, h), [f.fn.key for f in it.callstack], tuple(it.active))
        e.facts, e.log, e.ghost, e.extra = dict(st.facts), segment(st.log, lid), st.ghost, (lid, dict(st.mem), tgt)
        it.events.append(e)

    def enter(self, it, st, lid, fr, h):
        e = Event('enter', (), fr.fn.blocks[h]['sp'], fr.fn.key, (fr.ctx, h), [f.fn.key for f in it.callstack], tuple(it.active))
        e.facts, e.log, e.ghost, e.extra = dict(st.facts), segment(st.log, lid), st.ghost, (lid, dict(st.mem))
        it.events.append(e)


def body(D, name):
    ks = [k for k in D.bodies if k.endswith('tree_utils::' + name) and '{closure' not in k]
    return ks[0] if len(ks) == 1 else None


def beyond(p, pos):
    """Does an error path know the position to lie outside the key? True, False (it may be inside), None (cannot tell)."""
    if any(isinstance(k, tuple) and k[0] == 'v' and x == 'None' for k, x in p.facts.items()):
        return True
    seen = None
    for k, v in p.facts.items():
        if isinstance(k, tuple) and k[0] == 'b' and contains(k[1], pos):
            c, d = lin_parts(k[1])
            n = [x for x in d if x is not pos]
            if pos in d and len(n) == 1 and abs(d[pos]) == 1 and d[n[0]] == -8 * d[pos]:
                lo = v[0] if d[pos] == 1 else None if v[1] is None else -v[1]   # lower bound of pos - 8N (+-c)
                lo = None if lo is None else lo - c * d[pos]
                if lo is not None and lo >= 0:
                    return True
                seen = False
    return seen


def c21(R, D, M, cfg, stats, notes, analysed):
    run = lambda k: unit(R, P, D, M, cfg, k, notes, analysed, stats, listener=Bits())
    for name, f in (('choose_zero', bit_rule), ('fast_log_2', log_rule), ('split_pairs', halves_rule), ('calc_min_split_index', min_rule),
                    ('generate_tree_ref_queue', queue_rule), ('check_descendants', desc_rule)):
        k = body(D, name)
        if k is None:
            absent(R, P, name, cfg, 'tree_utils::' + name, notes)
            continue
        it, ps = run(k)
        if ps is None:
            continue
        f(R, D, M, cfg, k, it, ps, notes)


def bit_rule(R, D, M, cfg, k, it, ps, notes):
    for i, p in enumerate(ps):
        if is_err(p):
            b = beyond(p, arg(2))
            R.check(P, 'bit-test', (cfg, k, 'err', i), 'ok' if b else 'bad' if b is False else 'unknown', where(D, k), 'gives an error %s' % ('beyond the key' if b else 'for a position inside the key'), short(k))
    bit_test(R, cfg, 'bit-test', (cfg, k), where(D, k), short(k), [p for p in ps if not is_err(p)], arg(1), arg(2), okv, None)


def log_rule(R, D, M, cfg, k, it, ps, notes):
    for h in range(8):
        env = {arg(1): high(h)}
        for i, p in enumerate(ps):
            if not feasible(p.facts, env):
                continue
            r = ev(p.value, env)
            c = r.const if r is not None else None
            sure = all(fact_ok(kk, v, env) is not None for kk, v in p.facts.items())
            if c is None:
                c = refuted(p.value, p.facts, env, h)
                sure = True
            R.check(P, 'highest-bit', (cfg, k, h, i), 'ok' if c == h else 'bad' if c is not None and sure else 'unknown', where(D, k), 'a byte whose highest bit is %d gives %s' % (h, c if c is not None else show(p.value, 5)), short(k))


def empty_list(t):
    return t.op == 'seq' and len([x for x in t.args[1:] if isinstance(x, T)]) == 0 or t.op == 'sub' and t.args[1].op == 'range' and len(t.args[1].args) == 2 and t.args[1].args[0] is t.args[1].args[1]


def halves_rule(R, D, M, cfg, k, it, ps, notes):
    keys, pos = arg(1), arg(2)
    n = mk('len', keys)
    first, last = mk('at', keys, I(0)), mk('at', keys, add(n, I(1), -1))
    rule, sp, fn = 'halves', where(D, k), short(k)
    for i, p in enumerate(ps):
        v = okv(p)
        idn = (cfg, k, i)
        if v is None or v.op != 'tup' or len(v.args) != 2:
            if is_err(p):
                R.check(P, rule, idn, 'ok', sp, 'gives an error', fn)
            else:
                R.check(P, rule, idn, 'unknown', sp, 'gives %s' % show(p.value, 4), fn)
            continue
        z, o = v.args
        none = p.facts.get(('b', n))
        if none == (0, 0):
            good = all(x is keys or empty_list(x) for x in (z, o))
            R.check(P, rule, idn, 'ok' if good else 'unknown', sp, 'an empty list is split into empty lists', fn)
            continue
        if z is keys and empty_list(o):
            poss, sure = known_bit(p.facts, last, pos)
            bad = 1 in poss and (sure or not any(contains(t, last) for t in fterms(p.facts)))
            R.check(P, rule, idn, 'ok' if poss == {0} else 'bad' if bad else 'unknown', sp, 'all keys go to the zero side when the last key can have bit %s' % sorted(poss), fn)
        elif o is keys and empty_list(z):
            poss, sure = known_bit(p.facts, first, pos)
            bad = 0 in poss and (sure or not any(contains(t, first) for t in fterms(p.facts)))
            R.check(P, rule, idn, 'ok' if poss == {1} else 'bad' if bad else 'unknown', sp, 'all keys go to the one side when the first key can have bit %s' % sorted(poss), fn)
        elif all(x.op == 'sub' and x.args[0] is keys and x.args[1].op == 'range' and len(x.args[1].args) == 2 for x in (z, o)):
            (a, b), (c, d) = z.args[1].args, o.args[1].args
            pps = {x for x in subterms(v) if x.op == 'sym' and isinstance(x.args[0], tuple) and x.args[0][0] == 'pp'}
            gap = add(b, c, -1)
            whole = a is I(0) and d is n
            if len(pps) == 1 and whole:
                pp, = pps
                if b is pp and c is pp:
                    r, w = partition_ok(D, M, cfg, k, it, keys, pos)
                    R.check(P, rule, idn, r, sp, w, fn)
                else:
                    db, dc = add(b, pp, -1), add(c, pp, -1)
                    R.check(P, rule, idn, 'bad' if db.op == 'int' and dc.op == 'int' else 'unknown', sp, 'the list is cut at %s and %s instead of the partition point' % (show(b, 4), show(c, 4)), fn)
            elif a.op == d.op == 'int' or gap.op == 'int' and gap.args[0] != 0 or a.op == 'int' and a.args[0] > 0:
                R.check(P, rule, idn, 'bad' if gap.op == 'int' and gap.args[0] != 0 or a.op == 'int' and a.args[0] > 0 else 'unknown', sp, 'the halves are %s and %s' % (show(z, 5), show(o, 5)), fn)
            else:
                R.check(P, rule, idn, 'unknown', sp, 'the list is cut at %s' % show(b, 5), fn)
        else:
            swapped = z.op == o.op == 'sub' and z.args[0] is keys is o.args[0]
            R.check(P, rule, idn, 'unknown', sp, 'the halves are %s and %s' % (show(z, 5), show(o, 5)), fn)


def partition_ok(D, M, cfg, k, it, keys, pos):
    """Is the predicate of the partition "the addressed bit is zero"?"""
    fs = [(f, outs) for v, f, outs in it.listener.partitions if v is keys]
    if len({f for f, _ in fs}) != 1 or fs[-1][1] is None:
        return 'unknown', 'the partition predicate is not followed'
    key, outs = PKEY, fs[-1][1]
    worst = 'ok'
    why = 'the list is cut where the addressed bit turns from zero to one'
    for v, st in outs:
        facts = st.facts
        terms = [v] + fterms(facts)
        if any(isinstance(kk, tuple) and kk[0] == 'v' and x in ('None', 'Err') for kk, x in facts.items()):
            continue    # beyond the key: every key answers alike
        for s, b, env, wrong, lost in bit_env(terms, key, pos, facts):
            if wrong:
                return 'bad', 'the partition reads byte %r of a key for position 8q+%d' % (wrong[0][1], s)
            if lost:
                worst, why = 'unknown', 'the partition reads %s' % show(lost[0], 4)
                continue
            if not feasible(facts, env):
                continue
            r = evb(v, env)
            if r is None:
                worst, why = 'unknown', 'the partition predicate is %s' % show(v, 5)
            elif r != (b == 0):
                return 'bad', 'the partition takes keys with bit %d at position 8q+%d for the zero side' % (b, s)
    return worst, why


# ---- divergence of the ends of a list ---------------------------------------------------------
def whole_loop(itr, lens, off=I(0)):
    """'ok' when an iteration whose element has place idx+off visits every byte of a key, 'bad' when it certainly does not."""
    t = itr
    skip = 0
    while t.op == 'iter' and t.args[0] in ('enum', 'copied', 'cloned', 'peek', 'fuse', 'skip'):
        if t.args[0] == 'skip':
            if t.args[2].op != 'int':
                return 'unknown'
            skip += t.args[2].args[0]
        t = t.args[1]
    if skip:
        return 'bad' if whole_loop(t, lens) == 'ok' else 'unknown'
    if t.op == 'iter' and t.args[0] == 'zip':
        return 'ok' if all(whole_loop(x, lens) == 'ok' for x in t.args[1:]) and off is I(0) else 'unknown'
    if t.op == 'iter' and t.args[0] == 'src':
        return 'ok' if off is I(0) and t.args[1].op in ('phi', 'sym', 'at', 'fld') else 'unknown'
    if t.op == 'iter' and t.args[0] == 'range':
        lo, hi = add(t.args[1], off), add(t.args[2], off)
        if lo is I(0) and hi in lens:
            return 'ok'
        ds = [add(hi, x, -1) for x in lens]
        short_ = any(d.op == 'int' and d.args[0] < 0 for d in ds)
        if lo.op == 'int' and lo.args[0] > 0 or short_ or hi.op == 'int':
            return 'bad'
    if t.op == 'iter' and t.args[0] in ('take', 'step'):
        return 'bad' if t.args[-1].op == 'int' and not (t.args[0] == 'step' and t.args[-1] is I(1)) else 'unknown'
    return 'unknown'


def entered(it, lid, t):
    """The iterations t stands for when its loop is entered (limits that were merged told apart again)."""
    if not any(x.op == 'phi' for x in subterms(t)):
        return [(t, {})]
    out = []
    for e in it.events:
        if e.kind == 'enter' and e.extra[0] == lid:
            def go(x):
                if x.op == 'phi':
                    return phi_cell(x, e.extra[1]) or x
                return map_args(x, go)
            out.append((go(t), e.facts))
    return out or [(t, {})]


PAIRS_ = [(x, y) for h in range(8) for x, y in ((0, 1 << h), (255, 255 ^ 1 << h), (1 << h, 0))]


def can_differ(facts, A, B):
    """A pair of differing byte values under which every fact about the two bytes certainly holds; None when there is none."""
    rel = {k: v for k, v in facts.items() if not (isinstance(k, tuple) and k[0] == 'v') and any(contains(k[1] if isinstance(k, tuple) else k, x) for x in (A, B))}
    for x, y in PAIRS_:
        env = {A: num(x), B: num(y)}
        if all(fact_ok(k, v, env) for k, v in rel.items()):
            return x, y
    return None


def byte_pairs(facts, a, b):
    """(A, B) reads of keys a and b that appear together in the facts, at one place."""
    A, B = set(), set()
    for t in fterms(facts):
        for x in subterms(t):
            if is_byte(x):
                if base_key(x.args[0]) is a:
                    A.add(x)
                if b(base_key(x.args[0])) if callable(b) else base_key(x.args[0]) is b:
                    B.add(x)
    return [(x, y) for x in A for y in B if x.args[1] is y.args[1]]


def first_difference(R, cfg, k, sp, fn, rule, crosses, pairs):
    """Every byte the search passes over is equal in both keys; pairs: the (place, key, key) the search is made for."""
    for n, e in enumerate(crosses):
        idn = (cfg, k, 'skip', n)
        eqs = equal_bytes(e.facts)
        hit = [v for j, a, b in pairs for x, y, v in eqs if x.args[1] is j is y.args[1] and {x.args[0], y.args[0]} == {a, b}]
        if True in hit:
            R.check(P, rule, idn, 'ok', sp, 'only equal bytes are passed over', fn)
        elif False in hit:
            R.check(P, rule, idn, 'bad', sp, 'the search goes on after a byte in which the keys differ', fn)
        else:
            prs = [q for _, a, b in pairs for q in byte_pairs(e.facts, base_key(a), base_key(b))]
            d = [q for q in (can_differ(e.facts, x, y) for x, y in prs) if q]
            foreign = any(murky_fact(t, p[1:]) for t in fterms(e.facts) for p in pairs)
            R.check(P, rule, idn, 'bad' if d or not prs and not foreign else 'unknown', sp, 'a byte is passed over %s' % ('although the keys differ in it, for example %#04x and %#04x' % d[0] if d else 'without being compared'), fn)


def murky_fact(t, of):
    return any(x.op in ('app', 'boolapp', 'lost', 'eff', 'coll') for x in subterms(t)) and any(contains(t, x) for x in of)


def backwards(j):
    """Is j the place an iteration over the bytes from the last to the first has come to?"""
    x = sym_idx(j) or j
    return x.op == 'revix' and x.args[0].op == 'sym' and len(x.args[0].args[1]) > 0


def overwritten(it, v):
    """The position a loop keeps in v when it does so at every difference and then goes on, or None."""
    for e in it.events:
        if e.kind != 'cross':
            continue
        new = phi_cell(v, e.extra[1])
        if new is None or new is v or not xors(new, is_byte):
            continue
        gate = any(x is v or x.op == 'phi' and t is x or x.op in ('app', 'boolapp', 'coll', 'opt') for t in fterms(e.facts) for x in subterms(t))
        differ = any(t is False and {x, y} & set(subterms(new)) for x, y, t in equal_bytes(e.facts))
        if differ and not gate and not any(x.op == 'revix' for x in subterms(new)):
            return new
    return None


def upside_down(facts, key, first, last):
    """Is the key below the first and above the last of a sorted list?"""
    def rel(x):
        lo = hi = None
        for k, v in facts.items():
            if isinstance(k, tuple) and k[0] == 'b':
                c, d = lin_parts(k[1])
                if set(d) == {key, x} and d[key] == -d[x] and abs(d[x]) == 1 and c == 0:
                    lo, hi = v if d[key] == 1 else (None if v[1] is None else -v[1], None if v[0] is None else -v[0])
        return lo, hi
    below, above = rel(first)[1], rel(last)[0]
    return below is not None and above is not None and below <= 0 <= above and (below < 0 or above > 0)


def min_rule(R, D, M, cfg, k, it, ps, notes):
    keys, bk = arg(1), arg(2)
    n = mk('len', keys)
    first, last = mk('at', keys, I(0)), mk('at', keys, add(n, I(1), -1))
    sp, fn = where(D, k), short(k)
    nbits = None
    pairs = {}
    for i, p in enumerate(ps):
        v = okv(p)
        idn = (cfg, k, i)
        if v is None:
            if is_err(p):
                emp = p.facts.get(('b', n)) == (0, 0) or any(isinstance(kk, tuple) and kk[0] == 'v' and x == 'None' for kk, x in p.facts.items())
                R.check(P, 'divergence', idn, 'ok' if emp else 'unknown', sp, 'gives an error', fn)
            else:
                R.check(P, 'divergence', idn, 'unknown', sp, 'gives %s' % show(p.value, 4), fn)
            continue
        if v.op == 'phi':
            w = overwritten(it, v)
            R.check(P, 'divergence', idn, 'bad' if w else 'unknown', sp, 'a later difference replaces the first one, %s' % show(w, 5) if w else 'gives %s' % show(v, 4), fn)
            continue
        if not xors(v, is_byte):
            c, d = lin_parts(v)
            ns = list(d.items())
            if len(ns) == 1 and ns[0][1] == 8 and is_n(ns[0][0]):
                R.check(P, 'divergence', idn, 'ok' if c >= -1 else 'bad', sp, 'keys that do not differ give 8*N%+d' % c, fn)
            else:
                R.check(P, 'divergence', idn, 'unknown', sp, 'keys that do not differ give %s' % show(v, 4), fn)
            continue
        dv = divergence(v, p.facts)
        R.check(P, 'divergence', idn, dv.verdict, sp, dv.why, fn)
        if dv.verdict != 'ok':
            continue
        diff = [x for x, y, t in equal_bytes(p.facts) if t is False and x.args[1] is dv.j]
        R.check(P, 'divergence', idn + ('differ',), 'ok' if diff else 'unknown', sp, 'the bytes are known to differ', fn)
        pairs.setdefault(dv.j, {}).setdefault((dv.a, dv.b), []).append(p.facts)
    for j, found in pairs.items():
        jx = sym_idx(j) or j
        lid = [x for x in jx.args[1]] if jx.op == 'sym' else []
        if backwards(j):
            R.check(P, 'divergence', (cfg, k, 'loop'), 'bad', sp, 'the search starts at the last byte and takes the last difference for the first', fn)
            continue
        if len(lid) != 1:
            R.check(P, 'divergence', (cfg, k, 'loop'), 'unknown', sp, 'the byte position %s is not a loop index' % show(j, 3), fn)
            continue
        lid = lid[0]
        cr = [e for e in it.events if e.kind == 'cross' and e.extra[0] == lid and not upside_down(e.facts, bk, first, last)]
        first_difference(R, cfg, k, sp, fn, 'divergence', cr, [(j, a, b) for a, b in found])
        ends = [x for e in it.events if e.kind == 'leave' and e.extra[0] == lid for x in e.log if x[0] == 'iterend']
        lens = [mk('len', bk), N_TERM] + [mk('len', x) for ab in found for x in ab]
        w = whole_loop(ends[0][1], lens, add(j, jx, -1)) if ends else 'unknown'
        R.check(P, 'divergence', (cfg, k, 'bytes'), w, sp, 'the search visits %s' % (show(ends[0][1], 4) if ends and isinstance(ends[0][1], T) else 'the bytes of a key'), fn)
        # which two keys are compared
        at = []
        for (a, b), facts in found.items():
            if a.op != 'phi' and b.op != 'phi':     # chosen before the search, which every path makes for itself
                at += [(a, b, f, jx) for f in facts]
            else:
                at += [(phi_cell(a, e.extra[1]), phi_cell(b, e.extra[1]), e.facts, None) for e in it.events if e.kind == 'enter' and e.extra[0] == lid]
        for m, (ca, cb, facts, skip) in enumerate(at):
            idn = (cfg, k, 'ends', m)
            if ca is None or cb is None:
                R.check(P, 'ends', idn, 'unknown', sp, 'the compared keys are not followed', fn)
                continue
            vd = ends_verdict({kk: v for kk, v in facts.items() if skip is None or not contains(kk[1] if isinstance(kk, tuple) else kk, skip)}, base_key(ca), base_key(cb), first, last, bk, keys)
            R.check(P, 'ends', idn, vd, sp, 'the smallest and largest of the keys and the branch key are compared: %s and %s' % (show(ca, 3), show(cb, 3)), fn)


def ends_verdict(facts, ca, cb, first, last, bk, keys):
    """Whether keys ca and cb are, under the facts, the smallest and the largest of the list and the branch key."""
    lt, cm = {}, set()
    for kk, v in facts.items():
        t = kk[1] if isinstance(kk, tuple) else kk
        if t.op == 'boolapp' and t.args[0] == 'lt' and isinstance(v, bool):
            x, y = base_key(t.args[1]), base_key(t.args[2])
            lt[(x, y)] = v
            if v:
                lt[(y, x)] = False
        elif isinstance(kk, tuple) and kk[0] == 'b' and t.op == 'lin':
            c, d = lin_parts(t)
            ks = list(d.items())
            if len(ks) == 2 and sorted(z for _, z in ks) == [-1, 1]:
                x, y = [base_key(q) for q, z in sorted(ks, key=lambda q: -q[1])]     # x - y in v
                if v[0] is not None and v[0] >= c:
                    lt[(x, y)] = False
                    if v[0] > c:
                        lt[(y, x)] = True
                elif v[1] is not None and v[1] <= c:
                    lt[(y, x)] = False
                    if v[1] < c:
                        lt[(x, y)] = True
        for x in (first, last):
            if contains(t, bk) and contains(t, x):
                cm.add(x)
    below, above = lt.get((bk, first)), lt.get((last, bk))
    nb, na = lt.get((first, bk)) is True or below is False, lt.get((bk, last)) is True or above is False
    got = {ca, cb}
    if (below is True or lt.get((first, bk)) is False and first not in got) and (above is True or lt.get((bk, last)) is False and last not in got):
        return 'ok' if got <= {bk, first, last} else 'unknown'     # only for equal keys, or not at all
    if got == {bk, last}:
        return 'bad' if below is False and lt.get((first, bk)) is not False or first not in cm else 'ok' if below or lt.get((first, bk)) is False else 'unknown'
    if got == {first, bk}:
        return 'bad' if above is False and lt.get((bk, last)) is not False or last not in cm else 'ok' if above or lt.get((bk, last)) is False else 'unknown'
    if got == {first, last}:
        return 'bad' if below is True or above is True or first not in cm or last not in cm else 'ok' if nb and na else 'unknown'
    if got <= {bk, first, last}:
        return 'bad' if not (cm or any(murky_fact(t, (keys, bk)) for t in fterms(facts))) or got == {first} or got == {last} else 'unknown'
    return 'unknown'


N_TERM = sym('const N')


def is_n(t):
    return t.op == 'len' or t.op == 'sym' and 'N' in str(t.args[0])


def base_key(t):
    """A key whether or not it is seen through the newtype around its bytes."""
    t = strip(t)
    while t.op == 'fld' and t.args[1] == 0 and not t.args[2]:
        t = strip(t.args[0])
    return t


def phi_cell(a, mem):
    """Value the loop-carried key a had when the loop was entered."""
    if a.op != 'phi':
        return a
    path = a.args[0].path
    v = mem.get(path[0])
    for s in path[1:]:
        if v is None:
            return None
        v = v.args[s] if isinstance(s, int) and s < len(v.args) and isinstance(v.args[s], T) else None
    return v


# ---- neighbouring keys -----------------------------------------------------------------------
def key_of_ref(t):
    """(list, index) when t is the key of the index-th element of the list."""
    t = strip(t)
    if t.op == 'fld' and t.args[0].op == 'at':
        return t.args[0].args[0], t.args[0].args[1], t.args[1]
    return None


def queue_rule(R, D, M, cfg, k, it, ps, notes):
    refs, queue = arg(1), arg(2)
    sp, fn = where(D, k), short(k)
    outer = None
    for e in it.events:
        if e.kind == 'cross' and len(e.loops) == 1:
            outer = e.loops[0]
    if outer is None:
        R.check(P, 'neighbours', (cfg, k), 'unknown', sp, 'no walk over the references', fn)
        return
    m = 0
    inner = None
    for n, e in enumerate(x for x in it.events if x.kind == 'cross' and x.extra[0] == outer):
        idn = (cfg, k, n)
        puts = [x for x in e.log if x[0] == 'put']
        pushes = [x[1] for x in e.log if x[0] == 'push'] + [y for x in puts if x[1] == 'map' and len(x) > 3 and x[3].op == 'seq' for y in x[3].args[1:] if isinstance(y, T)]
        diffs = [(x, y) for x, y, t in equal_bytes(e.facts) if t is False]
        if not puts and not pushes:
            done = [x for x in e.log if x[0] == 'iterend']
            if not done:
                R.check(P, 'neighbours', idn, 'unknown' if any(murky_fact(t, (refs,)) for t in fterms(e.facts)) else 'bad', sp, 'two neighbours are passed over without being joined', fn)
            else:
                R.check(P, 'neighbours', idn, 'ok', sp, 'only keys without a differing byte are passed over', fn)
            continue
        items = [x for x in pushes if x.op == 'tup' and len(x.args) == 3]
        sets = [x[2] for x in puts if x[1] == 'set']
        ents = [x[2] for x in puts if x[1] in ('entry', 'map')]
        if len(items) != 1:
            R.check(P, 'neighbours', idn, 'bad' if not pushes else 'unknown', sp, '%d join%s queued for one pair of neighbours' % (len(items), '' if len(items) == 1 else 's'), fn)
            continue
        E, l, r = items[0].args
        dv = divergence(E, e.facts)
        R.check(P, 'neighbours', idn + ('at',), dv.verdict, sp, dv.why, fn)
        if dv.verdict == 'ok':
            ka, kb_ = key_of_ref(dv.a), key_of_ref(dv.b)
            if ka and kb_ and ka[0] is kb_[0]:
                gap = add(kb_[1], ka[1], -1)
                lo, hi = (ka[1], kb_[1]) if gap.op == 'int' and gap.args[0] > 0 else (kb_[1], ka[1])
                good = gap.op == 'int' and abs(gap.args[0]) == 1 and l is lo and r is hi
                wrong = gap.op == 'int' and (abs(gap.args[0]) != 1 or add(l, lo, -1).op == 'int' and add(r, hi, -1).op == 'int' and not good)
                R.check(P, 'neighbours', idn + ('pair',), 'ok' if good else 'bad' if wrong else 'unknown', sp, 'keys %s and %s are compared and references %s and %s joined' % (show(ka[1], 3), show(kb_[1], 3), show(l, 3), show(r, 3)), fn)
            else:
                R.check(P, 'neighbours', idn + ('pair',), 'unknown', sp, 'compared keys %s and %s' % (show(dv.a, 3), show(dv.b, 3)), fn)
            diff = [1 for x, y in diffs if x.args[1] is dv.j and {x.args[0], y.args[0]} == {dv.a, dv.b}]
            R.check(P, 'neighbours', idn + ('differ',), 'ok' if diff else 'unknown', sp, 'the bytes are known to differ', fn)
            inner = (dv.j, dv.a, dv.b)
        for what, lst in (('set of positions', sets), ('queue', ents)):
            if not lst:
                R.check(P, 'neighbours', idn + (what,), 'bad' if not murky_puts(e) else 'unknown', sp, 'the join is missing from the %s' % what, fn)
            for x in set(lst):
                d = add(x, E, -1)
                R.check(P, 'neighbours', idn + (what,), 'ok' if x is E else 'bad' if d.op == 'int' or not xors(x, is_byte) and x.op in ('int', 'sym') else 'unknown', sp, 'the join is entered in the %s under its own position' % what, fn)
    if inner:
        j, a, b = inner
        lids = [x for x in j.args[1] if x != outer] if j.op == 'sym' else []
        if not lids:
            R.check(P, 'neighbours', (cfg, k, 'bytes'), 'bad' if backwards(j) else 'unknown', sp, 'the search %s' % ('takes the last difference for the first' if backwards(j) else 'is at byte %s' % show(j, 3)), fn)
        if len(lids) == 1:
            cr = [e for e in it.events if e.kind == 'cross' and e.extra[0] == lids[0]]
            first_difference(R, cfg, k, sp, fn, 'neighbours', cr, [(j, a, b)])
            ends = [x[1] for e in it.events if e.kind == 'leave' and e.extra[0] == lids[0] for x in e.log if x[0] == 'iterend']
            for n, (t, _) in enumerate(entered(it, lids[0], ends[0]) if ends else []):
                w = whole_loop(t, [mk('len', a), mk('len', b), N_TERM])
                R.check(P, 'neighbours', (cfg, k, 'bytes', n), w, sp, 'the search visits %s' % show(t, 4), fn)
        oends = [x[1] for e in it.events if e.kind == 'leave' and e.extra[0] == outer for x in e.log if x[0] == 'iterend']
        if oends:
            t = oends[0]
            L1 = add(mk('len', refs), I(1), -1)
            if t.op == 'iter' and t.args[0] == 'range':
                lo, hi = t.args[1], t.args[2]
                ka, kb_ = key_of_ref(a), key_of_ref(b)
                i0 = sorted((x for x in (ka[1], kb_[1])), key=lambda x: lin_parts(x)[0])[0] if ka and kb_ else None
                off = add(i0, sym_idx(i0), -1) if i0 is not None and sym_idx(i0) is not None else None
                if off is not None and off.op == 'int':
                    start, end = add(lo, off), add(hi, off)
                    d = add(end, L1, -1)
                    good = start is I(0) and d is I(0)
                    R.check(P, 'neighbours', (cfg, k, 'all'), 'ok' if good else 'bad' if start.op == 'int' and d.op == 'int' else 'unknown', sp, 'pairs %s to %s of %s are joined' % (show(start, 3), show(end, 3), show(L1, 3)), fn)
                else:
                    R.check(P, 'neighbours', (cfg, k, 'all'), 'unknown', sp, 'walk over %s' % show(t, 4), fn)
            else:
                R.check(P, 'neighbours', (cfg, k, 'all'), 'unknown', sp, 'walk over %s' % show(t, 4), fn)


def sym_idx(t):
    _, d = lin_parts(t)
    ks = list(d.items())
    return ks[0][0] if len(ks) == 1 and ks[0][1] == 1 else None


def murky_puts(e):
    return any(x[0] == 'ext' for x in e.log)


# ---- which keys go below a stored branch -------------------------------------------------------
def desc_rule(R, D, M, cfg, k, it, ps, notes):
    keys, split, bk, mn = arg(1), arg(2), arg(3), arg(4)
    sp, fn = where(D, k), short(k)
    rule = 'below-branch'
    loops = {e.loops for e in it.events if e.kind == 'cross'}
    inner = [l for l in loops if len(l) == 2]
    if len(inner) != 1:
        R.check(P, rule, (cfg, k), 'unknown', sp, '%d nested walks over the bytes' % len(inner), fn)
        return
    outer, il = inner[0]
    evs = lambda kind, lid: [e for e in it.events if e.kind == kind and e.extra[0] == lid]
    done = lambda e: [x[1] for x in e.log if x[0] == 'iterend']
    ends = [x for e in evs('leave', il) for x in done(e)]
    for t in set(ends):
        coverage(R, cfg, k, sp, fn, rule, t, split, mn)
    if not ends:
        R.check(P, rule, (cfg, k, 'bytes'), 'unknown', sp, 'the walk over the bytes has no regular end', fn)

    def compared(e):
        """[(byte position, equal?)] of comparisons between a key of the list and the branch key."""
        out = []
        for x, y, v in equal_bytes(e.facts):
            A, B = (x, y) if x.args[0] is bk else (y, x)
            if A.args[0] is bk and B.args[0].op == 'at' and B.args[0].args[0] is keys:
                out.append((A.args[1], B.args[1], v))
        return out

    def bounds(e):
        """[(divergence, lower, upper)] of split - position."""
        out = []
        for kk, v in e.facts.items():
            if isinstance(kk, tuple) and kk[0] == 'b':
                c, d = lin_parts(kk[1])
                if split in d and abs(d[split]) == 1 and xors(kk[1], is_byte):
                    s = d[split]
                    pos = add(split, scale(kk[1], s), -1)     # kk = s*(split - pos)
                    lo, hi = v if s == 1 else (None if v[1] is None else -v[1], None if v[0] is None else -v[0])
                    # facts carry no constants: read the position with the constant a divergence has
                    off = div_offset(pos)
                    out.append((divergence(add(pos, I(off)), e.facts), None if lo is None else lo - off, None if hi is None else hi - off))
        return out

    for n, e in enumerate(evs('cross', il)):
        idn = (cfg, k, 'pass', n)
        cs, bs = compared(e), bounds(e)
        same = [a for a, b, v in cs if v and a is b]
        if same:
            off = elsewhere(same[0], il, e.facts)
            R.check(P, rule, idn, 'bad' if off else 'ok', sp, 'bytes at another place than the walk has reached are compared: %s' % off if off else 'an equal byte is passed over', fn)
            continue
        bad = [d for d, lo, hi in bs if d.verdict == 'bad']
        good = [1 for d, lo, hi in bs if d.verdict == 'ok' and hi is not None and hi <= 0]
        loose = [1 for d, lo, hi in bs if d.verdict == 'ok' and (hi is None or hi > 0)]
        skew = [1 for a, b, v in cs if a is not b and add(a, b, -1).op == 'int']
        prs = byte_pairs(e.facts, base_key(bk), lambda t: t.op == 'at' and t.args[0] is keys)
        d = [q for q in (can_differ(e.facts, x, y) for x, y in prs) if q]
        vd = 'bad' if bad or loose or skew else 'ok' if good else 'bad' if d or not prs and not any(murky_fact(t, (keys, bk)) for t in fterms(e.facts)) else 'unknown'
        R.check(P, rule, idn, vd, sp, bad[0].why if bad else 'a differing byte is passed over only when the difference lies at or after the split' if vd == 'ok' else 'a byte is passed over although the key may leave the branch there', fn)
    for n, e in enumerate(evs('leave', il)):
        if done(e):
            continue
        idn = (cfg, k, 'reject', n)
        bs = bounds(e)
        bad = [d for d, lo, hi in bs if d.verdict == 'bad']
        good = [1 for d, lo, hi in bs if d.verdict == 'ok' and lo is not None and lo >= 1]
        loose = [1 for d, lo, hi in bs if d.verdict == 'ok' and (lo is None or lo < 1)]
        vd = 'bad' if bad or loose and not good else 'ok' if good else 'unknown'
        R.check(P, rule, idn, vd, sp, bad[0].why if bad else 'a key is turned away only when it differs before the split', fn)
    if not ends:    # without its end, a key that belongs below cannot be told from one that does not
        return
    # the run of keys that is returned
    ixs = [x for e in evs('cross', outer) for v in e.extra[1].values() for x in subterms(v) if x.op == 'sym' and isinstance(x.args[0], tuple) and x.args[0][0] == 'idx' and outer in x.args[1] and il not in x.args[1]]
    ix = ixs[0] if ixs else None
    n_ = mk('len', keys)
    starts = set()
    for i, p in enumerate(ps):
        v = okv(p)
        idn = (cfg, k, 'run', i)
        if v is None:
            R.check(P, rule, idn, 'ok' if is_err(p) else 'unknown', sp, 'gives %s' % show(p.value, 3), fn)
            continue
        if empty_list(v) or v.op == 'sub' and v.args[0] is keys and v.args[1].op == 'range' and all(x is I(0) for x in v.args[1].args):
            R.check(P, rule, idn, 'ok', sp, 'no key belongs below the branch', fn)
            continue
        if not (v.op == 'sub' and v.args[0] is keys and v.args[1].op == 'range' and len(v.args[1].args) == 2) or ix is None:
            R.check(P, rule, idn, 'unknown', sp, 'gives %s' % show(v, 5), fn)
            continue
        s, e = v.args[1].args
        desc = any(x[0] == 'iterend' and len(x) > 1 and x[1] in ends for x in p.log)
        if s.op == 'phi':
            starts.add(s)
        ofs, ofe = add(s, ix, -1), add(e, ix, -1)
        islast = bound(p.facts, add(ix, n_, -1)) == (-1, -1)
        if e is I(0) and s.op == 'phi':
            # only possible when the walk ended after the last key without closing the run: each iteration that keeps a run must know it is not the last
            open_ = [x for x in evs('cross', outer) if any(c in x.extra[1] for c in [s.args[0].path[0]]) and x.extra[1][s.args[0].path[0]] is not I(0) and not known_not_last(x, ix, n_)]
            vd = 'bad' if open_ else 'ok'
            R.check(P, rule, idn, vd, sp, 'the run is closed at the last key', fn)
            continue
        if not desc:    # current key is not a descendant: the run ends before it
            vd = 'ok' if e is ix and s.op == 'phi' else 'bad' if ofe.op == 'int' and (s.op == 'phi' or ofs.op == 'int') else 'unknown'
            R.check(P, rule, idn, vd, sp, 'a run that ends before the current key is %s' % show(v, 5), fn)
        else:
            ends_now = ofe is I(1)
            vd = 'ok' if ends_now and islast and (s.op == 'phi' or s is ix) else 'bad' if ofe.op == 'int' and (ofe is not I(1) or ofs.op == 'int' and ofs is not I(0) or not islast and not last_known(p, ix)) else 'unknown'
            R.check(P, rule, idn, vd, sp, 'a run that ends with the current key is %s' % show(v, 5), fn)
    for s in starts:
        cell = s.args[0].path[0] if len(s.args[0].path) == 1 else None
        for n, e in enumerate(evs('cross', outer)):
            v = e.extra[1].get(cell) if cell else None
            desc = any(x in ends for x in done(e))
            idn = (cfg, k, 'start', n)
            if v is None:
                R.check(P, rule, idn, 'unknown', sp, 'the start of the run is not followed', fn)
            elif v is s or v.op == 'phi' and v.args[0].path == s.args[0].path:
                R.check(P, rule, idn, 'ok' if desc else 'bad', sp, 'a run goes on %s' % ('with a key below the branch' if desc else 'over a key that is not below the branch'), fn)
            elif v is I(0):
                R.check(P, rule, idn, 'ok' if not desc else 'bad', sp, 'no run is open after %s' % ('a key below the branch' if desc else 'a key that is not below the branch'), fn)
            elif v is ix:
                R.check(P, rule, idn, 'ok' if desc else 'bad', sp, 'a run starts at %s' % ('a key below the branch' if desc else 'a key that is not below the branch'), fn)
            else:
                d = add(v, ix, -1)
                R.check(P, rule, idn, 'bad' if d.op == 'int' else 'unknown', sp, 'a run starts at %s' % show(v, 4), fn)


def elsewhere(at, loop, facts):
    """Is the byte at this place certainly not the one that holds the bit a walk over bit positions has reached?"""
    js = {x for x in subterms(at) if x.op == 'stepix'} or {x for x in subterms(at) if x.op == 'sym' and isinstance(x.args[0], tuple) and x.args[0][0] == 'idx' and loop in x.args[1]}
    if len(js) != 1 or at in js:
        return None
    j = js.pop()
    if misplaced(mk('arith', 'Shr', j, I(3)), j, 0, facts) is not None:
        return None
    return misplaced(at, j, 0, facts)


def last_known(p, ix):
    return any(contains(t, ix) for t in fterms(p.facts))


def known_not_last(e, ix, n):
    t = mk('eq0', add(add(ix, n, -1), I(1)))
    if e.facts.get(t) is False:
        return True
    for k, v in e.facts.items():
        if isinstance(k, tuple) and k[0] == 'b':
            d = add(k[1], add(ix, n, -1), -1)
            if d.op == 'int' and v[1] is not None and v[1] - d.args[0] <= -2:
                return True
            d = add(k[1], add(n, ix, -1), -1)
            if d.op == 'int' and v[0] is not None and v[0] - d.args[0] >= 2:
                return True
        elif v is False and k.op == 'eq0' and add(k.args[0], add(add(ix, n, -1), I(1)), -1) is I(0):
            return True
        elif v is False and k.op == 'eq0' and add(k.args[0], add(add(ix, n, -1), I(1))) is I(0):
            return True
    return False


def coverage(R, cfg, k, sp, fn, rule, t, split, mn):
    """The bytes a descent test visits include every byte that holds a bit between the parent's and the branch's split."""
    idn = (cfg, k, 'bytes')
    step = 1
    if t.op == 'iter' and t.args[0] == 'take' and t.args[2].op == 'int':
        R.check(P, rule, idn, 'bad', sp, 'the walk ends after %d steps however long the key is' % t.args[2].args[0], fn)
        return
    if t.op == 'iter' and t.args[0] == 'step':
        if t.args[2].op != 'int':
            R.check(P, rule, idn, 'unknown', sp, 'visits %s' % show(t, 5), fn)
            return
        step, t = t.args[2].args[0], t.args[1]
    if not (t.op == 'iter' and t.args[0] == 'range' and len(t.args) >= 3):
        R.check(P, rule, idn, 'unknown', sp, 'visits %s' % show(t, 5), fn)
        return
    lo, hi = t.args[1], t.args[2]
    if step not in (1, 2, 4, 8):
        R.check(P, rule, idn, 'bad', sp, 'the walk moves on by %d bits at a time' % step, fn)
        return
    bits = step == 8 or contains(hi, split) and hi.op in ('lin', 'sym') and add(hi, split, -1).op == 'int'
    for s in range(8):
        x = ev(lo, {mn: aff(8, s)})
        d = idn + ('from', s)
        if x is None or x.a is None:
            R.check(P, rule, d, 'unknown', sp, 'starts at %s' % show(lo, 4), fn)
        elif bits:
            good = x.a == 8 and x.c <= s and (x.c % 8 == 0 or step == 1) or x.a == 0 and x.c == 0
            R.check(P, rule, d, 'ok' if good else 'bad', sp, 'for a parent split at 8q+%d the walk starts at bit %r, stepping by %d' % (s, x, step), fn)
        else:
            good = x.a == 1 and x.c <= 0 or x.a == 0 and x.c == 0
            R.check(P, rule, d, 'ok' if good else 'bad', sp, 'for a parent split at 8q+%d the walk starts at byte %r' % (s, x), fn)
    if bits:
        d = add(hi, split, -1)
        vd = 'ok' if d.op == 'int' and d.args[0] >= 0 else 'bad' if d.op == 'int' else 'unknown'
        R.check(P, rule, idn + ('to',), vd, sp, 'the walk ends at %s' % show(hi, 4), fn)
    else:
        for s in range(8):
            x = ev(hi, {split: aff(8, s)})
            if is_n(hi):
                vd = 'ok'
            elif x is None or x.a is None:
                vd = 'unknown'
            else:
                need = 1 if s else 0        # last bit is 8q+s-1: byte q when s>0, byte q-1 when s=0
                vd = 'ok' if x.a == 1 and x.c >= need else 'bad' if x.a in (0, 1) else 'unknown'
            R.check(P, rule, idn + ('to', s), vd, sp, 'for a split at 8q+%d the walk ends before byte %s' % (s, x if x is not None else show(hi, 4)), fn)


CONFIGS['C21'] = (['default', 'bincode', 'default+release'], ['default', 'bincode', 'default+release', 'hashbrown', 'rocksdb', 'json', 'cbor', 'yaml', 'pickle', 'ron', 'sha2'])
RULES['C21'] = c21
