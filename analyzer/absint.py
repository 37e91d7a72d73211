"""Interprocedural abstract interpreter over the MIR dump.

A forward fixpoint analysis: values are hash-consed terms (global value numbering), states carry the
branch facts that dominate them, callees and closures are inlined context-sensitively, loops are solved
to a fixpoint at their headers (states are joined there per known variant/flag - trace partitioning -
and everything the loop changes becomes a phi), collections are summarised by the shapes of their
elements.  Rules see events (storage calls, hashing, pushes, ...) with terms and the facts that hold.
"""
import re
import sys
from terms import *

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class SplitOn(Exception):
    """A condition is used as a number: follow its two values separately."""


# ------------------------------------------------------------------------------------------
class Fn:
    """A body with its control-flow structure."""

    def __init__(self, b, dump):
        self.b = b
        self.dump = dump
        self.key = b.get('key', '?')
        self.name = b.get('name') or self.key
        self.blocks = b['blocks']
        self.names = {}
        for n, p in b['dbg']:
            if not p[1]:
                self.names.setdefault(p[0], n)
        self._flags()
        self.succ = {}
        self._succs()
        self._rpo()
        self._loops()
        self._live()

    def _flags(self):
        b = self.b
        assigned, bad, switched = {}, set(), {}
        for bi, bl in enumerate(self.blocks):
            for s in bl['s']:
                if s[0] != '=':
                    continue
                l, pr = s[1]
                if not pr:
                    r = s[2]
                    if r[0] == 'use' and r[1][0] == 'k' and 'int' in r[1][1]:
                        assigned.setdefault(l, 0)
                    else:
                        bad.add(l)
            t = bl['t']
            if t[0] == 'call' and not t[3][1]:
                bad.add(t[3][0])
            if t[0] == 'switch' and t[1][0] == 'c' and not t[1][1][1]:
                switched.setdefault(t[1][1][0], []).append(t)
        self.dropflags = set()
        for l in assigned:
            if l in bad or l in self.names or l not in switched or l <= b['argc']:
                continue
            good = True
            for t in switched[l]:
                o = self.blocks[t[3]]
                if not (o['t'][0] == 'drop' and not o['s']):
                    good = False
            if good:
                self.dropflags.add(l)

    def _succs(self):
        for i, bl in enumerate(self.blocks):
            t = bl['t']
            k = t[0]
            if k == 'goto':
                s = [t[1]]
            elif k == 'switch':
                if t[1][0] in 'cm' and not t[1][1][1] and t[1][1][0] in self.dropflags:
                    s = [t[2][0][1]]
                else:
                    s = [x[1] for x in t[2]] + [t[3]]
            elif k == 'drop':
                s = [t[2]]
            elif k == 'call':
                s = [t[4]] if t[4] >= 0 else []
            elif k == 'assert':
                s = [t[3]]
            else:
                s = []
            self.succ[i] = list(dict.fromkeys(s))

    def _rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            n, it = st[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    st.append((m, iter(self.succ[m])))
                    break
            else:
                st.pop()
                out.append(n)
        out.reverse()
        self.rpo = out
        self.pos = {n: i for i, n in enumerate(out)}
        self.preds = {n: [] for n in out}
        for n in out:
            for m in self.succ[n]:
                self.preds[m].append(n)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for n in out[1:]:
                ps = [p for p in self.preds[n] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    a, c = p, d
                    while a != c:
                        while self.pos[a] > self.pos[c]:
                            a = idom[a]
                        while self.pos[c] > self.pos[a]:
                            c = idom[c]
                    d = a
                if idom.get(n) != d:
                    idom[n] = d
                    ch = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def _loops(self):
        self.loops = {}
        for n in self.rpo:
            for m in self.succ[n]:
                if self.pos[m] <= self.pos[n] and self.dominates(m, n):
                    body = self.loops.setdefault(m, {m})
                    st = [n]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(self.preds[x])

    def _places(self, op, out):
        if op[0] in 'cm':
            p = op[1]
            out.add(p[0])
            for e in p[1]:
                if e[0] == 'i':
                    out.add(e[1])

    def _use_place(self, p, out):
        out.add(p[0])
        for e in p[1]:
            if e[0] == 'i':
                out.add(e[1])

    def _live(self):
        nb = {}
        self.borrowed = set()
        for i in self.rpo:
            bl = self.blocks[i]
            use, deff = set(), set()
            for s in bl['s']:
                u = set()
                if s[0] == '=':
                    r = s[2]
                    k = r[0]
                    if k == 'use':
                        self._places(r[1], u)
                    elif k == 'repeat':
                        self._places(r[1], u)
                    elif k == 'ref':
                        self._use_place(r[2], u)
                        if r[1] and '*' not in r[2][1]:
                            self.borrowed.add(r[2][0])
                    elif k == 'rawptr':
                        self._use_place(r[2], u)
                        self.borrowed.add(r[2][0])
                    elif k == 'cast':
                        self._places(r[2], u)
                    elif k == 'bin':
                        self._places(r[2], u)
                        self._places(r[3], u)
                    elif k == 'un':
                        self._places(r[2], u)
                    elif k == 'discr':
                        self._use_place(r[1], u)
                    elif k == 'agg':
                        for o in r[2]:
                            self._places(o, u)
                    if s[1][1]:
                        self._use_place(s[1], u)
                    use |= (u - deff)
                    if not s[1][1]:
                        deff.add(s[1][0])
            t = bl['t']
            u = set()
            d = None
            if t[0] == 'switch':
                self._places(t[1], u)
            elif t[0] == 'call':
                self._places(t[1], u)
                for o in t[2]:
                    self._places(o, u)
                if t[3][1]:
                    self._use_place(t[3], u)
                else:
                    d = t[3][0]
            elif t[0] == 'assert':
                self._places(t[1], u)
            elif t[0] == 'return':
                u.add(0)
            use |= (u - deff)
            if d is not None:
                deff.add(d)
            nb[i] = (use, deff)
        live = {i: set() for i in self.rpo}
        ch = True
        while ch:
            ch = False
            for i in reversed(self.rpo):
                o = set()
                for s in self.succ[i]:
                    o |= live[s]
                n = nb[i][0] | (o - nb[i][1])
                if n != live[i]:
                    live[i] = n
                    ch = True
        self.live = live


# ------------------------------------------------------------------------------------------
NO_WHY = frozenset({frozenset()})


class State:
    __slots__ = ('mem', 'facts', 'log', 'ghost', 'why')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.log = ()
        self.ghost = {}
        self.why = NO_WHY

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.log = self.log
        s.ghost = self.ghost
        s.why = self.why
        return s

    def setfact(self, k, v):
        f = dict(self.facts)
        f[k] = v
        self.facts = f

    def setghost(self, k, v):
        g = dict(self.ghost)
        g[k] = v
        self.ghost = g

    def also(self, o):
        """Stand for another state that is the same but for the reasons it is here."""
        if o.why is not self.why and len(self.why) < 32:
            self.why = self.why | o.why

    def sig(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.log, frozenset(self.ghost.items()))


_norm_cache = {}


def norm(path):
    r = _norm_cache.get(path)
    if r is None:
        out, depth = [], 0
        p = path
        # <X as Trait>::m  -> Trait::m ; <impl X>::m kept as module::m
        m = re.match(r'^<.* as (.*)>::([A-Za-z_0-9]+)$', p)
        for c in p:
            if c == '<':
                depth += 1
            elif c == '>' and (not out or out[-1] != '-'):
                depth -= 1
            elif depth == 0:
                out.append(c)
        q = ''.join(out)
        parts = [x for x in q.split('::') if x]
        r = '::'.join(parts[-2:])
        _norm_cache[path] = r
    return r


def strip_generics(p):
    out, depth = [], 0
    for c in p:
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
    return '::'.join(x for x in ''.join(out).split('::') if x)


INTW = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}
GEN_KEEP = {'adt', 'tup', 'node', 'nvar', 'nodeval', 'rec', 'seq', 'bf', 'enc', 'corr', 'revix', 'refs', 'opt', 'res'}
BVIDX = mk('bvidx')
ANYSITE = sym('anysite')


def clear_below(a, b):
    """b is a constant whose bits lie below the lowest bit a sum of multiples can have."""
    if b.op != 'int' or b.args[0] < 0 or a.op != 'lin':
        return False
    c, d = lin_parts(a)
    m = (1 << b.args[0].bit_length()) - 1
    return c >= 0 and c & m == 0 and all(v > 0 and v & m == 0 for v in d.values())


class Interp:
    MAXSTATES = 400

    def __init__(self, dump, models, listener=None, opaque=(), max_steps=6000000):
        self.dump = dump
        self.models = models
        self.listener = listener
        self.opaque = set(opaque)     # body keys/paths treated as contract primitives
        self.fns = {}
        self.active = []              # loop ids being solved
        self.lit, self.turn = False, ()   # following a literal list element by element; which element
        self.ctxs = {}
        self.ctx_list = []
        self.callstack = []
        self.pass_start = None
        self.events = []
        self.phis = {}
        self.phi_init = {}
        self.fninfo = []
        self.fnidx = {}
        self.steps = 0
        self.max_steps = max_steps
        self.inlined = set()
        self.unknown_calls = {}
        self.loops_solved = set()
        self.model_by_name = {b['path']: b for b in models.bodies.values()} if models else {}
        import stdmodels
        self.std = stdmodels.table()
        self.kindstack = []
        self.iter_structs = {'Enumerate', 'Zip', 'Chain', 'FromFn', 'Map', 'Filter', 'FilterMap', 'TakeWhile', 'Inspect'}
        if models:
            self.iter_structs |= {a for a in models.adts if a.split('::')[-1] in self.iter_structs}

    # ---- naming --------------------------------------------------------------------------
    def fn(self, key, dump=None):
        d = dump or self.dump
        k = (id(d), key)
        f = self.fns.get(k)
        if f is None:
            f = Fn(d.bodies[key], d)
            self.fns[k] = f
        return f

    def ctx(self, parent, key, bb):
        k = (parent, key, bb)
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctx_list)
            self.ctxs[k] = c
            self.ctx_list.append(k)
        return c

    def born(self):
        return frozenset(self.active)

    def fresh(self, tag, attrs=EMPTY):
        """A symbol named by the current call context and site."""
        return sym((tag,) + self.site, self.born(), attrs)

    # ---- facts ---------------------------------------------------------------------------
    split_bools = False
    track_overflow = False      # False: arithmetic is taken not to overflow

    def number_of(self, st, c):
        """A condition as 0 or 1."""
        v = self.truth(st, c)
        if v is not None:
            return I(int(v))
        if self.split_bools:
            s = st.copy()
            if self.assume(s, c, True) and self.truth(s, c) is True:
                s = st.copy()
                if self.assume(s, c, False) and self.truth(s, c) is False:
                    raise SplitOn(c)
        return mk('bool2int', c)

    def truth(self, st, t):
        if t.op == 'int':
            return t.args[0] != 0
        if t.op == 'not':
            r = self.truth(st, t.args[0])
            return None if r is None else not r
        if t.op == 'and':
            a, b = self.truth(st, t.args[0]), self.truth(st, t.args[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if t.op == 'or':
            a, b = self.truth(st, t.args[0]), self.truth(st, t.args[1])
            if a is True or b is True:
                return True
            return False if a is False and b is False else None
        if t.op == 'le0':
            lo, hi = self.bounds(st, t.args[0])
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
            return None
        if t.op == 'eq0':
            lo, hi = self.bounds(st, t.args[0])
            if lo == 0 and hi == 0:
                return True
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            f = st.facts.get(t)
            return f
        return st.facts.get(t)

    def bounds(self, st, lin):
        """Interval of a linear term under the state's facts; atoms are unsigned."""
        c, d = lin_parts(lin)
        if not d:
            return c, c
        base = mk_lin(0, d)
        items = sorted(d.items(), key=lambda kv: kv[0].id)
        neg = items[0][1] < 0
        nb = scale(base, -1) if neg else base
        lo = hi = None
        f = st.facts.get(('b', nb))
        if f:
            lo, hi = f
        # intervals from the atoms
        alo, ahi = 0, 0
        for k, v in lin_parts(nb)[1].items():
            klo, khi = 0, None
            fk = st.facts.get(('b', k)) if nb is not k else None
            if fk:
                klo = max(klo, fk[0] if fk[0] is not None else 0)
                khi = fk[1]
            if k.op == 'bool2int':
                khi = 1 if khi is None else min(khi, 1)
                tv = self.truth(st, k.args[0])
                if tv is not None:
                    klo = khi = int(tv)
            a, b = (klo, khi) if v > 0 else (khi, klo)
            alo = None if alo is None or a is None else alo + v * a
            ahi = None if ahi is None or b is None else ahi + v * b
        if alo is not None:
            lo = alo if lo is None else max(lo, alo)
        if ahi is not None:
            hi = ahi if hi is None else min(hi, ahi)
        if neg:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        return (None if lo is None else lo + c), (None if hi is None else hi + c)

    def assume_bound(self, st, lin, lo, hi):
        """Assume lo <= lin <= hi.  Returns False on contradiction."""
        c, d = lin_parts(lin)
        if not d:
            return (lo is None or c >= lo) and (hi is None or c <= hi)
        clo, chi = self.bounds(st, lin)
        nlo = clo if lo is None else lo if clo is None else max(lo, clo)
        nhi = chi if hi is None else hi if chi is None else min(hi, chi)
        if nlo is not None and nhi is not None and nlo > nhi:
            return False
        base = mk_lin(0, d)
        items = sorted(d.items(), key=lambda kv: kv[0].id)
        if items[0][1] < 0:
            base = scale(base, -1)
            r = (None if nhi is None else -(nhi - c), None if nlo is None else -(nlo - c))
        else:
            r = (None if nlo is None else nlo - c, None if nhi is None else nhi - c)
        st.setfact(('b', base), r)
        # bool2int atoms
        if len(d) == 1:
            (k, v), = d.items()
            if k.op == 'bool2int':
                blo, bhi = self.bounds(st, k)
                if blo == bhi and blo is not None:
                    return self.assume(st, k.args[0], bool(blo))
        return True

    def assume(self, st, t, val):
        """Refine st in place; False if infeasible."""
        cur = self.truth(st, t)
        if cur is not None:
            if cur != val:
                return False
            if t.op not in ('le0', 'eq0'):
                return True
        if t.op == 'int':
            return (t.args[0] != 0) == val
        if t.op == 'not':
            return self.assume(st, t.args[0], not val)
        if t.op == 'and':
            if val:
                return self.assume(st, t.args[0], True) and self.assume(st, t.args[1], True)
            if self.truth(st, t.args[0]) is True:
                return self.assume(st, t.args[1], False)
            if self.truth(st, t.args[1]) is True:
                return self.assume(st, t.args[0], False)
        if t.op == 'or':
            if not val:
                return self.assume(st, t.args[0], False) and self.assume(st, t.args[1], False)
            if self.truth(st, t.args[0]) is False:
                return self.assume(st, t.args[1], True)
            if self.truth(st, t.args[1]) is False:
                return self.assume(st, t.args[0], True)
        if t.op == 'le0':
            return self.assume_bound(st, t.args[0], None, 0) if val else self.assume_bound(st, t.args[0], 1, None)
        if t.op == 'eq0':
            if val:
                return self.assume_bound(st, t.args[0], 0, 0)
            lo, hi = self.bounds(st, t.args[0])
            if lo == 0:
                return self.assume_bound(st, t.args[0], 1, None)
            if hi == 0:
                return self.assume_bound(st, t.args[0], None, -1)
            st.setfact(t, False)
            return True
        if t.op == 'isvar':
            return self.assume_variant(st, t.args[0], t.args[1], val, t.args[2])
        st.setfact(t, val)
        return True

    def variant(self, st, v):
        if v.op == 'adt':
            return v.args[1]
        f = st.facts.get(('v', v))
        return f if isinstance(f, str) else None

    def assume_variant(self, st, v, name, val=True, allv=()):
        if v.op == 'adt':
            return (v.args[1] == name) == val
        f = st.facts.get(('v', v))
        if isinstance(f, str):
            return (f == name) == val
        if val:
            if f is not None and name in f:
                return False
            st.setfact(('v', v), name)
            return self.entry_bound(st, v, name)
        n = (f or EMPTY) | {name}
        rest = [x for x in allv if x not in n]
        if allv and not rest:
            return False
        st.setfact(('v', v), rest[0] if len(rest) == 1 else n)
        return self.entry_bound(st, v, rest[0]) if len(rest) == 1 else True

    def entry_bound(self, st, v, name):
        """A list has an entry at a constant place exactly when it is longer than that."""
        if v.op == 'opt' and v.args[0].op == 'key' and v.args[0].args[0] == 'get' and v.args[0].args[2].op == 'int':
            n, ix = self.length(v.args[0].args[1]), v.args[0].args[2].args[0]
            return self.assume_bound(st, n, ix + 1, None) if name == 'Some' else self.assume_bound(st, n, None, ix) if name == 'None' else True
        return True

    def variants_of(self, adtpath):
        a = self.dump.adts.get(adtpath) or (self.models.adts.get(adtpath) if self.models else None)
        return [v['n'] for v in a['variants']] if a else []

    # ---- values --------------------------------------------------------------------------
    def field(self, st, v, i, vn=''):
        o = v.op
        if o == 'adt':
            if vn and v.args[1] != vn:
                return mk('fld', v, i, vn)
            return v.args[2 + i] if 2 + i < len(v.args) else mk('fld', v, i, vn)
        if o == 'tup':
            return v.args[i]
        if o == 'clo':
            return v.args[1 + i]
        if o == 'res' and vn == 'Ok':
            return v.args[2]
        if o == 'opt' and vn == 'Some':
            return v.args[1]
        if o == 'nvar':
            return stored_record(vn, v.args[0])
        if o == 'upd':
            for k, x in v.args[1]:
                if k == (i, vn):
                    return x
            return self.field(st, v.args[0], i, vn)
        if o == 'iter' or o == 'coll':
            return mk('fld', v, i, vn)
        return mk('fld', v, i, vn)

    def setfield(self, v, i, vn, x):
        if v.op == 'adt':
            a = list(v.args)
            if 2 + i < len(a):
                a[2 + i] = x
                return mk('adt', *a)
        if v.op == 'tup':
            a = list(v.args)
            a[i] = x
            return mk('tup', *a)
        if v.op == 'clo':
            a = list(v.args)
            a[1 + i] = x
            return mk('clo', *a)
        base, ups = (v.args if v.op == 'upd' else (v, ()))
        ups = tuple(sorted([(k, y) for k, y in ups if k != (i, vn)] + [((i, vn), x)], key=lambda z: z[0]))
        return mk('upd', base, ups)

    def index(self, st, v, ix):
        if ix.op == 'bsix' and ix.args[0] is v:
            return ix.args[1]
        if v.op == 'window':
            return self.index(st, v.args[0], add(v.args[1], ix))
        if v.op == 'sub' and v.args[1].op == 'range':
            return self.index(st, v.args[0], add(v.args[1].args[0], ix))
        if v.op == 'seq':
            if ix.op == 'int' and 0 <= ix.args[0] < len(v.args) - 1:
                return v.args[1 + ix.args[0]]
            if len(v.args) == 2:
                return v.args[1]
            return mk('at', v, ix)
        if v.op == 'bytes' and ix.op == 'int' and ix.args[0] < len(v.args[0]):
            return I(v.args[0][ix.args[0]])
        if v.op == 'coll':
            for k, x in reversed(v.args[4]):
                if k is ix:
                    return x
                if k.op == 'int' and ix.op == 'int':
                    continue
                break
            if v.args[4]:
                last = v.args[4][-1][0]
                if last is ix:
                    return v.args[4][-1][1]
                return mk('at', v, ix)
            return mk('at', v, ix)
        return mk('at', v, ix)

    def setindex(self, st, v, ix, x):
        if v.op == 'seq':
            if ix.op == 'int' and 0 <= ix.args[0] < len(v.args) - 1:
                a = list(v.args)
                a[1 + ix.args[0]] = x
                return mk('seq', *a)
            if len(v.args) == 2:
                return mk('seq', v.args[0], x)
            v = self.to_coll(st, v)
        if v.op == 'coll':
            w = v.args[4]
            if w and w[-1][0] is ix:
                w = w[:-1]
            w = w + ((ix, x),)
            return mk('coll', v.args[0], v.args[1], v.args[2] - {'sorted'}, v.args[3], w)
        if v.op not in ('int', 'adt', 'tup', 'mref', 'lost'):
            return mk('coll', 'vec', mk('of', v), EMPTY, (), ((ix, x),))
        return v

    def generalise(self, st, t, m=None):
        """Abstract a value that is about to be summarised in a collection."""
        if m is None:
            m = {}

        def go(x, inh=False):
            if not x.born and not has_oldidx(x) and bfdepth(x) < 2:
                return x
            if x in m:
                return m[x]
            o = x.op
            if o == 'sym' and is_idx(x) and BVIDX not in m.values():
                m[x] = BVIDX
                return BVIDX
            if o == 'lin':
                return mk_lin(x.args[0], {go(k): v for k, v in x.args[1]})
            if o == 'coll':
                if x.args[4]:
                    x = self.to_coll(st, x)
                return mk('coll', x.args[0], go(x.args[1]), *x.args[2:])
            if o == 'H':
                if inh and not (x.args and x.args[0].op == 'bytes' and x.args[0].args[0] == (100,)):
                    pass
                else:
                    return mk('H', *[go(a, True) for a in x.args])
            elif o == 'at':
                if not x.args[0].born and x.args[1].op in ('sym', 'lin', 'revix'):
                    return mk('at', x.args[0], go(x.args[1]))
            elif o in GEN_KEEP and not (o == 'bf' and (bfdepth(x) >= 2 or x.args[2].born)):
                return map_args(x, go)
            if o == 'mref':
                return sym('lostref')
            r = mk('bv', sum(1 for v in m.values() if v.op == 'bv'), self.attrs(st, x))
            m[x] = r
            return r
        return go(t)

    def instantiate(self, t, tag, ix=None):
        born = self.born()
        m = {}

        def go(x):
            if not has_bv(x):
                return x
            o = x.op
            if o == 'bv':
                r = m.get(x)
                if r is None:
                    r = sym((tag, x.args[0]) + self.site, born, x.args[1])
                    m[x] = r
                return r
            if o == 'bvidx':
                r = m.get(x)
                if r is None:
                    r = m[x] = ix if ix is not None else sym(('idx', tag) + self.site, born)
                return r
            if o == 'coll':
                return mk('coll', x.args[0], go(x.args[1]), *x.args[2:])
            if o == 'lin':
                return mk_lin(x.args[0], {go(k): v for k, v in x.args[1]})
            return map_args(x, go)
        return go(t)

    def attrs(self, st, x):
        a = set()
        if self.is_sorted(st, x):
            a.add('sorted')
        if x.op == 'sym':
            a |= x.args[2]
        if self.listener:
            a |= self.listener.attrs(self, st, x)
        return frozenset(a)

    def is_sorted(self, st, x):
        return static_sorted(x)

    def _unused(self, st, x):
        o = x.op
        if o == 'window' or o == 'perm':
            return False
        if o == 'sorted':
            return True
        if o == 'sub':
            return self.is_sorted(st, x.args[0])
        if o == 'seq':
            return len(x.args) <= 2
        if o == 'coll':
            return 'sorted' in x.args[2]
        if o in ('sym', 'bv'):
            return 'sorted' in x.args[-1]
        if o == 'phi':
            return 'sorted' in x.args[2]
        return False

    def to_coll(self, st, v, ver=None):
        if v.op == 'coll':
            if v.args[4]:
                els = set(v.args[3]) | {self.generalise(st, x) for _, x in v.args[4]}
                return mk('coll', v.args[0], ver or self.fresh('w'), v.args[2] - {'sorted'}, reduce_elems(els), ())
            return v
        els = {self.generalise(st, x) for x in v.args[1:]}
        fl = {'sorted', 'par'} if len(v.args) <= 2 else set()
        return mk('coll', v.args[0], ver or self.fresh('ver'), frozenset(fl), reduce_elems(els), ())

    def push(self, st, v, x, front=False):
        if v.op == 'seq' and len(v.args) < 5:
            return mk('seq', v.args[0], *(((x,) + v.args[1:]) if front else (v.args[1:] + (x,))))
        if v.op not in ('seq', 'coll'):
            v = mk('coll', 'vec', mk('of', v), frozenset({'base'}), (), ())
        v = self.to_coll(st, v)
        g = self.generalise(st, x)
        els = set(v.args[3]) | {g}
        fl = (v.args[2] - {'sorted'})
        if v.args[0] == 'vec' and not front and self.listener:
            fl = fl | self.listener.push_flags(self, st, v, x)
        return mk('coll', v.args[0], self.fresh('push'), fl, reduce_elems(els), ())

    # ---- memory --------------------------------------------------------------------------
    def load(self, st, r):
        """Value behind a reference (shared references are the value itself)."""
        n = 0
        while r.op == 'mref':
            r = self.load_loc(st, r.args[0], r.args[1])
            n += 1
            if n > 20:
                raise Unsupported('reference cycle')
        return r

    def load_loc(self, st, cell, projs):
        v = st.mem.get(cell)
        if v is None:
            v = sym(('uninit', cell), EMPTY)
        for p in projs:
            while v.op == 'mref':
                v = self.load(st, v)
            if p[0] == 'f':
                v = self.field(st, v, p[1], p[2])
            else:
                v = self.index(st, v, p[1]) if p[1].op != 'rangeix' else self.part(v, *p[1].args)
        return v

    def part(self, v, lo, hi):
        from stdmodels import sub_range
        return sub_range(self, v, (lo, None if hi.op == 'infinity' else hi))

    def store_loc(self, st, cell, projs, x):
        if not projs:
            st.mem[cell] = x
            return
        v = st.mem.get(cell)
        if v is None:
            v = sym(('uninit', cell), EMPTY)

        def go(v, ps):
            if not ps:
                return x
            p = ps[0]
            if v.op == 'mref':
                self.store_loc(st, v.args[0], v.args[1] + ps, x)
                return v
            if p[0] == 'f':
                return self.setfield(v, p[1], p[2], go(self.field(st, v, p[1], p[2]), ps[1:]))
            return self.setindex(st, v, p[1], go(self.index(st, v, p[1]), ps[1:]))
        st.mem[cell] = go(v, projs)

    def store(self, st, r, x):
        if r.op == 'mref':
            cell, projs = r.args
            cur = self.load_loc(st, cell, projs)
            if cur.op == 'mref' and x.op != 'mref':
                return self.store(st, cur, x)
            self.store_loc(st, cell, projs, x)

    def resolve(self, st, fr, place):
        """-> ('loc', cell, projs) or ('val', T)"""
        loc = (('L', fr.ctx, place[0]), ())
        val = None
        vn = ''
        for e in place[1]:
            if e == '*':
                cur = val if loc is None else self.load_loc(st, loc[0], loc[1])
                if cur.op == 'mref':
                    loc, val = cur.args, None
                else:
                    loc, val = None, cur
            elif e[0] == 'd':
                vn = e[2]
            elif e[0] == 'f':
                if loc is not None:
                    loc = (loc[0], loc[1] + (('f', e[1], vn),))
                else:
                    val = self.field(st, val, e[1], vn)
                vn = ''
            elif e[0] == 'i':
                ix = st.mem.get(('L', fr.ctx, e[1])) or sym('ix?')
                if loc is not None:
                    cur = self.load_loc(st, loc[0], loc[1])
                    if cur.op == 'mref':
                        loc = cur.args
                    loc = (loc[0], loc[1] + (('x', ix),))
                else:
                    val = self.index(st, val, ix)
            elif e[0] == 'c':
                ix = I(e[1])
                if e[3]:
                    base = val if loc is None else self.load_loc(st, loc[0], loc[1])
                    ix = add(mk('len', base), I(e[1]), -1)
                if loc is not None:
                    loc = (loc[0], loc[1] + (('x', ix),))
                else:
                    val = self.index(st, val, ix)
            elif e[0] == 's':
                base = val if loc is None else self.load_loc(st, loc[0], loc[1])
                import stdmodels
                hi = add(self.length(base), I(e[2]), -1) if e[3] else I(e[2])
                loc, val = None, stdmodels.sub_range(self, base, (I(e[1]), hi))
            else:
                base = val if loc is None else self.load_loc(st, loc[0], loc[1])
                loc, val = None, mk('app', 'proj', base)
        return ('val', val) if loc is None else ('loc', loc[0], loc[1])

    def read(self, st, fr, place):
        r = self.resolve(st, fr, place)
        if r[0] == 'val':
            return r[1]
        return self.load_loc(st, r[1], r[2])

    def write(self, st, fr, place, x):
        r = self.resolve(st, fr, place)
        if r[0] == 'loc':
            self.store_loc(st, r[1], r[2], x)

    # ---- operands and rvalues ------------------------------------------------------------
    def const(self, fr, k):
        if 'fn' in k:
            key = id(k['fn'])
            i = self.fnidx.get(key)
            if i is None:
                i = len(self.fninfo)
                self.fninfo.append(k['fn'])
                self.fnidx[key] = i
            return mk('fn', i)
        if 'promoted' in k:
            v = self.promoted(fr, k['promoted'])
            if v is not None:
                return v
        if 'int' in k:
            return I(int(k['int']))
        if 'str' in k:
            return mk('str', k['str'])
        if 'bytes' in k:
            return mk('bytes', tuple(int(x) for x in k['bytes']))
        if 'cty' in k:
            return sym('const ' + k['cty'])
        t = fr.fn.dump.types[k['t']]
        if t['k'] == 'tuple' and not t['a']:
            return UNIT
        if t['k'] == 'closure':
            return mk('clo', t['d'])
        if t['k'] == 'adt':
            a = fr.fn.dump.adts.get(t['d'])
            if a and a['kind'] == 'struct' and a['local'] and not a['variants'][0]['f']:
                return adt(t['d'], a['variants'][0]['n'])
        if 'uneval' in k:
            return sym('const ' + k['uneval'])
        return sym('const:' + t['s'])

    def promoted(self, fr, i):
        b = fr.fn.b.get('promoted') or []
        if i >= len(b):
            return None
        body = dict(b[i])
        body.setdefault('key', '%s{promoted#%d}' % (fr.fn.key, i))
        body.setdefault('name', 'promoted')
        k = (id(fr.fn.dump), body['key'])
        f = self.fns.get(k)
        if f is None:
            f = Fn(body, fr.fn.dump)
            self.fns[k] = f
        st = State()
        try:
            outs = self.run_fn(f, [], st, self.ctx(fr.ctx, body['key'], -1))
        except Unsupported:
            return None
        if len(outs) != 1:
            return None
        v, s2 = outs[0]
        return self.load(s2, v)

    def operand(self, st, fr, o):
        if o[0] in 'cm':
            return self.read(st, fr, o[1])
        if o[0] == 'k':
            return self.const(fr, o[1])
        return sym('runtimecheck')

    def operand_ty(self, fr, o):
        if o[0] in 'cm':
            return self.place_ty(fr, o[1])['s']
        if o[0] == 'k' and isinstance(o[1], dict) and isinstance(o[1].get('t'), int):
            return fr.fn.dump.types[o[1]['t']]['s']
        return '?'

    def cmp(self, op, a, b):
        d = add(a, b, -1)
        if op == 'Eq' or op == 'Ne':
            t = self.eq_term(a, b)
            return mknot(t) if op == 'Ne' else t
        if op == 'Le':
            return mkle0(d)
        if op == 'Lt':
            return mkle0(add(d, I(1)))
        if op == 'Ge':
            return mkle0(scale(d, -1))
        if op == 'Gt':
            return mkle0(add(scale(d, -1), I(1)))
        raise Unsupported(op)

    def eq_term(self, a, b):
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x.op == 'int' and x.args[0] in (0, 1) and y.op in BOOLOPS:
                return y if x.args[0] == 1 else mknot(y)
        if a.op in NUMOPS or b.op in NUMOPS:
            return mkeq0(add(a, b, -1))
        return mkeq(a, b)

    def binop(self, base, a, b):
        if base == 'Add':
            v = add(a, b)
        elif base == 'Sub':
            v = add(a, b, -1)
        elif base == 'Mul' and (a.op == 'int' or b.op == 'int'):
            v = scale(a, b.args[0]) if b.op == 'int' else scale(b, a.args[0])
        elif base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.cmp(base, a, b)
        elif base in ('BitAnd', 'BitOr') and (a.op in BOOLOPS or b.op in BOOLOPS):
            return mk('and' if base == 'BitAnd' else 'or', a, b)
        elif base == 'Shl' and b.op == 'int' and a.op != 'int':
            v = scale(a, 1 << b.args[0]) if b.args[0] < 64 else mk('arith', base, a, b)
        elif base in ('BitOr', 'BitXor') and (clear_below(a, b) or clear_below(b, a)):
            v = add(a, b)
        elif a.op == 'int' and b.op == 'int':
            x, y = a.args[0], b.args[0]
            v = {'Shr': lambda: x >> y, 'Shl': lambda: x << y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                 'Rem': lambda: x % y if y else 0, 'Div': lambda: x // y if y else 0, 'Mul': lambda: x * y}.get(base, lambda: None)()
            v = I(v) if v is not None else mk('arith', base, a, b)
        elif base == 'BitXor' and (a.op in BOOLOPS or b.op in BOOLOPS):
            e = self.eq_term(a, b) if 'int' in (a.op, b.op) else mkeq(a, b)
            return mknot(e)
        else:
            v = mk('arith', base, a, b)
        return v

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref' or k == 'rawptr':
            place = r[2]
            res = self.resolve(st, fr, place)
            if k == 'ref' and not r[1] or k == 'rawptr' and 'Mut' not in r[1]:
                if res[0] == 'val':
                    return res[1]
                v = self.load_loc(st, res[1], res[2])
                return self.load(st, v) if v.op == 'mref' else v
            if res[0] == 'val':
                return res[1]
            cur = self.load_loc(st, res[1], res[2])
            return mk('mref', res[1], res[2])
        if k == 'bin':
            op = r[1]
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            a, b = self.load(st, a), self.load(st, b)
            base = op.replace('WithOverflow', '').replace('Unchecked', '')
            v = self.binop(base, a, b)
            if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return v
            if 'WithOverflow' in op:
                ty = self.operand_ty(fr, r[2]) if self.track_overflow else ''
                return mk('tup', v, mk('ovf', mk('str', base), mk('str', ty), v) if ty[:1] == 'u' and v.op != 'int' else FALSE)
            return v
        if k == 'un':
            a = self.load(st, self.operand(st, fr, r[2]))
            if r[1] == 'Not':
                w = INTW.get(self.operand_ty(fr, r[2]))
                if w and a.op == 'int' and a.args[0] >= 0:
                    return I(~a.args[0] & ((1 << w) - 1))
                if w:
                    return mk('arith', 'Not', a)
                if a.op == 'int' and a.args[0] in (0, 1):
                    return I(1 - a.args[0])
                return mknot(a)
            if r[1] == 'PtrMetadata':
                return self.length(a)
            if r[1] == 'Neg':
                return scale(a, -1)
            return mk('arith', r[1], a)
        if k == 'cast':
            if r[1] == 'BoxDerefTransmute' and r[2][0] in 'cm' and len(r[2][1][1]) == 1:
                b = self.read(st, fr, [r[2][1][0], []])
                if b.op == 'mref':
                    return b
            a = self.operand(st, fr, r[2])
            if r[1].startswith('IntToInt') and a.op in BOOLOPS:
                return self.number_of(st, a)
            if r[1].startswith('IntToInt'):
                w = INTW.get(fr.fn.dump.types[r[3]]['s'])
                o = r[2]
                sw = 128
                if o[0] in ('c', 'm'):
                    sw = INTW.get(self.place_ty(fr, o[1])['s'], 128)
                if w and w < sw:
                    if a.op == 'int':
                        return I(a.args[0] & ((1 << w) - 1))
                    return mk('trunc', w, a)
            return a
        if k == 'discr':
            v = self.load(st, self.read(st, fr, r[1]))
            ty = fr.fn.dump.types[r[2]]
            return mk('discr', v, ty.get('d', '?'))
        if k == 'agg':
            kind = r[1]
            ops = [self.operand(st, fr, o) for o in r[2]]
            if kind[0] == 'tuple':
                return mk('tup', *ops)
            if kind[0] == 'array':
                if len(ops) > 16:
                    return mk('bytes', tuple(o.args[0] for o in ops)) if all(o.op == 'int' for o in ops) else mk('app', 'array')
                return mk('seq', 'vec', *ops)
            if kind[0] == 'adt':
                if kind[4] >= 0:
                    return mk('app', 'union', *ops)
                v = mk('adt', kind[1], kind[3], *ops)
                if self.listener:
                    self.listener.on_adt(self, st, fr, v)
                return v
            if kind[0] == 'closure':
                return mk('clo', kind[1], *ops)
            return mk('app', 'agg', *ops)
        if k == 'repeat':
            return mk('app', 'repeat', self.operand(st, fr, r[1]))
        return mk('app', 'rv:' + k)

    def length(self, v):
        if v.op == 'seq':
            return I(len(v.args) - 1)
        if v.op == 'bytes':
            return I(len(v.args[0]))
        if v.op == 'sorted':
            return self.length(v.args[0])
        if v.op == 'coll':
            return mk('len', v.args[1])
        if v.op == 'sub' and v.args[1].op == 'range' and v.args[1].args[0].op == 'int':
            lo, hi = v.args[1].args
            if hi.op == 'int' and lo.args[0] <= hi.args[0] or hi is self.length(v.args[0]):
                return add(hi, lo, -1)
        return mk('len', v)

    # ---- control -------------------------------------------------------------------------
    def run_fn(self, fn, args, st, ctx):
        """Analyse fn from st; returns [(value, state)]."""
        if len(self.callstack) > 40:
            raise Unsupported('inlining depth')
        fr = Frame(fn, ctx)
        self.inlined.add(fn.key)
        self.callstack.append(fr)
        for i, a in enumerate(args):
            st.mem[('L', ctx, i + 1)] = a
        saved = getattr(self, 'site', None)
        before = st.why
        try:
            exits = self.region(fr, set(fn.rpo), 0, [st])
        finally:
            self.callstack.pop()
            self.site = saved
        outs = []
        seen = {}
        for tgt, s in exits:
            if tgt != 'ret':
                continue
            v = s.mem.get(('L', ctx, 0), UNIT)
            s.mem = {c: x for c, x in s.mem.items() if c[0] != 'L' or c[1] != ctx}
            k = (v, s.sig())
            if k in seen:
                seen[k].also(s)
                continue
            seen[k] = s
            outs.append((v, s))
        for v, s in outs:
            if v.op == 'adt' and v.args[1] == 'Err' and v.args[0] == RESULT and self.listener is not None:
                self.listener.on_raise(self, s, fr, v)
            elif len(self.callstack) > 0:
                s.why = before
        return self.merge_errs(outs)

    def merge_errs(self, outs):
        """One error outcome per set of events seen: callers only propagate errors."""
        if self.listener is not None and self.listener.keep_errs:
            return outs
        keep, groups = [], {}
        for v, s in outs:
            if v.op == 'adt' and v.args[0] == RESULT and v.args[1] == 'Err':
                k = (frozenset(e[0] for e in s.log), frozenset(s.ghost.items()))
                groups.setdefault(k, []).append((v, s))
            else:
                keep.append((v, s))
        for k, g in groups.items():
            v, s = g[0]
            if len(g) > 1:
                s = s.copy()
                same = g[0][0] if all(x is v for x, _ in g) else None
                if same is None:
                    v = err(mk('anyerr', tuple(sorted({t.args[2] for t, _ in g}, key=lambda t: t.id))))
                facts = dict(s.facts)
                mem = dict(s.mem)
                for _, o in g[1:]:
                    for f in list(facts):
                        if o.facts.get(f) != facts[f]:
                            del facts[f]
                    for c in list(mem):
                        if c not in o.mem:
                            del mem[c]
                        elif o.mem[c] is not mem[c]:
                            mem[c] = sym(('errmerge', c), self.born())
                s.facts, s.mem = facts, mem
                # one event of each kind, in the loop it happened in
                lg, had = {(): []}, set()
                for _, o in g:
                    at = ()
                    for e in o.log:
                        if e[0] == 'loop':
                            at = at + (e,)
                            lg.setdefault(at, [])
                        elif e[0] not in had:
                            had.add(e[0])
                            lg[at].append(e)
                s.log = tuple(e for at in sorted(lg, key=len) for e in at[-1:] + tuple(lg[at]))
            keep.append((v, s))
        return keep

    def gc_facts(self, s, lid):
        """Forget facts about values of a finished loop that nothing mentions any more."""
        used = None
        drop = []
        for k in s.facts:
            t = k[1] if isinstance(k, tuple) else k
            if lid in t.born or has_oldidx(t):
                if used is None:
                    used = set()
                    for v in s.mem.values():
                        if v.born or has_oldidx(v):
                            subterms(v, used)
                    for e in s.log:
                        for v in e[1:]:
                            if isinstance(v, T) and (v.born or has_oldidx(v)):
                                subterms(v, used)
                if t not in used and not any(x in used for x in subterms(t) if x.op == 'sym' and (lid in x.born or has_oldidx(x))):
                    drop.append(k)
        if drop:
            f = dict(s.facts)
            gone = []
            for k in drop:
                gone.append((k, f.pop(k)))
            s.facts = f
            if self.listener is not None and self.listener.keeps_why:
                s.why = frozenset(w.union(gone) for w in s.why)

    def region(self, fr, blocks, entry, states):
        pend = {entry: states}
        exits = []
        for b in fr.fn.rpo:
            if b not in blocks:
                continue
            sts = pend.pop(b, None)
            if not sts:
                continue
            sts = self.prune(fr, b, sts)
            if b in fr.fn.loops and b != entry or (b == entry and b in fr.fn.loops and blocks != fr.fn.loops[b]):
                outs = self.loop(fr, b, sts)
            else:
                outs = []
                for s in sts:
                    outs.extend(self.block(fr, b, s))
            for tgt, s in outs:
                if tgt == entry and tgt in fr.fn.loops and blocks == fr.fn.loops.get(tgt):
                    exits.append((tgt, s))
                elif tgt != 'ret' and tgt in blocks and fr.fn.pos[tgt] > fr.fn.pos[b] or (tgt in blocks and tgt != 'ret' and tgt in pend):
                    pend.setdefault(tgt, []).append(s)
                else:
                    exits.append((tgt, s))
        return exits

    def prune(self, fr, b, sts):
        live = fr.fn.live[b]
        bor = fr.fn.borrowed
        ctx = fr.ctx
        out, seen = [], {}
        for s in sts:
            dead = [c for c in s.mem if c[0] == 'L' and c[1] == ctx and c[2] not in live and c[2] not in bor]
            for c in dead:
                del s.mem[c]
            if len(sts) > 1:
                k = s.sig()
                if k in seen:
                    seen[k].also(s)
                    continue
                seen[k] = s
            out.append(s)
        if len(out) > self.MAXSTATES:
            raise Budget('too many states in %s' % fr.fn.key)
        return out

    def partkey(self, fr, s):
        ks = []
        live = fr.fn.live
        for c, v in s.mem.items():
            if c[0] == 'L':
                f = self.frame_of(c[1])
                if f is not None and c[2] not in f.fn.names:
                    if not (v.op == 'adt'):
                        continue
            if v.op == 'int' and v.args[0] in (0, 1):
                if c[0] == 'L' and f is not None and self.is_bool(f, c[2]):
                    ks.append((c, v.args[0]))
            elif v.op == 'adt' and v.args[1] != v.args[0].split('::')[-1]:
                ks.append((c, v.args[1]))
            elif v.op in ('opt', 'sym', 'fld', 'res', 'app'):
                f2 = s.facts.get(('v', v))
                if isinstance(f2, str):
                    ks.append((c, f2))
        return (frozenset(ks), s.log, frozenset((k, v) for k, v in s.ghost.items() if not k.startswith('u_')))

    def frame_of(self, ctx):
        for f in self.callstack:
            if f.ctx == ctx:
                return f
        return None

    def is_bool(self, f, l):
        return f.fn.dump.types[f.fn.b['locals'][l]]['k'] == 'bool'

    def lit_left(self, fr, s):
        """How many elements the literal lists being iterated over in this frame still have."""
        n, seen = 0, False
        lent = set()
        for c, v in s.mem.items():
            if c[0] == 'L' and c[1] == fr.ctx or c[0] == 'C':
                if v.op == 'mref' and v.args[0][0] == 'L' and v.args[0][1] != fr.ctx and v not in lent:
                    lent.add(v)
                    v = self.load(s, v)
                for x in lit_iters(v):
                    n, seen = n + len(x.args[1].args) - 1, True
        return n if seen else None

    def unroll(self, fr, h, body, state):
        """Follow a loop over a literal list element by element; None when it is not one."""
        left = self.lit_left(fr, state)
        if not left:
            return None
        base = len(self.events)
        saved = self.lit, self.turn
        self.lit = True
        out, work, n = [], [(state, left)], 0
        try:
            while work:
                s, left = work.pop()
                self.turn = saved[1] + (n,) if n else saved[1]
                n += 1
                if n > 40:
                    del self.events[base:]
                    return None
                for tgt, s2 in self.region(fr, body, h, [s.copy()]):
                    if tgt != h:
                        out.append((tgt, s2))
                        continue
                    l2 = self.lit_left(fr, s2)
                    if l2 is None or l2 >= left:
                        del self.events[base:]
                        return None
                    work.append((s2, l2))
        finally:
            self.lit, self.turn = saved
        return out

    def loop(self, fr, h, states):
        body = fr.fn.loops[h]
        done, rest = [], []
        for s in states:
            r = self.unroll(fr, h, body, s)
            if r is None:
                rest.append(s)
            else:
                done.extend(r)
        if rest:
            saved = self.lit
            self.lit = False
            try:
                done.extend(self.loop_solve(fr, h, rest))
            finally:
                self.lit = saved
        return done

    def loop_solve(self, fr, h, states):
        lid = ('loop', fr.ctx, h)
        body = fr.fn.loops[h]
        self.loops_solved.add((fr.fn.key, h))
        part = {}
        entrykeys = set()
        if self.listener:
            for s in states:
                self.listener.enter(self, s, lid, fr, h)
        base = len(self.events)
        boundary = {}
        phi_inputs = {}
        for s in states:
            s.log = s.log + (('loop', lid),)
            k = self.partkey(fr, s)
            if k in part:
                part[k], _ = self.join(fr, lid, k, part[k], s, None)
            else:
                part[k] = s
        saved_phis = self.phis
        rounds = 0
        self.active.append(lid)
        try:
            while True:
                rounds += 1
                del self.events[base:]
                exits, changed = [], False
                self.phis = dict(saved_phis)
                newpart = dict(part)
                for k, hs in list(part.items()):
                    outs = self.region(fr, body, h, [hs.copy()])
                    for tgt, s in outs:
                        if tgt == h:
                            if self.listener:
                                self.pass_start = hs
                                self.listener.cross(self, s, lid, fr, h)
                            s = pre = self.settle(s)
                            s = self.cross(s, lid)
                            dead = [c for c in s.mem if c[0] == 'L' and c[1] == fr.ctx and c[2] not in fr.fn.live[h] and c[2] not in fr.fn.borrowed]
                            for c in dead:
                                del s.mem[c]
                            nk = self.partkey(fr, s)
                            if nk in newpart:
                                j, ch = self.join(fr, lid, nk, newpart[nk], s, pre, widen=rounds > 8)
                                if ch:
                                    newpart[nk] = j
                                    changed = True
                            else:
                                newpart[nk] = self.clean_lost(s, lid, nk)
                                changed = True
                        else:
                            if self.listener:
                                self.listener.leave(self, s, lid, fr, h, tgt)
                            exits.append((tgt, s))
                part = newpart
                if len(part) > 60:
                    raise Budget('too many partitions in %s' % fr.fn.key)
                if not changed:
                    break
                if rounds > 25:
                    raise Budget('loop did not converge in %s' % fr.fn.key)
        finally:
            self.active.pop()
        res = []
        for tgt, s in exits:
            # drop the loop boundary from the log
            lg = list(s.log)
            for i in range(len(lg) - 1, -1, -1):
                if lg[i] == ('loop', lid):
                    del lg[i]
                    break
            s.log = tuple(lg)
            if tgt != 'ret':
                live = fr.fn.live.get(tgt, ())
                for c in [c for c in s.mem if c[0] == 'L' and c[1] == fr.ctx and c[2] not in live and c[2] not in fr.fn.borrowed]:
                    del s.mem[c]
            self.gc_facts(s, lid)
            res.append((tgt, s))
        return res

    def settle(self, s):
        """Replace conditions that this pass has decided by what they came out as."""
        known = {c: TRUE if r else FALSE for c, v in s.mem.items() if v.op in ('le0', 'eq0', 'eq', 'boolapp', 'not', 'and', 'or') for r in (self.truth(s, v),) if r is not None}
        if known:
            s = s.copy()
            s.mem = {**s.mem, **known}
        return s

    def cross(self, s, lid):
        """Carry a state over the back edge: this iteration's symbols become last iteration's."""
        memo = {}

        def go(t):
            if lid not in t.born and not t_has_old(t, lid):
                return t
            r = memo.get(t)
            if r is None:
                if t.op == 'sym':
                    if lid in t.args[1]:
                        nm = t.args[0]
                        r = mk('sym', ('old', lid, nm), t.args[1] - {lid}, t.args[2])
                    else:
                        r = mk('lost', lid)
                else:
                    r = map_args(t, go)
                memo[t] = r
            return r
        n = s.copy()
        n.mem = {c: go(v) for c, v in s.mem.items()}
        nf = {}
        for k, v in s.facts.items():
            if isinstance(k, tuple):
                nk = (k[0], go(k[1]))
                if has_lost(nk[1]):
                    continue
                nf[nk] = v
            else:
                nk = go(k)
                if has_lost(nk):
                    continue
                nf[nk] = v
        n.facts = nf
        lg = list(s.log)
        for i in range(len(lg) - 1, -1, -1):
            if lg[i] == ('loop', lid):
                del lg[i + 1:]
                break
        n.log = tuple(lg)
        g = {}
        for k, v in s.ghost.items():
            g[k] = _map_in_ghost(v, go)
        n.ghost = g
        return n

    def clean_lost(self, s, lid, key):
        for c, v in list(s.mem.items()):
            if has_lost(v):
                s.mem[c] = self.relost(v, lid, key, (c,))
        return s

    def relost(self, v, lid, key, path):
        if not has_lost(v):
            return v
        if v.op in ('adt', 'tup', 'clo', 'seq', 'rec', 'nodeval') and not v.op == 'lost':
            n = []
            for i, a in enumerate(v.args):
                n.append(self.relost(a, lid, key, path + (i,)) if isinstance(a, T) else a)
            return mk(v.op, *n)
        return self.phi(lid, key, path, EMPTY)

    def phi(self, lid, key, path, attrs):
        return mk('phi', ('phi', lid, hash_key(key)) + path, self.outer_born(lid), attrs) if False else mk('phi', PhiName(lid, key, path), self.outer_sym(lid), attrs)

    def outer_sym(self, lid):
        # a phi lives as long as the iteration of every enclosing loop, and changes with its own
        b = frozenset(x for x in self.active if x != lid) | {lid}
        return sym(('phi', lid), b)

    def join(self, fr, lid, key, a, b, pre, widen=False):
        """Join b into header state a.  Returns (state, changed)."""
        ch = False
        n = a.copy()
        mem = {}
        self.lenfacts = {}
        for c, va in a.mem.items():
            vb = b.mem.get(c)
            if vb is None:
                ch = True
                continue
            vp = pre.mem.get(c) if pre is not None else vb
            if va is vb:
                mem[c] = va
                if va.op == 'phi':
                    self.note_phi(va, vp, pre or b)
                continue
            v = self.join_val(a, b, va, vb, vp, lid, key, (c,), pre or b, widen)
            mem[c] = v
            if v is not va:
                ch = True
        n.mem = mem
        facts = {}
        for k, v in a.facts.items():
            if k in self.lenfacts:
                continue
            w = b.facts.get(k)
            if w is None:
                ch = True
                continue
            if v == w:
                facts[k] = v
            elif isinstance(v, tuple):
                lo = None if v[0] is None or w[0] is None else min(v[0], w[0])
                hi = None if v[1] is None or w[1] is None else max(v[1], w[1])
                if widen or lo != v[0]:
                    lo = lo if lo == v[0] else None
                if widen or hi != v[1]:
                    hi = hi if hi == v[1] else None
                ch = ch or (lo, hi) != v
                if lo is not None or hi is not None:
                    facts[k] = (lo, hi)
            else:
                ch = True
        # facts about values that became phis are void
        for k, v in self.lenfacts.items():
            if a.facts.get(k) != v:
                ch = True
            facts[k] = v
        n.facts = facts
        g = dict(a.ghost)
        for k in set(a.ghost) | set(b.ghost):
            x, y = a.ghost.get(k), b.ghost.get(k)
            if x != y:
                z = (x or EMPTY) | (y or EMPTY)
                g[k] = z
                if z != x:
                    ch = True
        n.ghost = g
        return n, ch

    def note_phi(self, phi, val, st):
        k = phi.args[0]
        lst = self.phis.setdefault(phi, [])
        if not any(v is val and f is st.facts for v, f in lst):
            self.phis[phi] = lst + [(val, st.facts)]

    def join_val(self, sa, sb, a, b, bp, lid, key, path, pre, widen):
        if a is b:
            if a.op == 'phi' and isinstance(a.args[0], PhiName) and a.args[0].lid == lid:
                self.note_phi(a, bp if bp is not None else b, pre)
            return a
        def sub(x, y, i):
            yp = None
            if bp is not None and bp.op == b.op and len(bp.args) == len(b.args):
                yp = bp.args[i]
                if not isinstance(yp, T):
                    yp = None
            return self.join_val(sa, sb, x, y, yp if yp is not None else y, lid, key, path + (i,), pre, widen)
        if not widen:
            if a.op == b.op and a.op in ('adt', 'tup', 'clo', 'rec', 'nodeval') and len(a.args) == len(b.args):
                if all((x is y or (isinstance(x, T) and isinstance(y, T))) or x == y for x, y in zip(a.args, b.args)):
                    n = [sub(x, y, i) if isinstance(x, T) and isinstance(y, T) else x for i, (x, y) in enumerate(zip(a.args, b.args))]
                    return mk(a.op, *n)
            if a.op == 'seq' and b.op == 'seq' and len(a.args) == len(b.args) and all(x is y or not (loclike(x) or loclike(y)) for x, y in zip(a.args[1:], b.args[1:])):
                n = [a.args[0]] + [sub(x, y, i + 1) for i, (x, y) in enumerate(zip(a.args[1:], b.args[1:]))]
                return mk('seq', *n)
        if a.op in ('seq', 'coll') and b.op in ('seq', 'coll'):
            pv = self.phi(lid, key, path + ('ver',), EMPTY)
            ca, cb = self.to_coll(sa, a, pv), self.to_coll(sb, bp if bp is not None and bp.op in ('seq', 'coll') else b, pv)
            els = reduce_elems(set(ca.args[3]) | set(cb.args[3]))
            fl = (ca.args[2] & cb.args[2]) | ((ca.args[2] | cb.args[2]) & frozenset({'unordered', 'base', 'filtered'}))
            la, lb = self.bounds(sa, self.length(a)), self.bounds(pre if bp is not None and bp.op in ('seq', 'coll') else sb, self.length(bp if bp is not None and bp.op in ('seq', 'coll') else b))
            lo = min(la[0] or 0, lb[0] or 0)
            hi = None if la[1] is None or lb[1] is None else max(la[1], lb[1])
            if a.op == 'coll' and a.args[1] is pv and (hi != la[1] or lo != (la[0] or 0)):
                hi, lo = (hi if hi == la[1] else None), (lo if lo == (la[0] or 0) else 0)
            if lo or hi is not None:
                self.lenfacts[('b', mk('len', pv))] = (lo or None, hi)
            return mk('coll', ca.args[0], pv, fl, els, ())
        if a.op == 'iter' and b.op == 'iter' and a.args[0] == b.args[0] and len(a.args) == len(b.args):
            if all(x is y or (isinstance(x, T) and isinstance(y, T)) or x == y for x, y in zip(a.args, b.args)):
                return mk('iter', *[sub(x, y, i) if isinstance(x, T) and isinstance(y, T) and x is not y else x for i, (x, y) in enumerate(zip(a.args, b.args))])
        at = self.attrs(sa, a) & self.attrs(sb, b)
        p = self.phi(lid, key, path, at)
        if a.op == 'phi' and isinstance(a.args[0], PhiName) and a.args[0] == p.args[0]:
            if a is not p:
                self.phis[p] = self.phis.get(p, []) + self.phis.get(a, [])
        else:
            self.note_phi(p, a, sa)
            self.phi_init.setdefault(p, [])
            if a not in self.phi_init[p]:
                self.phi_init[p].append(a)
        self.note_phi(p, bp if bp is not None else b, pre)
        return p

    def block(self, fr, b, st):
        try:
            return self.block1(fr, b, st)
        except SplitOn as e:
            c = e.args[0]
        outs = []
        for val in (True, False):
            s = st.copy()
            if self.assume(s, c, val):
                outs.extend(self.block(fr, b, s))
        return outs

    def block1(self, fr, b, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('step budget')
        fn = fr.fn
        bl = fn.blocks[b]
        st = st.copy()
        self.site = (fr.ctx, b) + self.turn
        self.cur_span = bl['sp']
        for i, s in enumerate(bl['s']):
            if s[0] == '=':
                self.cur_span = s[3]
                self.stmt = i
                v = self.rvalue(st, fr, s[2])
                self.write(st, fr, s[1], v)
            elif s[0] == 'sd':
                pass
        self.cur_span = bl['sp']
        t = bl['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'drop':
            return [(t[2], st)]
        if k == 'return':
            return [('ret', st)]
        if k in ('unreachable', 'resume'):
            return []
        if k == 'assert':
            c = self.operand(st, fr, t[1])
            if self.listener:
                self.listener.on_assert(self, st, fr, t, c)
            if c.op not in ('int', 'ovf') and not self.assume(st, c, t[2]):
                return []
            if c.op == 'int' and bool(c.args[0]) != t[2]:
                return []
            return [(t[3], st)]
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'call':
            f = self.operand(st, fr, t[1])
            args = [self.operand(st, fr, o) for o in t[2]]
            self.dest_ty = self.place_ty(fr, t[3])
            self.from_ty = self.operand_ty(fr, t[2][0]) if len(t[2]) == 1 else ''
            outs = self.call(st, fr, f, args, b)
            if t[4] < 0:
                if self.listener:
                    self.listener.on_panic(self, st, fr, norm(self.fninfo[f.args[0]]['path']) if f.op == 'fn' else '?')
                return []
            res = []
            for v, s in outs:
                s = s.copy()
                self.write(s, fr, t[3], v)
                res.append((t[4], s))
            self.site = (fr.ctx, b) + self.turn
            return res
        raise Unsupported('terminator %s' % t)

    def place_ty(self, fr, p):
        if not p[1]:
            return fr.fn.dump.types[fr.fn.b['locals'][p[0]]]
        for e in reversed(p[1]):
            if e != '*' and e[0] == 'f':
                return fr.fn.dump.types[e[2]]
            break
        return {'k': '?', 's': '?'}

    def switch(self, fr, st, t):
        if t[1][0] in 'cm' and not t[1][1][1] and t[1][1][0] in fr.fn.dropflags:
            return [(t[2][0][1], st)]
        d = self.load(st, self.operand(st, fr, t[1]))
        if d.op == 'int':
            for x, tgt in t[2]:
                if int(x) == d.args[0]:
                    return [(tgt, st)]
            return [(t[3], st)]
        if d.op == 'discr':
            v, path = d.args
            a = self.dump.adts.get(path) or (self.models.adts.get(path) if self.models else None)
            names = {}
            if a:
                names = {str(x['d']): x['n'] for x in a['variants']}
            known = self.variant(st, v)
            outs = []
            covered = []
            for x, tgt in t[2]:
                n = names.get(x, '#' + x)
                covered.append(n)
                if known is not None:
                    if known == n:
                        return [(tgt, st)]
                    continue
                s = st.copy()
                if self.assume_variant(s, v, n, True):
                    outs.append((tgt, s))
            if known is not None:
                return [(t[3], st)]
            rest = [n for n in names.values() if n not in covered]
            if rest or not names:
                s = st.copy()
                okk = True
                for n in covered:
                    okk = okk and self.assume_variant(s, v, n, False, tuple(names.values()))
                if okk:
                    outs.append((t[3], s))
            return outs
        ty = fr.fn.dump.types[t[4]]
        if ty['k'] == 'bool':
            outs = []
            for x, tgt in t[2] + [[None, t[3]]]:
                val = (x is not None and int(x) != 0) if x is not None else (t[2][0][0] == '0')
                s = st.copy()
                if self.assume(s, d, val):
                    if self.listener:
                        self.listener.on_branch(self, s, fr, d, val)
                    outs.append((tgt, s))
            return outs
        outs = []
        for x, tgt in t[2]:
            s = st.copy()
            if self.assume(s, mkeq0(add(d, I(int(x)), -1)), True):
                outs.append((tgt, s))
        s = st.copy()
        okk = True
        for x, tgt in t[2]:
            okk = okk and self.assume(s, mkeq0(add(d, I(int(x)), -1)), False)
        if okk:
            outs.append((t[3], s))
        return outs

    # ---- calls ---------------------------------------------------------------------------
    def event(self, st, fr, kind, *data):
        """Record an event: in the path log and for the listener."""
        e = Event(kind, data, self.cur_span, fr.fn.key, self.site, [f.fn.key for f in self.callstack], tuple(self.active))
        e.facts = st.facts
        e.log = st.log
        e.ghost = st.ghost
        self.events.append(e)
        st.log = st.log + ((kind,) + data + (self.span_of(fr),),)
        if self.listener:
            self.listener.on_event(self, st, fr, e)
        return e

    def span_of(self, fr):
        return '%s@%s' % (self.cur_span, short(fr.fn.key))

    def call_value(self, st, fr, f, args, tag=0):
        """Call a closure or function item from a model."""
        f0 = f
        f = self.load(st, f)
        if f.op == 'clo':
            body = self.find_closure(f.args[0])
            if body is None:
                return [(mk('app', 'closure?', *args), st)]
            c = self.ctx(fr.ctx, body.key, self.site + (tag,))
            selfarg = f0 if f0.op == 'mref' else f
            # FnMut/Fn closures take self by reference: give them a place so that captures persist
            self_ty = body.dump.types[body.b['locals'][1]] if body.b['argc'] >= 1 else None
            if self_ty and self_ty['k'] == 'ref' and selfarg.op != 'mref':
                cell = ('C', c)
                st = st.copy()
                st.mem[cell] = f
                selfarg = mk('mref', cell, ())
            return self.run_fn(body, [selfarg] + list(args), st.copy(), c)
        if f.op == 'fn':
            return self.call(st, fr, f, args, self.site[1])
        return [(mk('app', 'callptr', f, *[self.load(st, a) for a in args]), st)]

    def find_closure(self, key):
        for d in (self.dump, self.models):
            if d and key in d.bodies:
                return self.fn(key, d)
        return None

    def inline(self, st, fr, body, args, bb, tag=None):
        n = sum(1 for f in self.callstack if f.fn is body)
        if n > (4 if body.dump is self.models else 0):
            return self.recursive(st, fr, body, args)
        c = self.ctx(fr.ctx, body.key, (bb, tag) if tag is not None else bb)
        return self.run_fn(body, args, st.copy(), c)

    def recursive(self, st, fr, body, args):
        st = st.copy()
        vals = [self.load(st, a) for a in args]
        self.event(st, fr, 'recurse', body.key, *vals)
        return self.opaque_call(st, fr, 'rec:' + body.key, args)

    def opaque_call(self, st, fr, name, args, pure=None):
        vals = [self.load(st, a) for a in args]
        muts = [a for a in args if a.op == 'mref']
        s = st.copy()
        eff = getattr(self.listener, 'effects', False)
        for i, a in enumerate(muts):
            self.store(s, a, mk('eff', name, i, *vals) if eff else self.fresh('havoc%d' % i))
        if (muts or pure is False) and not eff:
            r = mk('app', name, self.fresh('r'), *vals)
        else:
            r = mk('app', name, *vals)
        if self.listener:
            self.listener.on_opaque(self, s, fr, name, vals, r)
        return [(r, s)]

    def model_body(self, name):
        b = self.model_by_name.get(name)
        return self.fn(b['key'], self.models) if b else None

    def call(self, st, fr, f, args, bb):
        if f.op != 'fn':
            return self.call_value(st, fr, f, args)
        info = self.fninfo[f.args[0]]
        path = info['path']
        n = norm(path)
        trait = info.get('trait')
        if self.listener:
            r = self.listener.intercept(self, st, fr, info, n, args, bb)
            if r is not None:
                return r
        if trait and trait.startswith('std::ops::Fn') and n.split('::')[-1] in ('call', 'call_mut', 'call_once'):
            tup = args[1]
            targs = list(tup.args) if tup.op == 'tup' else [self.field(st, tup, i) for i in range(1)]
            return self.call_value(st, fr, args[0], targs, bb)
        # local bodies
        res = info.get('res')
        h = self.std.get(n)
        if h is not None and (not info.get('reslocal') or fr.fn.dump is self.models or n in self.std_force(info)):
            r = h(self, st, fr, info, args, bb)
            if r is not None:
                return r
        if info.get('reslocal') and res in fr.fn.dump.bodies:
            body = self.fn(res, fr.fn.dump)
            if res not in self.opaque and path not in self.opaque:
                return self.inline(st, fr, body, args, bb)
        ctor = self.ctor(path, n)
        if ctor is not None:
            v = mk('adt', ctor[0], ctor[1], *args)
            if self.listener:
                self.listener.on_adt(self, st, fr, v)
            return [(v, st)]
        m = self.model_body(n.replace('::', '_')) or (self.model_body('Iterator_' + n.split('::')[1]) if n.startswith('Iterator::') else None)
        if m is not None and fr.fn.dump is not None:
            return self.inline(st, fr, m, args, bb)
        if fr.fn.dump is self.models and info.get('local') in self.models.bodies:
            return self.inline(st, fr, self.fn(info['local'], self.models), args, bb)
        if n not in self.unknown_calls:
            self.unknown_calls[n] = self.cur_span
        return self.opaque_call(st, fr, n, args)

    def ctor(self, path, n):
        last = n.split('::')[-1]
        if last in ('Ok', 'Err'):
            return RESULT, last
        if last == 'Some':
            return OPTION, last
        if not last[:1].isupper():
            return None
        for d in (self.dump, self.models):
            if d is None:
                continue
            base = strip_generics(path)
            if base in d.adts and d.adts[base]['kind'] == 'struct':
                return base, d.adts[base]['variants'][0]['n']
            par = base.rsplit('::', 1)[0]
            if par in d.adts and any(v['n'] == last for v in d.adts[par]['variants']):
                return par, last
        return None

    def std_force(self, info):
        # conversions on the crate's own array type are treated as identities, like those of [u8; N]
        return ARRAY_ID if (info.get('self') is not None) else ()


ARRAY_ID = {'AsRef::as_ref', 'Deref::deref', 'DerefMut::deref_mut', 'AsMut::as_mut', 'Clone::clone', 'Into::into', 'From::from', 'PartialEq::eq', 'PartialEq::ne',
            'PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge', 'Ord::cmp', 'PartialOrd::partial_cmp', 'Index::index', 'IndexMut::index_mut', 'Default::default', 'Borrow::borrow'}


_bfd = {}


def loclike(t):
    return isinstance(t, T) and (t.op in ('bf', 'adt', 'tup', 'nodeval', 'rec') or t.op == 'sym' and isinstance(t.args[0], tuple) and t.args[0][0] == 'arg')


def bfdepth(t):
    r = _bfd.get(t)
    if r is None:
        r = max([bfdepth(a) for a in t.args if isinstance(a, T)] + [0]) + (1 if t.op in ('bf', 'app', 'fld') else 0)
        _bfd[t] = r
    return r


def static_sorted(x):
    o = x.op
    if o == 'sorted':
        return True
    if o == 'sub':
        return static_sorted(x.args[0])
    if o == 'seq':
        return len(x.args) <= 2
    if o == 'coll':
        return 'sorted' in x.args[2]
    if o == 'sym' or o == 'phi':
        return 'sorted' in x.args[2]
    if o == 'bv':
        return 'sorted' in x.args[1]
    return False


def static_attrs(x):
    a = x.args[1] if x.op == 'bv' else x.args[2] if x.op in ('sym', 'phi') else EMPTY
    return a | {'sorted'} if static_sorted(x) else a


def subsumes(p, t, m):
    """Does template p cover t?  (bound variables of p match anything at least as well known)"""
    if p.op == 'bv':
        if p in m:
            return m[p] is t
        if p.args[1] and not p.args[1] <= static_attrs(t):
            return False
        m[p] = t
        return True
    if p is t:
        return not has_bv(p) or p.op not in ('bv', 'bvidx') or m.setdefault(p, t) is t
    if p.op != t.op or len(p.args) != len(t.args) or p.op == 'coll':
        return False
    for a, b in zip(p.args, t.args):
        if isinstance(a, T) and isinstance(b, T):
            if not subsumes(a, b, m):
                return False
        elif a != b:
            return False
    return True


def unify_ints(a, b, m):
    """One template for two shapes that differ only in counters; None if they differ otherwise."""
    if a is b:
        return a
    if a.op == 'int' and b.op == 'int':
        if {a.args[0], b.args[0]} <= {0, 1}:
            return None
        return m.setdefault((a, b), mk('bv', 90 + len(m), EMPTY))
    if a.op == 'lin' or b.op == 'lin' or a.op != b.op or len(a.args) != len(b.args) or a.op in ('coll', 'bv', 'bytes'):
        return None
    out = []
    for x, y in zip(a.args, b.args):
        if isinstance(x, T) and isinstance(y, T):
            z = unify_ints(x, y, m)
            if z is None:
                return None
            out.append(z)
        elif x == y:
            out.append(x)
        else:
            return None
    return mk(a.op, *out)


def reduce_elems(els):
    els = list(els)
    again = len(els) > 1
    while again:
        again = False
        for i in range(len(els)):
            for j in range(i):
                u = unify_ints(els[i], els[j], {})
                if u is not None:
                    els = [e for k, e in enumerate(els) if k not in (i, j)]
                    if u not in els:
                        els.append(u)
                    again = True
                    break
            if again:
                break
    els = sorted(els, key=lambda t: t.id)
    if len(els) < 2:
        return tuple(els)
    out = []
    for i, e in enumerate(els):
        cov = False
        for j, p in enumerate(els):
            if i != j and has_bv(p) and subsumes(p, e, {}) and not (subsumes(e, p, {}) and i < j):
                cov = True
                break
        if not cov:
            out.append(e)
    if len(out) > 8:
        return (mk('bv', 0, EMPTY),)
    return tuple(out)


_bv_cache = {}


def has_bv(t):
    r = _bv_cache.get(t)
    if r is None:
        r = t.op in ('bv', 'bvidx') or any(_bv_in(a) for a in t.args)
        _bv_cache[t] = r
    return r


def _bv_in(a):
    if isinstance(a, T):
        return has_bv(a)
    if isinstance(a, tuple):
        return any(_bv_in(x) for x in a)
    return False


def is_idx(x):
    n = x.args[0]
    while isinstance(n, tuple) and n and n[0] == 'old':
        n = n[2]
    return isinstance(n, tuple) and n and n[0] in ('idx', 'rix')


_oi_cache = {}


def has_oldidx(t):
    r = _oi_cache.get(t)
    if r is None:
        if t.op == 'sym':
            r = isinstance(t.args[0], tuple) and t.args[0] and t.args[0][0] == 'old'
        else:
            r = any(_oi_in(a) for a in t.args)
        _oi_cache[t] = r
    return r


def _oi_in(a):
    if isinstance(a, T):
        return has_oldidx(a)
    if isinstance(a, tuple):
        return any(_oi_in(x) for x in a)
    return False


class PhiName:
    __slots__ = ('lid', 'key', 'path', 'h')

    def __init__(self, lid, key, path):
        self.lid, self.key, self.path = lid, key, path
        self.h = hash((lid, key, path))

    def __eq__(self, o):
        return isinstance(o, PhiName) and self.h == o.h and self.lid == o.lid and self.path == o.path and self.key == o.key

    def __hash__(self):
        return self.h

    def __repr__(self):
        return 'phi<%s@%s>' % ('.'.join(str(x if not isinstance(x, tuple) else x[-1]) for x in self.path), self.lid[2])


class Frame:
    __slots__ = ('fn', 'ctx')

    def __init__(self, fn, ctx):
        self.fn, self.ctx = fn, ctx


def lit_iters(v, depth=3):
    if v.op == 'iter':
        if v.args[0] == 'src' and len(v.args) == 2 and v.args[1].op == 'seq' and 3 <= len(v.args[1].args) <= 7 and v.args[1].args[0] not in ('hmap', 'hset'):
            return [v]
        if v.args[0] == 'src' and len(v.args) == 3:
            return [v]
        return []
    if v.op in ('adt', 'tup') and depth:
        return [y for x in v.args if isinstance(x, T) for y in lit_iters(x, depth - 1)]
    return []


class Event:
    __slots__ = ('kind', 'data', 'span', 'fn', 'site', 'stack', 'loops', 'facts', 'log', 'ghost', 'extra')

    def __init__(self, kind, data, span, fn, site, stack, loops):
        self.kind, self.data, self.span, self.fn, self.site, self.stack, self.loops = kind, data, span, fn, site, stack, loops
        self.extra = None

    def __repr__(self):
        return '%s(%s) at %s in %s' % (self.kind, ', '.join(map(show, self.data)), self.span, short(self.fn))


def short(key):
    return key.split('::')[-1] if '{closure' not in key else '::'.join(key.split('::')[-2:])


BOOLOPS = {'eq', 'eq0', 'le0', 'not', 'and', 'or', 'isvar', 'boolapp'}
NUMOPS = {'int', 'lin', 'len', 'refs', 'satsub', 'arith', 'bool2int'}


def mknot(t):
    if t.op == 'int':
        return I(1 - t.args[0]) if t.args[0] in (0, 1) else mk('arith', 'Not', t)
    if t.op == 'not':
        return t.args[0]
    return mk('not', t)


def mkeq(a, b):
    if a is b:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    if a.op in ('str', 'bytes') and b.op == a.op:
        return FALSE
    return mk('eq', a, b)


def _norm_satsub(l):
    """k - satsub(x,c) <= 0 etc. in terms of x."""
    c, d = lin_parts(l)
    if len(d) == 1:
        (k, v), = d.items()
        if k.op == 'satsub' and abs(v) == 1:
            return k.args[0], k.args[1], v, c
    return None


def mkle0(l):
    if l.op == 'int':
        return TRUE if l.args[0] <= 0 else FALSE
    s = _norm_satsub(l)
    if s:
        x, y, v, c = s
        if v == 1:      # satsub <= -c
            if -c < 0:
                return FALSE
            return mkle0(add(add(x, y, -1), I(c)))
        # satsub >= c
        if c <= 0:
            return TRUE
        return mkle0(add(add(y, x, -1), I(c)))
    return mk('le0', l)


def mkeq0(l):
    if l.op == 'int':
        return TRUE if l.args[0] == 0 else FALSE
    s = _norm_satsub(l)
    if s:
        x, y, v, c = s
        k = -c if v == 1 else c
        if k < 0:
            return FALSE
        if k == 0:
            return mkle0(add(x, y, -1))
        return mkeq0(add(add(x, y, -1), I(k), -1))
    c, d = lin_parts(l)
    first = sorted(d.items(), key=lambda kv: kv[0].id)[0]
    if first[1] < 0:
        l = scale(l, -1)
        c, d = lin_parts(l)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if k.op in BOOLOPS:
            return mknot(k)
        if v != 1:
            l = k
    return mk('eq0', l)


_old_cache = {}


def t_has_old(t, lid):
    k = (t, lid)
    r = _old_cache.get(k)
    if r is None:
        if t.op == 'sym':
            n = t.args[0]
            r = isinstance(n, tuple) and len(n) == 3 and n[0] == 'old' and n[1] == lid
        else:
            r = any(_old_in(a, lid) for a in t.args)
        _old_cache[k] = r
    return r


def _old_in(a, lid):
    if isinstance(a, T):
        return t_has_old(a, lid)
    if isinstance(a, tuple):
        return any(_old_in(x, lid) for x in a)
    return False


_lost_cache = {}


def has_lost(t):
    r = _lost_cache.get(t)
    if r is None:
        r = t.op == 'lost' or any(_lost_in(a) for a in t.args)
        _lost_cache[t] = r
    return r


def _lost_in(a):
    if isinstance(a, T):
        return has_lost(a)
    if isinstance(a, tuple):
        return any(_lost_in(x) for x in a)
    return False


def _map_in_ghost(v, go):
    if isinstance(v, T):
        return go(v)
    if isinstance(v, tuple):
        return tuple(_map_in_ghost(x, go) for x in v)
    if isinstance(v, frozenset):
        return frozenset(_map_in_ghost(x, go) for x in v)
    return v


RECORD = {'Branch': ('count', 'zero', 'one', 'split_index', 'key'), 'Leaf': ('key', 'data'), 'Data': ('value',)}


def stored_record(kind, loc):
    if kind not in RECORD:
        return mk('fld', mk('nvar', loc), 0, kind)
    return mk('rec', kind, *[mk('bf', kind, f, loc) for f in RECORD[kind]])


class Listener:
    """Default: no rules."""
    keep_errs = False

    def on_event(self, it, st, fr, e): pass
    def on_adt(self, it, st, fr, v): pass
    def on_assert(self, it, st, fr, t, c): pass
    def on_branch(self, it, st, fr, t, val): pass
    def on_need(self, it, st, fr, small, large, what): pass
    def on_panic(self, it, st, fr, name): pass
    keeps_why = False
    def on_raise(self, it, st, fr, v): pass
    def on_opaque(self, it, st, fr, name, vals, r): pass
    def cross(self, it, st, lid, fr, h): pass
    def intercept(self, it, st, fr, info, n, args, bb): return None
    def attrs(self, it, st, x): return EMPTY
    def push_flags(self, it, st, v, x): return EMPTY
    def on_next(self, it, st, fr, itr, ix, e): pass
    def on_step(self, it, st, fr, cell, itr): pass
    def on_end(self, it, st, fr, itr): pass
    def on_push(self, it, st, fr, v, x, where): pass
    def on_pop(self, it, st, fr, v, x, where, r=None): pass
    def on_shrink(self, it, st, fr, name, v): pass
    def on_drop(self, it, st, fr, name, r, v, n): pass
    def on_index(self, it, st, fr, v, ix): pass
    def on_sort(self, it, st, fr, v, name, natural): pass
    def sort_order(self, it, st, fr, v, f, name): return None
    def on_permute(self, it, st, fr, v, name): pass
    def on_bsearch(self, it, st, fr, v, k): pass
    def on_partition(self, it, st, fr, v, f): pass
    def on_copy(self, it, st, fr, ref, x): pass
    def on_map_insert(self, it, st, fr, v, k, x): pass
    def on_zip(self, it, st, fr, a, b): pass
    def on_put(self, it, st, fr, kind, k, x): pass
    def enter(self, it, st, lid, fr, h): pass
    def leave(self, it, st, lid, fr, h, tgt): pass
