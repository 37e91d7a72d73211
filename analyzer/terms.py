"""Hash-consed value terms of the abstract domain."""

EMPTY = frozenset()


class T:
    __slots__ = ('op', 'args', 'born', 'id', '__weakref__')

    def __repr__(self):
        return show(self)


_table = {}


def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_table)
        if op == 'sym':
            t.born = args[1]
        else:
            b = EMPTY
            for a in args:
                if isinstance(a, T):
                    if a.born:
                        b = b | a.born if b else a.born
                elif isinstance(a, tuple):
                    bb = _born_tuple(a)
                    if bb:
                        b = b | bb
            t.born = b
        _table[key] = t
    return t


def _born_tuple(a):
    b = EMPTY
    for x in a:
        if isinstance(x, T):
            b = b | x.born
        elif isinstance(x, tuple):
            b = b | _born_tuple(x)
    return b


def I(v):
    return mk('int', v)


UNIT = mk('tup')
TRUE = I(1)
FALSE = I(0)


def sym(name, born=EMPTY, attrs=EMPTY):
    return mk('sym', name, born, attrs)


def adt(path, variant, *fields):
    return mk('adt', path, variant, *fields)


OPTION = 'std::option::Option'
RESULT = 'std::result::Result'
CFLOW = 'std::ops::ControlFlow'


def some(x):
    return adt(OPTION, 'Some', x)


NONE = adt(OPTION, 'None')


def ok(x):
    return adt(RESULT, 'Ok', x)


def err(x):
    return adt(RESULT, 'Err', x)


def _map_in(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_map_in(x, f) for x in a)
    return a


def map_args(t, f):
    """Rebuild t with f applied to each sub-term."""
    na = tuple(_map_in(a, f) for a in t.args)
    if na == t.args:
        return t
    return mk(t.op, *na)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        stack = list(x.args)
        while stack:
            a = stack.pop()
            if isinstance(a, T):
                st.append(a)
            elif isinstance(a, tuple):
                stack.extend(a)
    return seen


_cont_cache = {}


def contains(t, x):
    k = (t, x)
    r = _cont_cache.get(k)
    if r is None:
        r = x in subterms(t)
        _cont_cache[k] = r
    return r


# ---- linear integer terms -------------------------------------------------------------
def lin_parts(t):
    if t.op == 'int':
        return t.args[0], {}
    if t.op == 'lin':
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    items = tuple(sorted(d.items(), key=lambda kv: kv[0].id))
    return mk('lin', c, items)


def add(a, b, sb=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sb * v
    return mk_lin(ca + sb * cb, d)


def scale(a, k):
    c, d = lin_parts(a)
    return mk_lin(c * k, {x: v * k for x, v in d.items()})


def show(t, depth=7):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return '…'
    s = lambda x: show(x, depth - 1) if isinstance(x, T) else ('(%s)' % ', '.join(s(y) for y in x) if isinstance(x, tuple) else (','.join(sorted(map(str, x))) if isinstance(x, frozenset) else str(x)))
    o, a = t.op, t.args
    if o == 'int':
        return str(a[0])
    if o == 'str':
        return repr(a[0])
    if o == 'bytes':
        return 'b%s' % (repr(bytes(a[0]))[1:] if all(0 <= x < 256 for x in a[0]) else a[0])
    if o == 'sym':
        n = a[0]
        n = n if isinstance(n, str) else '.'.join(map(str, n)) if isinstance(n, tuple) else str(n)
        return '%s%s' % (n, ('{%s}' % ','.join(sorted(map(str, a[2]))) if a[2] else ''))
    if o == 'adt':
        return '%s::%s(%s)' % (a[0].split('::')[-1], a[1], ', '.join(map(s, a[2:])))
    if o == 'tup':
        return '(%s)' % ', '.join(map(s, a))
    if o == 'fld':
        return '%s.%s%s' % (s(a[0]), (a[2] + '.') if a[2] else '', a[1])
    if o == 'lin':
        r = ' + '.join(('%d*' % v if v != 1 else '') + s(k) for k, v in a[1])
        return '[%s%s]' % (r, ' + %d' % a[0] if a[0] else '')
    return '%s(%s)' % (o, ', '.join(map(s, a)))


def partial(t):
    """A slice that certainly leaves part of the value out: it starts past the front, ends at a fixed place or at a fraction of the length."""
    if t.op != 'sub' or len(t.args) != 2 or t.args[1].op != 'range' or len(t.args[1].args) != 2:
        return False
    lo, hi = t.args[1].args
    if lo.op == 'int' and lo.args[0] > 0 or hi.op == 'int':
        return True
    if hi.op == 'arith' and str(hi.args[0]).split(':')[0] in ('Div', 'Rem', 'Shr', 'BitAnd', 'Sub'):
        return any(x.op == 'len' or x.op == 'sym' and x.args[0] == 'const N' for x in subterms(hi))
    if hi.op == 'lin':
        c, m = lin_parts(hi)
        return c < 0 and len(m) == 1 and all(k.op in ('len', 'sym') and v == 1 for k, v in m.items())
    return False
