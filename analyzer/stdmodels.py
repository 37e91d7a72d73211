"""Transfer functions for the standard library (collections, iterators, slices, conversions)."""
from terms import *
from absint import reduce_elems, lit_iters, INTW

KINDS = {'Vec': 'vec', 'VecDeque': 'deque', 'HashMap': 'hmap', 'HashSet': 'hset', 'BTreeMap': 'bmap', 'BTreeSet': 'bset', 'BinaryHeap': 'heap', 'String': 'vec', 'LinkedList': 'deque', 'Box': 'vec'}
MAPS = ('hmap', 'bmap')
SETS = ('hset', 'bset')
BVIDX = mk('bvidx')
FULL = mk('rangefull')


def kind_of_ty(ty):
    d = ty.get('d') or ''
    n = d.split('::')[-1]
    return KINDS.get(n)


def seqv(kind, *xs):
    return mk('seq', kind, *xs)


def is_coll(v):
    return v.op in ('seq', 'coll')


# ---- iterators ---------------------------------------------------------------------------
def mkiter(kind, *a):
    return mk('iter', kind, *a)


def as_iter(v):
    if v.op == 'iter':
        return v
    if v.op == 'adt':
        n = v.args[0].split('::')[-1]
        if n == 'Range' and len(v.args) == 4:
            return mkiter('range', v.args[2], v.args[3])
        if n == 'RangeInclusive' and len(v.args) >= 4:
            return mkiter('range', v.args[2], add(v.args[3], I(1)))
        if n == 'RangeFrom' and len(v.args) == 3:
            return mkiter('range', v.args[2], mk('infinity'))
        if n == 'Option':
            return mkiter('src', seqv('vec', *v.args[2:]) if v.args[1] == 'Some' else seqv('vec'))
        return v
    if v.op == 'opt':
        return mkiter('optsrc', v)
    return mkiter('src', v)


def unordered(it, t):
    if t.op == 'iter':
        return any(unordered(it, a) for a in t.args[1:] if isinstance(a, T))
    if is_coll(t):
        k = t.args[0]
        if k in ('hmap', 'hset') and not (t.op == 'seq' and len(t.args) <= 2):
            return True
        return t.op == 'coll' and 'unordered' in t.args[2]
    if t.op == 'adt':
        return any(unordered(it, a) for a in t.args[2:] if isinstance(a, T))
    return False


def iter_elems(it, st, itr, ix):
    """Alternatives for one element of itr at position ix: [(term, state)]."""
    k = itr.args[0]
    if k == 'src':
        return coll_elems(it, st, itr.args[1], ix)
    if k == 'optsrc':
        s = st.copy()
        if it.assume_variant(s, itr.args[1], 'Some', True):
            return [(it.field(s, itr.args[1], 0, 'Some'), s)]
        return []
    if k == 'keys' or k == 'values':
        j = 0 if k == 'keys' else 1
        return [(it.field(s, e, j), s) for e, s in coll_elems(it, st, itr.args[1], ix)]
    if k == 'range':
        lo, hi = itr.args[1], itr.args[2]
        s = st.copy()
        v = ix if ix.op == 'sym' and lo.op != 'bvx' else ix
        if not (lo.op == 'int' and lo.args[0] == 0):
            v = sym(('rix',) + ix.args[0][1:] if ix.op == 'sym' else 'rix', ix.born)
            if not it.assume_bound(s, add(v, lo, -1), 0, None):
                return []
        if hi.op != 'infinity' and not it.assume_bound(s, add(hi, v, -1), 1, None):
            return []
        return [(v, s)]
    if k == 'zip':
        out = []
        for a, s in iter_elems(it, st, itr.args[1], ix):
            for b, s2 in iter_elems(it, s, itr.args[2], ix):
                out.append((mk('tup', a, b), s2))
        return out
    if k == 'enum':
        return [(mk('tup', ix, e), s) for e, s in iter_elems(it, st, itr.args[1], ix)]
    if k == 'rev':
        return iter_elems(it, st, itr.args[1], mk('revix', ix))
    if k == 'skip':
        return iter_elems(it, st, itr.args[1], add(ix, itr.args[2]))
    if k == 'take':
        return iter_elems(it, st, itr.args[1], ix)
    if k == 'step':
        b = itr.args[1]
        if b.args[0] == 'range':
            v = mk('stepix', b.args[1], itr.args[2], ix)
            s = st.copy()
            if not it.assume_bound(s, add(v, b.args[1], -1), 0, None) or not it.assume_bound(s, add(b.args[2], v, -1), 1, None):
                return []
            return [(v, s)]
        return iter_elems(it, st, b, mk('arith', 'Mul', ix, itr.args[2]))
    if k == 'windows':
        return [(mk('window', itr.args[1], ix, itr.args[2]), st)]
    if k == 'chunks':
        return [(mk('chunk', itr.args[1], ix, itr.args[2]), st)]
    if k == 'chain':
        return iter_elems(it, st, itr.args[1], ix) + iter_elems(it, st, itr.args[2], mk('chainix', ix))
    return [(mk('at', itr, ix), st)]


def coll_elems(it, st, v, ix):
    if v.op == 'seq':
        out, seen = [], set()
        for x in v.args[1:]:
            if x not in seen:
                seen.add(x)
                out.append((x, st))
        return out
    if v.op == 'coll':
        xs = set(v.args[3]) | {x for _, x in v.args[4]}
        base = v.args[1]
        par = ix if 'par' in v.args[2] else None
        out = [(it.instantiate(x, 'el%d' % n, par), st) for n, x in enumerate(sorted(xs, key=lambda t: t.id))]
        if 'base' in v.args[2]:
            out.append((mk('at', mk('of', base), ix), st))
        return out
    if v.op == 'bytes' and ix.op != 'int':
        return [(mk('at', v, ix), st)]
    return [(it.index(st, v, ix), st)]


def do_next(it, st, fr, cell, v, info, bb, back=False):
    if v.op == 'adt' and v.args[0] in it.iter_structs:
        m = it.model_body(v.args[0].split('::')[-1] + '_next')
        return it.inline(st, fr, m, [cell], bb, 'next')
    itr = as_iter(v)
    if itr.op != 'iter':
        s1, s2 = st.copy(), st.copy()
        if it.listener:
            it.listener.on_step(it, s1, fr, cell, itr)
        return [(some(it.fresh('item')), s1), (NONE, s2)]
    outs = []
    ix = it.fresh('idx')
    if it.lit and not back and cell.op == 'mref' and lit_iters(itr):
        xs = itr.args[1].args
        s = st.copy()
        if len(xs) == 1:
            if it.listener:
                it.listener.on_end(it, s, fr, mkiter('src', itr.args[2]))
                it.event(s, fr, 'iterend', mkiter('src', itr.args[2]))
            return [(NONE, s)]
        if it.listener:
            it.listener.on_next(it, s, fr, itr, ix, xs[1])
            it.listener.on_step(it, s, fr, cell, itr)
        it.store(s, cell, mkiter('src', seqv(xs[0], *xs[2:]), itr.args[2] if len(itr.args) > 2 else itr.args[1]))
        return [(some(xs[1]), s)]
    if itr.args[0] == 'src' and itr.args[1].op == 'seq' and len(itr.args[1].args) == 1:
        s = st.copy()
        if it.listener:
            it.listener.on_end(it, s, fr, itr)
            it.event(s, fr, 'iterend', itr)
        return [(NONE, s)]
    src, n = (itr.args[1], itr.args[2]) if itr.args[0] == 'skip' else (itr, I(0))
    if not it.active and not back and cell.op == 'mref' and src.op == 'iter' and src.args[0] == 'src' and src.args[1].op in ('sym', 'sub', 'sorted') and n.op == 'int':
        size, at = it.length(src.args[1]), n.args[0]
        s, s2 = st.copy(), st.copy()
        if it.assume_bound(s, size, at + 1, None):
            e = it.index(s, src.args[1], n)
            if it.listener:
                it.listener.on_next(it, s, fr, itr, n, e)
                it.listener.on_step(it, s, fr, cell, itr)
            it.store(s, cell, mkiter('skip', src, I(at + 1)))
            outs.append((some(e), s))
        if it.assume_bound(s2, size, None, at):
            if it.listener:
                it.listener.on_end(it, s2, fr, itr)
                it.event(s2, fr, 'iterend', itr)
            outs.append((NONE, s2))
        return outs
    for e, s in iter_elems(it, st, itr, mk('revix', ix) if back else ix):
        s = s.copy()
        if unordered(it, itr):
            it.event(s, fr, 'uiter', ix)
        if it.listener:
            it.listener.on_next(it, s, fr, itr, ix, e)
            it.listener.on_step(it, s, fr, cell, itr)
        outs.append((some(e), s))
    s = st.copy()
    if it.listener:
        it.listener.on_end(it, s, fr, itr)
        it.event(s, fr, 'iterend', itr)
    outs.append((NONE, s))
    return outs


# ---- table -------------------------------------------------------------------------------
TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def table():
    return TABLE


def L(it, st, a):
    return it.load(st, a)


@reg('AsRef::as_ref', 'Deref::deref', 'Borrow::borrow', 'ToOwned::to_owned', 'slice::as_ref', 'Vec::as_slice', 'array::as_slice', 'slice::to_vec', 'slice::into_vec', 'Option::as_ref', 'Option::as_deref',
     'Option::copied', 'Option::cloned', 'Iterator::copied', 'Iterator::cloned', 'Iterator::by_ref', 'Iterator::peekable', 'Iterator::fuse', 'Result::as_ref', 'Vec::into_boxed_slice', 'String::as_str',
     'String::as_bytes', 'str::as_bytes', 'Box::new', 'Rc::new', 'Arc::new', 'Cow::into_owned', 'ToString::to_string', 'String::from', 'hint::black_box', 'convert::identity', 'Result::copied', 'Result::cloned',
     'str::to_owned', 'Box::into_vec', 'Path::new', 'ManuallyDrop::new', 'array::as_ref')
def ident(it, st, fr, info, args, bb):
    return [(L(it, st, args[0]), st)]


@reg('Clone::clone')
def clone(it, st, fr, info, args, bb):
    v = L(it, st, args[0])
    return [(v, st)]


@reg('Clone::clone_from')
def clone_from(it, st, fr, info, args, bb):
    if args[0].op != 'mref':
        return None
    s = st.copy()
    it.store(s, args[0], L(it, st, args[1]))
    return [(UNIT, s)]


@reg('DerefMut::deref_mut', 'AsMut::as_mut', 'BorrowMut::borrow_mut', 'Vec::as_mut_slice', 'array::as_mut_slice', 'pin::as_mut', 'array::as_mut', 'Option::as_deref_mut')
def identmut(it, st, fr, info, args, bb):
    return [(args[0], st)]


@reg('Option::as_mut')
def opt_as_mut(it, st, fr, info, args, bb):
    a = args[0]
    v = L(it, st, a)
    if a.op != 'mref':
        return [(v, st)]
    out = []
    s = st.copy()
    if it.assume_variant(s, v, 'Some', True):
        out.append((some(mk('mref', a.args[0], a.args[1] + (('f', 0, 'Some'),))), s))
    s = st.copy()
    if it.assume_variant(s, v, 'None', True):
        out.append((NONE, s))
    return out


@reg('Into::into', 'From::from')
def conv(it, st, fr, info, args, bb):
    v = L(it, st, args[0])
    from absint import BOOLOPS
    if v.op in BOOLOPS:
        return [(it.number_of(st, v), st)]
    ty = it.dest_ty
    k = kind_of_ty(ty) if ty.get('k') == 'adt' else None
    if k in ('hmap', 'hset', 'bmap', 'bset') and v.op == 'seq':
        return [(seqv(k, *v.args[1:]), st)]
    if ty.get('k') == 'adt' and (ty.get('d') or '').endswith('Exception'):
        return [(mk('conv', v), st)]
    return [(v, st)]


@reg('TryFrom::try_from', 'TryInto::try_into')
def tryfrom(it, st, fr, info, args, bb):
    v = L(it, st, args[0])
    to = it.dest_ty.get('a') or ()
    to = fr.fn.dump.types[to[0]]['s'] if to else ''
    w, wide = INTW.get(to), INTW.get(it.from_ty)
    if not w or not wide or w >= wide:
        return [(ok(v), st)]
    top = (1 << (w - (to[0] == 'i'))) - 1
    out = []
    s = st.copy()
    if it.assume_bound(s, v, None, top):
        out.append((ok(v), s))
    s = st.copy()
    if it.assume_bound(s, v, top + 1, None):
        out.append((err(mk('adt', 'TryFromIntError', 'TryFromIntError')), s))
    return out


@reg('Try::branch')
def try_branch(it, st, fr, info, args, bb):
    v = L(it, st, args[0])
    out = []
    isopt = v.op == 'opt' or (v.op == 'adt' and v.args[0] == OPTION)
    ga = None
    if not isopt and v.op != 'adt' and v.op != 'res':
        t = fr.fn.dump.types[info['self']] if isinstance(info.get('self'), int) else {}
        isopt = (t.get('d') or '').endswith('Option')
    good, bad = ('Some', 'None') if isopt else ('Ok', 'Err')
    s = st.copy()
    if it.assume_variant(s, v, good, True):
        out.append((adt(CFLOW, 'Continue', it.field(s, v, 0, good)), s))
    s = st.copy()
    if it.assume_variant(s, v, bad, True):
        out.append((adt(CFLOW, 'Break', NONE if isopt else err(it.field(s, v, 0, bad))), s))
    return out


@reg('FromResidual::from_residual')
def from_residual(it, st, fr, info, args, bb):
    v = L(it, st, args[0])
    return [(v, st)]


@reg('Try::from_output')
def from_output(it, st, fr, info, args, bb):
    d = it.dest_ty.get('d') or ''
    v = L(it, st, args[0])
    return [(some(v) if d.endswith('Option') else ok(v), st)]


@reg('Exception::new')
def exc(it, st, fr, info, args, bb):
    return [(mk('exc', L(it, st, args[0])), st)]


@reg('Default::default', 'p_default')
def default(it, st, fr, info, args, bb):
    ty = it.dest_ty
    k = ty.get('k')
    if k == 'adt':
        kk = kind_of_ty(ty)
        if kk:
            return [(seqv(kk), st)]
        if (ty.get('d') or '').endswith('Option'):
            return [(NONE, st)]
    if k in ('uint', 'int', 'bool') or ty.get('s') in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'bool'):
        return [(I(0), st)]
    if info.get('reslocal') and not (ty.get('d') or '').endswith('Array') and not info['path'].endswith('p_default'):
        return None
    return [(mk('app', 'default', mk('str', ty.get('s', '?'))), st)]


@reg('Option::unwrap_or_default', 'Result::unwrap_or_default')
def unwrap_or_default(it, st, fr, info, args, bb):
    from absint import norm
    x = default(it, st, fr, {'path': 'p_default'}, [], bb)[0][0]
    return it.inline(st, fr, it.model_body(norm(info['path']).split('::')[0] + '_unwrap_or'), [args[0], x], bb, 'unwrapdef')


# ---- constructors ------------------------------------------------------------------------
@reg('Vec::new', 'Vec::with_capacity', 'VecDeque::new', 'VecDeque::with_capacity', 'HashMap::new', 'HashMap::with_capacity', 'HashSet::new', 'HashSet::with_capacity', 'BTreeMap::new', 'BTreeSet::new',
     'HashMap::with_hasher', 'HashMap::with_capacity_and_hasher', 'HashSet::with_hasher', 'HashSet::with_capacity_and_hasher', 'String::new', 'String::with_capacity', 'BinaryHeap::new')
def newcoll(it, st, fr, info, args, bb):
    from absint import norm
    k = KINDS[norm(info['path']).split('::')[0]]
    return [(seqv(k), st)]


@reg('p_new')
def p_new(it, st, fr, info, args, bb):
    return [(seqv(it.kindstack[-1] if it.kindstack else 'vec'), st)]


@reg('Box::new_uninit')
def new_uninit(it, st, fr, info, args, bb):
    # the buffer of a vec![..]: written through a raw pointer
    s = st.copy()
    b = it.fresh('boxbuf')
    s.mem[('B', b)] = b
    return [(mk('mref', ('B', b), ()), s)]


@reg('boxed::box_assume_init_into_vec_unsafe')
def assume_init_vec(it, st, fr, info, args, bb):
    v = L(it, st, args[0])
    while v.op == 'upd' and v.args[1]:
        v = v.args[1][-1][1]
    st = st.copy()
    if args[0].op == 'mref' and args[0].args[0][0] == 'B':
        st.mem.pop(args[0].args[0], None)
    return [(v, st)]


@reg('vec::from_elem')
def from_elem(it, st, fr, info, args, bb):
    return [(mk('app', 'repeat', L(it, st, args[0])), st)]


# ---- Vec / VecDeque ----------------------------------------------------------------------
def mutate(it, st, ref, nv):
    it.store(st, ref, nv)


@reg('Vec::push', 'VecDeque::push_back', 'p_push', 'String::push', 'BinaryHeap::push')
def push(it, st, fr, info, args, bb):
    r, x = args
    v = L(it, st, r)
    x = L(it, st, x)
    st = st.copy()
    if is_coll(v) and v.args[0] in SETS:
        mutate(it, st, r, it.push(st, v, x))
        return [(UNIT, st)]
    nv = it.push(st, v, x)
    if it.listener:
        it.listener.on_push(it, st, fr, v, x, 'back')
    mutate(it, st, r, nv)
    return [(UNIT, st)]


@reg('VecDeque::push_front')
def push_front(it, st, fr, info, args, bb):
    r, x = args
    v = L(it, st, r)
    x = L(it, st, x)
    st = st.copy()
    if it.listener:
        it.listener.on_push(it, st, fr, v, x, 'front')
    mutate(it, st, r, it.push(st, v, x, True))
    return [(UNIT, st)]


@reg('Vec::insert', 'VecDeque::insert')
def vec_insert(it, st, fr, info, args, bb):
    r, i, x = args
    v = L(it, st, r)
    x = L(it, st, x)
    st = st.copy()
    if it.listener:
        it.listener.on_need(it, st, fr, i, it.length(v), 'insert at %s' % show(i, 3))
        it.listener.on_push(it, st, fr, v, x, 'front' if i.op == 'int' and i.args[0] == 0 else 'at')
    mutate(it, st, r, it.push(st, v, x, True))
    return [(UNIT, st)]


def pop_common(it, st, fr, r, which):
    v = L(it, st, r)
    if v.op == 'seq':
        if len(v.args) == 1:
            return [(NONE, st)]
        s = st.copy()
        if which == 'front':
            x, rest = v.args[1], v.args[2:]
        else:
            x, rest = v.args[-1], v.args[1:-1]
        mutate(it, s, r, seqv(v.args[0], *rest))
        if it.listener:
            it.listener.on_pop(it, s, fr, v, x, which, r)
        return [(some(x), s)]
    if v.op == 'coll':
        outs = []
        for x, s in coll_elems(it, st, v, it.fresh('pix')):
            s = s.copy()
            if not it.assume_bound(s, it.length(v), 1, None):
                continue
            blo, bhi = it.bounds(s, it.length(v))
            if bhi == 1:
                nv = seqv(v.args[0])
            else:
                nv = mk('coll', v.args[0], it.fresh('pop'), frozenset(f for f in v.args[2] if f != 'par'), v.args[3], ())
                if bhi is not None or (blo or 0) > 1:
                    it.assume_bound(s, it.length(nv), (blo or 1) - 1, None if bhi is None else bhi - 1)
            mutate(it, s, r, nv)
            if it.listener:
                it.listener.on_pop(it, s, fr, v, x, which, r)
            outs.append((some(x), s))
        s = st.copy()
        if it.assume_bound(s, it.length(v), None, 0):
            outs.append((NONE, s))
        return outs
    s1, s2 = st.copy(), st.copy()
    x = mk('at', v, it.fresh('pix'))
    mutate(it, s1, r, mk('coll', 'vec', it.fresh('pop'), frozenset({'base'}), (), ()))
    return [(some(x), s1), (NONE, s2)]


@reg('VecDeque::pop_front')
def pop_front(it, st, fr, info, args, bb):
    return pop_common(it, st, fr, args[0], 'front')


@reg('VecDeque::pop_back', 'Vec::pop', 'BinaryHeap::pop')
def pop_back(it, st, fr, info, args, bb):
    return pop_common(it, st, fr, args[0], 'back')


@reg('Vec::remove', 'Vec::swap_remove')
def vec_remove(it, st, fr, info, args, bb):
    r, i = args
    v = L(it, st, r)
    if it.listener:
        it.listener.on_need(it, st, fr, add(i, I(1)), it.length(v), 'removal at %s' % show(i, 3))
    if v.op == 'seq' and i.op == 'int' and i.args[0] < len(v.args) - 1:
        s = st.copy()
        xs = list(v.args[1:])
        x = xs.pop(i.args[0])
        mutate(it, s, r, seqv(v.args[0], *xs))
        return [(x, s)]
    outs = []
    for x, s in coll_elems(it, st, v, i):
        s = s.copy()
        if v.op == 'coll':
            mutate(it, s, r, mk('coll', v.args[0], it.fresh('rm'), v.args[2], v.args[3], ()))
        else:
            mutate(it, s, r, mk('coll', 'vec', it.fresh('rm'), frozenset({'base'}), (), ()))
        outs.append((x, s))
    return outs or [(it.fresh('removed'), st)]


@reg('VecDeque::remove')
def deque_remove(it, st, fr, info, args, bb):
    return pop_common(it, st, fr, args[0], 'mid')


@reg('Vec::append', 'VecDeque::append')
def append(it, st, fr, info, args, bb):
    a, b = args
    va, vb = L(it, st, a), L(it, st, b)
    s = st.copy()
    mutate(it, s, a, concat(it, s, va, vb, fr))
    mutate(it, s, b, seqv('vec'))
    return [(UNIT, s)]


@reg('Vec::extend_from_slice')
def extend_slice(it, st, fr, info, args, bb):
    va, vb = L(it, st, args[0]), L(it, st, args[1])
    s = st.copy()
    mutate(it, s, args[0], concat(it, s, va, vb, fr))
    return [(UNIT, s)]


def concat(it, st, a, b, fr=None):
    if b.op == 'seq':
        for x in b.args[1:]:
            if it.listener and fr is not None:
                it.listener.on_push(it, st, fr, a, x, 'back')
            a = it.push(st, a, x)
        return a
    if a.op == 'seq' and len(a.args) == 1:
        return b
    a = it.to_coll(st, a) if is_coll(a) else mk('coll', 'vec', mk('of', a), frozenset({'base'}), (), ())
    els, fl = set(a.args[3]), set(a.args[2]) - {'sorted', 'par'}
    if b.op == 'coll':
        els |= set(b.args[3]) | {it.generalise(st, x) for _, x in b.args[4]}
        fl |= set(b.args[2]) & {'unordered', 'base', 'filtered'}
    else:
        els.add(it.generalise(st, mk('at', b, it.fresh('cat'))))
    return mk('coll', a.args[0], it.fresh('cat'), frozenset(fl), reduce_elems(els), ())


@reg('Vec::clear', 'VecDeque::clear', 'HashMap::clear', 'HashSet::clear', 'String::clear')
def clear(it, st, fr, info, args, bb):
    v = L(it, st, args[0])
    s = st.copy()
    if it.listener:
        it.listener.on_drop(it, s, fr, 'clear', args[0], v, None)
    mutate(it, s, args[0], seqv(v.args[0] if is_coll(v) else 'vec'))
    return [(UNIT, s)]


@reg('Vec::drain', 'VecDeque::drain', 'HashMap::drain', 'HashSet::drain')
def drain(it, st, fr, info, args, bb):
    v = L(it, st, args[0])
    s = st.copy()
    if len(args) == 1 or L(it, st, args[1]).op == 'rangefull' or 'RangeFull' in show(L(it, st, args[1])):
        mutate(it, s, args[0], seqv(v.args[0] if is_coll(v) else 'vec'))
        return [(mkiter('src', v), s)]
    if it.listener:
        it.listener.on_drop(it, s, fr, 'drain', args[0], v, None)
    if is_coll(v):
        v2 = it.to_coll(s, v)
        mutate(it, s, args[0], mk('coll', v2.args[0], it.fresh('drain'), v2.args[2], v2.args[3], ()))
    return [(mkiter('src', v), s)]


@reg('Vec::truncate', 'Vec::retain', 'VecDeque::retain', 'Vec::dedup', 'VecDeque::truncate', 'Vec::resize', 'Vec::dedup_by_key', 'Vec::dedup_by', 'HashMap::retain', 'Vec::split_off', 'VecDeque::split_off')
def shrink(it, st, fr, info, args, bb):
    from absint import norm
    v = L(it, st, args[0])
    s = st.copy()
    if is_coll(v):
        v2 = it.to_coll(s, v)
        mutate(it, s, args[0], mk('coll', v2.args[0], it.fresh('shrink'), v2.args[2] | ({'filtered'} if norm(info['path']) not in ('Vec::dedup', 'Vec::resize') else set()), v2.args[3], ()))
    else:
        mutate(it, s, args[0], mk('app', 'filtered', v, it.fresh('shrink')))
    if it.listener:
        it.listener.on_shrink(it, s, fr, norm(info['path']), v)
        it.listener.on_drop(it, s, fr, norm(info['path']).split('::')[1], args[0], v, L(it, st, args[1]) if len(args) > 1 else None)
    if 'split_off' in info['path']:
        return [(mk('app', 'filtered', v, it.fresh('splitoff')), s)]
    return [(UNIT, s)]


@reg('Vec::reserve', 'VecDeque::reserve', 'Vec::shrink_to_fit', 'HashMap::reserve', 'HashMap::shrink_to_fit', 'mem::drop', 'VecDeque::make_contiguous', 'HashSet::reserve', 'mem::forget')
def noop(it, st, fr, info, args, bb):
    if 'make_contiguous' in info['path']:
        return [(args[0], st)]
    return [(UNIT, st)]


@reg('Vec::len', 'VecDeque::len', 'slice::len', 'HashMap::len', 'HashSet::len', 'str::len', 'String::len', 'ExactSizeIterator::len', 'array::len', 'BTreeMap::len', 'BTreeSet::len')
def length(it, st, fr, info, args, bb):
    v = L(it, st, args[0])
    if v.op == 'iter':
        return [(mk('len', v), st)]
    return [(it.length(v), st)]


@reg('Vec::is_empty', 'VecDeque::is_empty', 'slice::is_empty', 'HashMap::is_empty', 'HashSet::is_empty', 'str::is_empty', 'String::is_empty', 'BTreeMap::is_empty', 'BTreeSet::is_empty')
def is_empty(it, st, fr, info, args, bb):
    from absint import mkeq0
    v = L(it, st, args[0])
    return [(mkeq0(it.length(v)), st)]


@reg('Vec::capacity')
def cap(it, st, fr, info, args, bb):
    return [(it.fresh('cap'), st)]


# ---- slices ------------------------------------------------------------------------------
def part_ref(it, st, r0, r):
    """A mutable reference to the range r of what r0 refers to."""
    while True:
        v = it.load_loc(st, r0.args[0], r0.args[1])
        if v.op != 'mref':
            break
        r0 = v
    if r[0].op == 'int' and r[0].args[0] == 0 and r[1] is None:
        return r0
    path, lo, hi = r0.args[1], r[0], r[1]
    if path and path[-1][0] == 'x' and path[-1][1].op == 'rangeix':
        base, end = path[-1][1].args
        path, lo, hi = path[:-1], add(base, lo), add(base, hi) if hi is not None else end
    return mk('mref', r0.args[0], path + (('x', mk('rangeix', lo, hi if hi is not None else mk('infinity'))),))


@reg('slice::first', 'VecDeque::front', 'slice::last', 'VecDeque::back', 'slice::get', 'VecDeque::get', 'slice::first_mut', 'slice::last_mut', 'slice::get_mut', 'VecDeque::front_mut', 'VecDeque::back_mut')
def elem_opt(it, st, fr, info, args, bb):
    from absint import norm
    n = norm(info['path']).split('::')[1]
    mut = n.endswith('_mut')
    n = n.replace('_mut', '')
    v = L(it, st, args[0])
    if n in ('first', 'front'):
        ix = I(0)
    elif n in ('last', 'back'):
        ix = add(it.length(v), I(1), -1)
    else:
        ix = L(it, st, args[1])
    r = as_range(ix)
    if r is not None and mut and args[0].op == 'mref':
        end = r[1] if r[1] is not None else r[0]
        outs = []
        for lo, hi, val in ((0, None, some(part_ref(it, st, args[0], r))), (None, -1, NONE)):
            s2 = st.copy()
            if it.assume_bound(s2, add(it.length(v), end, -1), lo, hi):
                outs.append((val, s2))
        return outs
    if r is not None:
        return [(mk('opt', mk('key', 'getrange', v, ix), sub_range(it, v, r)), st)]
    if mut and args[0].op == 'mref':
        s2 = st.copy()
        return [(some(mk('mref', args[0].args[0], args[0].args[1] + (('x', ix),))), st), (NONE, s2)]
    if v.op == 'seq':
        if len(v.args) == 1:
            return [(NONE, st)]
        if ix.op == 'int':
            if 0 <= ix.args[0] < len(v.args) - 1:
                return [(some(v.args[1 + ix.args[0]]), st)]
            return [(NONE, st)]
    if v.op == 'coll':
        outs = []
        for x, s in coll_elems(it, st, v, ix):
            s = s.copy()
            if it.assume_bound(s, it.length(v), 1, None):
                outs.append((some(x), s))
        s = st.copy()
        if n != 'get':
            if it.assume_bound(s, it.length(v), None, 0):
                outs.append((NONE, s))
        else:
            outs.append((NONE, s))
        return outs
    if n == 'get':
        return [(mk('opt', mk('key', 'get', v, ix), it.index(st, v, ix)), st)]
    outs = []
    s = st.copy()
    if it.assume_bound(s, it.length(v), 1, None):
        outs.append((some(it.index(s, v, ix)), s))
    s = st.copy()
    if it.assume_bound(s, it.length(v), None, 0):
        outs.append((NONE, s))
    return outs


def as_range(t):
    if t.op == 'adt':
        n = t.args[0].split('::')[-1]
        f = t.args[2:]
        if n == 'RangeFull':
            return (I(0), None)
        if n == 'Range' and len(f) == 2:
            return (f[0], f[1])
        if n == 'RangeFrom' and len(f) == 1:
            return (f[0], None)
        if n == 'RangeTo' and len(f) == 1:
            return (I(0), f[0])
        if n == 'RangeToInclusive' and len(f) == 1:
            return (I(0), add(f[0], I(1)))
        if n == 'RangeInclusive':
            return (f[0], add(f[1], I(1)))
    if t.op == 'rangefull' or (t.op == 'sym' and 'RangeFull' in str(t.args[0])):
        return (I(0), None)
    return None


def sub_range(it, v, r):
    lo, hi = r
    if lo.op == 'int' and lo.args[0] == 0 and (hi is None or hi is it.length(v)):
        return v
    if v.op == 'seq' and lo.op == 'int' and (hi is None or hi.op == 'int'):
        a = lo.args[0]
        b = hi.args[0] if hi is not None else len(v.args) - 1
        if 0 <= a <= b <= len(v.args) - 1:
            return seqv(v.args[0], *v.args[1 + a:1 + b])
    hi = hi if hi is not None else it.length(v)
    if v.op == 'sub' and v.args[1].op == 'range' and v.args[0].op == 'sym':
        lo, hi, v = add(lo, v.args[1].args[0]), add(hi, v.args[1].args[0]), v.args[0]
    return mk('sub', v, mk('range', lo, hi))


def needs_range(it, st, fr, v, r):
    if it.listener:
        lo, hi = r
        it.listener.on_need(it, st, fr, lo, it.length(v) if hi is None else hi, 'range from %s' % show(lo, 3))
        if hi is not None:
            it.listener.on_need(it, st, fr, hi, it.length(v), 'range to %s' % show(hi, 3))


def any_index(fr, info, ix):
    """An index whose type is a parameter: a position or any kind of range."""
    ga = info.get('ga') or ()
    return ix.op == 'sym' and len(ga) > 1 and isinstance(ga[1], int) and fr.fn.dump.types[ga[1]].get('k') == 'param'


@reg('Index::index', 'SliceIndex::index')
def index(it, st, fr, info, args, bb):
    v, ix = L(it, st, args[0]), L(it, st, args[1])
    r = as_range(ix)
    if r is not None:
        needs_range(it, st, fr, v, r)
        return [(sub_range(it, v, r), st)]
    if it.listener and ix.op in ('int', 'lin') and not (is_coll(v) and v.args[0] in MAPS):
        it.listener.on_need(it, st, fr, add(ix, I(1)), it.length(v), 'index %s' % show(ix, 3))
    if v.op == 'sub' and any_index(fr, info, ix):
        return [(mk('at', v, ix), st)]
    if is_coll(v) and v.args[0] in MAPS:
        return map_lookup(it, st, v, ix, total=True)
    if v.op == 'coll' and not v.args[4] and (ix.op == 'int' or not all(x.op == 'adt' for x in v.args[3])):
        return coll_elems(it, st, v, ix) or [(mk('at', v, ix), st)]
    if it.listener:
        it.listener.on_index(it, st, fr, v, ix)
    return [(it.index(st, v, ix), st)]


@reg('IndexMut::index_mut')
def index_mut(it, st, fr, info, args, bb):
    r0, ix = args[0], L(it, st, args[1])
    r = as_range(ix)
    if r0.op == 'mref':
        if r is not None:
            return [(part_ref(it, st, r0, r), st)]
        # reach the innermost place
        while True:
            v = it.load_loc(st, r0.args[0], r0.args[1])
            if v.op != 'mref':
                break
            r0 = v
        if r0.args[1] and r0.args[1][-1][0] == 'x' and r0.args[1][-1][1].op == 'rangeix' and not any_index(fr, info, ix):
            return [(mk('mref', r0.args[0], r0.args[1][:-1] + (('x', add(r0.args[1][-1][1].args[0], ix)),)), st)]
        return [(mk('mref', r0.args[0], r0.args[1] + (('x', ix),)), st)]
    return [(it.index(st, L(it, st, r0), ix), st)]


def sort_kind(it, st, fr, f, name):
    """True: ascending natural order, False: another total order, 'lossy': ties between different elements, None: not known."""
    a, b = it.fresh('ska'), it.fresh('skb')
    try:
        if 'by_key' in name or 'cached_key' in name:
            outs = it.call_value(st.copy(), fr, f, [a])
            if len(outs) != 1:
                return None
            r = outs[0][0]
            if r is a:
                return True
            if r.op == 'adt' and r.args[0].endswith('Reverse') and r.args[2:] == (a,):
                return False
            if r.op == 'lin' and list(lin_parts(r)[1]) == [a]:
                return False if abs(lin_parts(r)[1][a]) == 1 else None
            if not contains(r, a) or lossy_in(r, a):
                return 'lossy'
            if r.op == 'fld' and r.args[0] is a:
                return ('field', r.args[1])
            return None
        outs = it.call_value(st.copy(), fr, f, [a, b])
        if len(outs) != 1:
            # the order differs from case to case: it forgets something as soon as one case, whatever its answer, does
            for r, s in outs:
                if r.op == 'app' and r.args[0] in ('cmp', 'Ord::cmp') and len(r.args) == 3 and lossy_in(r.args[1], a) and lossy_in(r.args[2], b) and \
                        not any(contains(k[1] if isinstance(k, tuple) else k, x) for k in s.facts if k not in st.facts for x in (a, b)):
                    return 'lossy'
            return None
        r = outs[0][0]
        if r.op == 'app' and r.args[0] in ('cmp', 'Ord::cmp') and len(r.args) == 3:
            x, y = r.args[1:]
            if (x, y) == (a, b):
                return True
            if (x, y) == (b, a):
                return False
            if x.op == y.op == 'fld' and x.args[1:] == y.args[1:] and x.args[0] is a and y.args[0] is b:
                return ('field', x.args[1])
            if lossy_in(x, a) or lossy_in(x, b):
                return 'lossy'
    except Unsupported:
        pass
    return None


def lossy_in(r, a):
    """Does r see the element only through an operation that forgets some of it?  (A field may be a unique map key, so it does not count.)"""
    if r is a:
        return False
    seen = set()
    def places(x, inside=False):
        if x is a:
            seen.add(inside)
            return
        for y in x.args:
            if isinstance(y, T) and contains(y, a):
                places(y, inside or x.op == 'at' and y is x.args[0] and x.args[1].op == 'int')
    places(r)
    if seen == {True}:
        return True     # only elements at fixed places of it are looked at
    if r.op == 'arith' and r.args[0] in ('Div', 'Rem', 'Shr', 'BitAnd') or r.op in ('trunc', 'len'):
        return any(contains(x, a) for x in r.args if isinstance(x, T))
    if partial(r):
        return contains(r.args[0], a)
    return any(lossy_in(x, a) for x in r.args if isinstance(x, T)) if r.op in ('arith', 'tup', 'sub', 'fld') else False


@reg('slice::sort', 'slice::sort_unstable', 'slice::sort_by_key', 'slice::sort_unstable_by_key', 'slice::sort_by', 'slice::sort_unstable_by', 'slice::sort_by_cached_key')
def sort(it, st, fr, info, args, bb):
    from absint import norm
    r = args[0]
    v = L(it, st, r)
    s = st.copy()
    natural = len(args) == 1
    asc = True
    if not natural:
        asc = sort_kind(it, s, fr, args[1], norm(info['path']))
        if isinstance(asc, tuple):
            # references are ordered by their key
            els = v.args[1:] if v.op == 'seq' else v.args[3] if v.op == 'coll' else ()
            ad = {x.args[0] for x in els if x.op == 'adt'}
            nm = [it.dump.adts[n]['variants'][0]['f'][asc[1]][0] for n in ad if n.split('::')[-1] == 'TreeRef' and n in it.dump.adts]
            asc = None if len(ad) != 1 or len(nm) != 1 else True if nm == ['key'] else False
    if it.listener:
        it.listener.on_sort(it, s, fr, v, norm(info['path']), natural)
    if v.op == 'seq' and len(v.args) <= 2:
        return [(UNIT, s)]
    if is_coll(v):
        c = it.to_coll(s, v)
        fl = c.args[2] - {'unordered', 'sorted', 'par', 'rsorted'}
        if natural or asc is True:
            fl |= {'sorted'}
        elif asc is None:
            fl |= {'sorted?'}
        if asc == 'lossy' and 'unordered' in c.args[2]:
            fl |= {'unordered'}
        nv = mk('coll', c.args[0], it.fresh('sort'), frozenset(fl), c.args[3], ())
    elif natural or asc is True:
        nv = v if v.op == 'sorted' else mk('sorted', v)
    elif asc is None:
        nv = mk('perm', v, mk('str', 'sort?'))
    else:
        nv = mk('perm', v, mk('str', 'sort'))
    mutate(it, s, r, nv)
    return [(UNIT, s)]


@reg('slice::reverse', 'slice::swap', 'slice::rotate_left', 'slice::rotate_right', 'VecDeque::rotate_left')
def permute(it, st, fr, info, args, bb):
    from absint import norm
    n = norm(info['path'])
    r = args[0]
    v = L(it, st, r)
    s = st.copy()
    if it.listener:
        it.listener.on_permute(it, s, fr, v, n)
    if v.op == 'seq':
        if n == 'slice::reverse':
            mutate(it, s, r, seqv(v.args[0], *reversed(v.args[1:])))
            return [(UNIT, s)]
        if n == 'slice::swap':
            i, j = L(it, st, args[1]), L(it, st, args[2])
            if i.op == j.op == 'int' and max(i.args[0], j.args[0]) < len(v.args) - 1:
                xs = list(v.args[1:])
                xs[i.args[0]], xs[j.args[0]] = xs[j.args[0]], xs[i.args[0]]
                mutate(it, s, r, seqv(v.args[0], *xs))
                return [(UNIT, s)]
        v = it.to_coll(s, v)
    if v.op == 'coll':
        fl = v.args[2] - {'sorted', 'par'}
        if 'sorted' in v.args[2] and n == 'slice::reverse':
            fl |= {'rsorted'}
        mutate(it, s, r, mk('coll', v.args[0], it.fresh('perm'), frozenset(fl), v.args[3], v.args[4] and ()))
    else:
        mutate(it, s, r, mk('perm', v, mk('str', n)))
    return [(UNIT, s)]


@reg('slice::binary_search')
def bsearch(it, st, fr, info, args, bb):
    v, k = L(it, st, args[0]), L(it, st, args[1])
    if it.listener:
        it.listener.on_bsearch(it, st, fr, v, k)
    return [(mk('res', 'bsearch', mk('key', v, k), mk('bsix', v, k)), st)]


@reg('slice::binary_search_by', 'slice::binary_search_by_key')
def bsearch_by(it, st, fr, info, args, bb):
    v = L(it, st, args[0])
    return [(mk('res', 'bsearch_by', it.fresh('bsby'), it.fresh('bsbyix')), st)]


@reg('slice::partition_point')
def ppoint(it, st, fr, info, args, bb):
    v = L(it, st, args[0])
    s = st.copy()
    if it.listener:
        it.listener.on_partition(it, s, fr, v, args[1])
    x = it.fresh('pp')
    it.assume_bound(s, add(it.length(v), x, -1), 0, None)
    return [(x, s)]


@reg('slice::split_at', 'slice::split_at_mut')
def split_at(it, st, fr, info, args, bb):
    v, i = L(it, st, args[0]), L(it, st, args[1])
    if it.listener:
        it.listener.on_need(it, st, fr, i, it.length(v), 'split at %s' % show(i, 3))
    if args[0].op == 'mref' and info['path'].endswith('split_at_mut'):
        return [(mk('tup', part_ref(it, st, args[0], (I(0), i)), part_ref(it, st, args[0], (i, None))), st)]
    return [(mk('tup', sub_range(it, v, (I(0), i)), sub_range(it, v, (i, None))), st)]


@reg('RangeInclusive::new')
def range_incl(it, st, fr, info, args, bb):
    return [(adt('std::ops::RangeInclusive', 'RangeInclusive', L(it, st, args[0]), L(it, st, args[1])), st)]


@reg('slice::from_ref')
def from_ref(it, st, fr, info, args, bb):
    return [(seqv('vec', L(it, st, args[0])), st)]


@reg('slice::split_first')
def split_first(it, st, fr, info, args, bb):
    v = L(it, st, args[0])
    outs = []
    s = st.copy()
    if it.assume_bound(s, it.length(v), 1, None):
        outs.append((some(mk('tup', it.index(s, v, I(0)), sub_range(it, v, (I(1), None)))), s))
    s = st.copy()
    if it.assume_bound(s, it.length(v), None, 0):
        outs.append((NONE, s))
    return outs


@reg('slice::contains', 'VecDeque::contains', 'HashSet::contains', 'HashMap::contains_key', 'BTreeMap::contains_key', 'BTreeSet::contains')
def contains_(it, st, fr, info, args, bb):
    v, k = L(it, st, args[0]), L(it, st, args[1])
    if v.op == 'seq':
        if len(v.args) == 1:
            return [(FALSE, st)]
        if len(v.args) == 2:
            x = v.args[1]
            if v.args[0] in MAPS:
                x = it.field(st, x, 0)
            return [(it.eq_term(x, k), st)]
    return [(mk('boolapp', 'contains', v, k), st)]


@reg('slice::copy_from_slice', 'slice::clone_from_slice')
def copy_from(it, st, fr, info, args, bb):
    s = st.copy()
    x = L(it, st, args[1])
    if it.listener:
        it.listener.on_copy(it, s, fr, args[0], x)
    it.store(s, args[0], x)
    return [(UNIT, s)]


@reg('slice::fill')
def fill(it, st, fr, info, args, bb):
    s = st.copy()
    it.store(s, args[0], mk('app', 'repeat', L(it, st, args[1])))
    return [(UNIT, s)]


@reg('slice::starts_with', 'slice::ends_with', 'slice::is_sorted')
def slice_bool(it, st, fr, info, args, bb):
    from absint import norm
    vals = [L(it, st, a) for a in args]
    return [(mk('boolapp', norm(info['path']), *vals), st)]


# ---- maps and sets -----------------------------------------------------------------------
def bind_key(it, tmpl, key):
    """The template pair with its key equal to `key`."""
    return None


def pair_parts(it, st, p):
    return it.field(st, p, 0), it.field(st, p, 1)


def of_key(val, k):
    """The value of an entry depends on nothing but its key (a pairing inside it binds its own place)."""
    if val is k:
        return True
    if val is BVIDX or val.op == 'bv':
        return False
    if val.op == 'corr':
        return of_key(val.args[2], k)
    return all(of_key(a, k) for a in val.args if isinstance(a, T)) and not any(isinstance(a, tuple) and any(isinstance(x, T) and contains(x, BVIDX) for x in a) for a in val.args)


def map_lookup(it, st, v, key, total=False):
    """[(value, state)] of the entries whose key equals `key` (present)."""
    outs = []
    xs = v.args[1:] if v.op == 'seq' else v.args[3]
    later = []
    if v.op == 'seq' and len(v.args) == 1:
        return []
    if v.op == 'coll':
        for k, x in reversed(v.args[4]):
            if k is key:
                return [(x, st)]
            later.append((k, x))
    for x in xs:
        k, val = pair_parts(it, st, x)
        if k is key:
            return [(it.instantiate(val, 'mv', None) if v.op == 'coll' else val, st)]
    for n, x in enumerate(xs):
        k, val = pair_parts(it, st, x)
        if v.op == 'coll':
            if contains(val, BVIDX) or val.op == 'bv' or contains_bv(val):
                if val.op in ('seq', 'coll', 'tup', 'adt'):
                    val = it.instantiate(val, 'mv%d' % n, None)
                elif k.op == 'at' and key.op == 'at' and k.args[1] is BVIDX and k.args[0] is key.args[0] and of_key(val, k):
                    val = it.instantiate(val, 'mv%d' % n, key.args[1])
                else:
                    val = mk('corr', val, k, key)
        else:
            val = mk('corr', val, k, key) if k.born or key.born or k is not key else val
            if len(v.args) == 2 and total:
                pass
        outs.append((val, st.copy()))
    for k, x in later:
        outs.append((x, st.copy()))
    if not outs:
        outs = [(mk('at', v, key), st)]
    return outs


def contains_bv(t):
    return any(x.op == 'bv' for x in subterms(t))


@reg('HashMap::get', 'BTreeMap::get', 'HashMap::get_mut', 'BTreeMap::get_mut')
def map_get(it, st, fr, info, args, bb):
    v, k = L(it, st, args[0]), L(it, st, args[1])
    if info['path'].endswith('get_mut') and args[0].op == 'mref':
        s = st.copy()
        return [(some(mk('mref', args[0].args[0], args[0].args[1] + (('x', k),))), s), (NONE, st.copy())]
    if is_coll(v):
        outs = []
        if v.op == 'seq' and len(v.args) == 1:
            return [(NONE, st)]
        for x, s in map_lookup(it, st, v, k):
            outs.append((mk('opt', mk('key', 'mapget', v.args[1] if v.op == 'coll' else v, k), x), s))
        return outs
    return [(mk('opt', mk('key', 'mapget', v, k), mk('at', v, k)), st)]


@reg('HashMap::insert', 'BTreeMap::insert', 'p_map_insert')
def map_insert(it, st, fr, info, args, bb):
    r = args[0]
    v, k, x = L(it, st, r), L(it, st, args[1]), L(it, st, args[2])
    s = st.copy()
    if it.listener:
        it.listener.on_map_insert(it, s, fr, v, k, x)
        it.listener.on_put(it, s, fr, 'map', k, x)
    if v.op == 'seq' and any(pair_parts(it, s, p)[0] is k for p in v.args[1:]):
        nv = seqv(v.args[0], *[mk('tup', k, x) if pair_parts(it, s, p)[0] is k else p for p in v.args[1:]])
    else:
        nv = it.push(s, v, mk('tup', k, x))
    mutate(it, s, r, nv)
    return [(mk('opt', mk('key', 'oldval', k, it.fresh('mi')), it.fresh('oldv')), s)]


@reg('HashMap::remove', 'BTreeMap::remove', 'HashMap::remove_entry')
def map_remove(it, st, fr, info, args, bb):
    r = args[0]
    v, k = L(it, st, r), L(it, st, args[1])
    if not is_coll(v):
        s = st.copy()
        it.store(s, r, it.fresh('rm'))
        return [(mk('opt', mk('key', 'mapget', v, k), mk('at', v, k)), s)]
    if v.op == 'seq' and len(v.args) == 1:
        return [(NONE, st)]
    outs = []
    for x, s in map_lookup(it, st, v, k):
        s = s.copy()
        c = it.to_coll(s, v)
        mutate(it, s, r, mk('coll', c.args[0], it.fresh('rm'), c.args[2], c.args[3], ()))
        outs.append((some(x), s))
    outs.append((NONE, st.copy()))
    return outs


@reg('HashSet::insert', 'BTreeSet::insert')
def set_insert(it, st, fr, info, args, bb):
    r = args[0]
    v, k = L(it, st, r), L(it, st, args[1])
    s = st.copy()
    if it.listener:
        it.listener.on_put(it, s, fr, 'set', k, None)
    mutate(it, s, r, it.push(s, v, k))
    return [(mk('boolapp', 'newly', v, k), s)]


@reg('HashMap::keys', 'BTreeMap::keys', 'HashMap::into_keys')
def map_keys(it, st, fr, info, args, bb):
    return [(mkiter('keys', L(it, st, args[0])), st)]


@reg('HashMap::values', 'BTreeMap::values', 'HashMap::into_values', 'HashMap::values_mut')
def map_values(it, st, fr, info, args, bb):
    return [(mkiter('values', L(it, st, args[0])), st)]


@reg('HashMap::entry', 'BTreeMap::entry')
def entry(it, st, fr, info, args, bb):
    r = args[0]
    k = L(it, st, args[1])
    v = L(it, st, r)
    e = mk('tup', r, k)
    s1, s2 = st.copy(), st.copy()
    if it.listener:
        it.listener.on_put(it, s1, fr, 'entry', k, None)
        it.listener.on_put(it, s2, fr, 'entry', k, None)
    has = mk('boolapp', 'contains', v, k)
    out = []
    if it.assume(s1, has, False):
        out.append((adt('Entry', 'Vacant', e), s1))
    if not (v.op == 'seq' and len(v.args) == 1) and it.assume(s2, has, True):
        out.append((adt('Entry', 'Occupied', e), s2))
    return out


def entry_ref(e):
    r, k = e.args
    if r.op == 'mref':
        return mk('mref', r.args[0], r.args[1] + (('x', k),))
    return r


@reg('OccupiedEntry::into_mut', 'OccupiedEntry::get_mut', 'OccupiedEntry::get')
def occ_mut(it, st, fr, info, args, bb):
    e = args[0]
    e = it.load(st, e) if e.op == 'mref' else e
    return [(entry_ref(e), st)]


@reg('VacantEntry::insert', 'VacantEntry::insert_entry')
def vac_insert(it, st, fr, info, args, bb):
    e = it.load(st, args[0]) if args[0].op == 'mref' else args[0]
    x = L(it, st, args[1])
    s = st.copy()
    r, k = e.args
    v = L(it, s, r)
    if it.listener:
        it.listener.on_put(it, s, fr, 'map', k, x)
    mutate(it, s, r, it.push(s, v, mk('tup', k, x)))
    return [(entry_ref(e), s)]


@reg('Entry::and_modify')
def and_modify(it, st, fr, info, args, bb):
    ent = args[0]
    if ent.op != 'adt' or len(ent.args) != 3 or ent.args[2].op != 'tup':
        return None
    if ent.args[1] == 'Vacant':
        return [(ent, st)]
    return [(ent, s) for x, s in it.call_value(st.copy(), fr, args[1], [entry_ref(ent.args[2])], bb)]


@reg('Entry::or_default', 'Entry::or_insert', 'Entry::or_insert_with')
def or_insert(it, st, fr, info, args, bb):
    ent = args[0]
    if ent.op != 'adt' or len(ent.args) != 3 or ent.args[2].op != 'tup':
        return None
    e = ent.args[2]
    s = st.copy()
    r, k = e.args
    if ent.args[1] == 'Vacant':
        v = L(it, s, r)
        from absint import norm
        n = norm(info['path'])
        if n == 'Entry::or_insert':
            xs = [(L(it, s, args[1]), s)]
        elif n == 'Entry::or_insert_with':
            xs = it.call_value(s, fr, args[1], [])
        else:
            t = it.dest_ty
            inner = fr.fn.dump.types[t['a'][0]] if t.get('k') == 'ref' and t.get('a') else {}
            kk = kind_of_ty(inner) if inner.get('k') == 'adt' else None
            xs = [(seqv(kk) if kk else I(0), s)]
        out = []
        for x, s3 in xs:
            s3 = s3.copy()
            v = L(it, s3, r)
            if it.listener:
                it.listener.on_put(it, s3, fr, 'map', k, x)
            mutate(it, s3, r, it.push(s3, v, mk('tup', k, x)))
            out.append((entry_ref(e), s3))
        return out
    return [(entry_ref(e), s)]


# ---- iterator construction ---------------------------------------------------------------
@reg('IntoIterator::into_iter', 'slice::iter', 'Vec::iter', 'VecDeque::iter', 'HashMap::iter', 'HashSet::iter', 'BTreeMap::iter', 'BTreeSet::iter', 'p_into_iter', 'Option::iter', 'Option::into_iter', 'array::iter', 'Array::iter', 'array::into_iter')
def into_iter(it, st, fr, info, args, bb):
    a = args[0]
    v = L(it, st, a)
    if v.op == 'adt' and v.args[0] in it.iter_structs:
        return [(v, st)]
    return [(as_iter(v), st)]


@reg('slice::iter_mut', 'VecDeque::iter_mut', 'HashMap::iter_mut', 'Vec::iter_mut')
def iter_mut(it, st, fr, info, args, bb):
    s = st.copy()
    v = L(it, st, args[0])
    it.store(s, args[0], mk('coll', 'vec', it.fresh('itermut'), frozenset({'base'}), (), ()))
    return [(mkiter('src', v), s)]


@reg('slice::windows')
def windows(it, st, fr, info, args, bb):
    return [(mkiter('windows', L(it, st, args[0]), L(it, st, args[1])), st)]


@reg('slice::chunks', 'slice::chunks_exact')
def chunks(it, st, fr, info, args, bb):
    if it.listener:
        it.listener.on_need(it, st, fr, I(1), L(it, st, args[1]), 'chunks of %s' % show(L(it, st, args[1]), 3))
    return [(mkiter('chunks', L(it, st, args[0]), L(it, st, args[1])), st)]


def adapter(kind, nargs):
    def h(it, st, fr, info, args, bb):
        a = L(it, st, args[0])
        if a.op == 'adt' and a.args[0] in it.iter_structs:
            if kind == 'enum':
                return [(adt('Enumerate', 'Enumerate', a), st)]
            if kind == 'zip':
                b = L(it, st, args[1])
                b = b if b.op == 'adt' and b.args[0] in it.iter_structs else as_iter(b)
                return [(adt('Zip', 'Zip', a, b), st)]
            if kind == 'chain':
                b = L(it, st, args[1])
                b = b if b.op == 'adt' and b.args[0] in it.iter_structs else as_iter(b)
                return [(adt('Chain', 'Chain', a, b), st)]
            if a.args[0].split('::')[-1] in ('Map', 'Inspect'):
                return [(adt(a.args[0], a.args[1], h(it, st, fr, info, [a.args[2]] + list(args[1:]), bb)[0][0], *a.args[3:]), st)]
            return [(a, st)]
        a = as_iter(a)
        if kind in ('zip', 'chain'):
            b = L(it, st, args[1])
            if b.op == 'adt' and b.args[0] in it.iter_structs:
                return [(adt('Zip' if kind == 'zip' else 'Chain', 'Zip' if kind == 'zip' else 'Chain', a, b), st)]
            b = as_iter(b)
            if it.listener and kind == 'zip':
                it.listener.on_zip(it, st, fr, a, b)
            return [(mkiter(kind, a, b), st)]
        return [(mkiter(kind, a, *[L(it, st, x) for x in args[1:]]), st)]
    return h


for _n, _k in (('zip', 'zip'), ('enumerate', 'enum'), ('rev', 'rev'), ('skip', 'skip'), ('step_by', 'step'), ('take', 'take'), ('chain', 'chain')):
    TABLE['Iterator::' + _n] = adapter(_k, 0)


@reg('Iterator::next', 'p_next')
def nxt(it, st, fr, info, args, bb):
    return do_next(it, st, fr, args[0], L(it, st, args[0]), info, bb)


@reg('DoubleEndedIterator::next_back', 'p_next_back')
def nxtback(it, st, fr, info, args, bb):
    return do_next(it, st, fr, args[0], L(it, st, args[0]), info, bb, back=True)


@reg('Iterator::collect', 'FromIterator::from_iter')
def collect(it, st, fr, info, args, bb):
    ty = it.dest_ty
    d = (ty.get('d') or '').split('::')[-1]
    v = L(it, st, args[0])
    v = v if v.op == 'adt' and v.args[0] in it.iter_structs else as_iter(v)
    if d == 'Result' or d == 'Option':
        inner = fr.fn.dump.types[ty['a'][0]] if ty.get('a') else {}
        k = kind_of_ty(inner) or 'vec'
        body = 'collect_result_map' if k in MAPS else 'collect_result'
    else:
        k = kind_of_ty(ty) or 'vec'
        body = 'collect_map' if k in MAPS else 'collect_seq'
        if v.op == 'iter' and v.args[0] == 'src':
            src = v.args[1]
            if is_coll(src):
                un = unordered(it, v)
                if src.op == 'seq':
                    return [(seqv(k, *src.args[1:]), st)] if not un else [(mk('coll', k, it.fresh('col'), frozenset({'unordered'}), tuple(src.args[1:]), ()), st)]
                fl = src.args[2] | ({'unordered'} if un else set())
                if k not in ('vec', 'deque'):
                    fl = fl - {'unordered', 'sorted', 'par'}
                return [(mk('coll', k, src.args[1] if k == src.args[0] else it.fresh('col'), frozenset(fl), src.args[3], src.args[4]), st)]
            if k in ('vec', 'deque'):
                return [(src, st)]
    it.kindstack.append(k)
    try:
        m = it.model_body(body)
        outs = it.inline(st, fr, m, [v], bb, 'collect')
        res = []
        for x, s in outs:
            if x.op == 'coll':
                fl = ({'unordered'} if unordered(it, v) and k in ('vec', 'deque') else set()) | ({'filtered'} if capped(v) else set()) | ({'sieved'} if sieved(v) else set())
                if fl:
                    x = mk('coll', x.args[0], x.args[1], x.args[2] | fl, x.args[3], x.args[4])
            res.append((x, s))
        return res
    finally:
        it.kindstack.pop()


@reg('Extend::extend', 'Vec::extend', 'VecDeque::extend', 'HashMap::extend')
def extend(it, st, fr, info, args, bb):
    v = L(it, st, args[0])
    m = 'extend_map' if is_coll(v) and v.args[0] in MAPS else 'extend_seq'
    b = L(it, st, args[1])
    if m == 'extend_seq' and is_coll(v):
        b = few(b)
        if b is not None:
            s = st.copy()
            mutate(it, s, args[0], concat(it, s, v, b, fr))
            return [(UNIT, s)]
    outs = it.inline(st, fr, it.model_body(m), args, bb, 'extend')
    src = L(it, st, args[1])
    if capped(src):
        for _, s in outs:
            x = L(it, s, args[0])
            if x.op == 'coll':
                mutate(it, s, args[0], mk('coll', x.args[0], x.args[1], x.args[2] | {'filtered'}, x.args[3], x.args[4]))
    return outs


def few(b):
    """The listed elements of a literal list or of an option, if that is what this is."""
    while b.op == 'iter' and b.args[0] == 'src':
        b = b.args[1]
    if b.op == 'adt' and b.args[0].endswith('Option'):
        return seqv('vec', *b.args[2:3]) if b.args[1] == 'Some' else seqv('vec')
    return b if b.op == 'seq' and b.args[0] not in MAPS else None


def capped(itr):
    """Does the iterator stop after a fixed number of elements, whatever its source holds?"""
    while itr.op == 'iter' and itr.args[0] in ('take', 'enum', 'rev'):
        if itr.args[0] == 'take' and itr.args[2].op == 'int' and itr.args[2].args[0] > 1:
            return True
        itr = itr.args[1]
    return False


def sieved(itr):
    """Does the iterator leave elements out by their value alone (a filter that captures nothing)?"""
    while True:
        if itr.op == 'iter' and len(itr.args) > 1 and isinstance(itr.args[1], T):
            itr = itr.args[1]
        elif itr.op == 'adt' and itr.args[0].split('::')[-1] in ('Filter', 'Map', 'Enumerate', 'Inspect') and len(itr.args) > 2:
            f = itr.args[3] if len(itr.args) > 3 else None
            if itr.args[0].endswith('Filter') and f is not None and f.op == 'clo' and len(f.args) < 2:
                return True
            itr = itr.args[2]
        else:
            return False


@reg('Iterator::try_fold')
def try_fold(it, st, fr, info, args, bb):
    return it.inline(st, fr, it.model_body('Iterator_try_fold_result'), args, bb, 'tryfold')


@reg('Iterator::try_for_each')
def try_for_each(it, st, fr, info, args, bb):
    return it.inline(st, fr, it.model_body('Iterator_try_for_each_result'), args, bb, 'tryforeach')


@reg('Iterator::count', 'Iterator::sum', 'Iterator::product')
def count(it, st, fr, info, args, bb):
    return [(it.fresh('count'), st)]


@reg('Iterator::max', 'Iterator::min', 'Iterator::last', 'Iterator::nth')
def itmax(it, st, fr, info, args, bb):
    v = L(it, st, args[0])
    v = as_iter(v)
    if v.op != 'iter':
        return [(it.fresh('itopt'), st)]
    outs = [(some(e), s.copy()) for e, s in iter_elems(it, st, v, it.fresh('nth'))]
    return outs + [(NONE, st.copy())]


@reg('iter::from_fn')
def from_fn(it, st, fr, info, args, bb):
    return [(adt('FromFn', 'FromFn', args[0]), st)]


@reg('iter::once')
def once(it, st, fr, info, args, bb):
    return [(mkiter('src', seqv('vec', L(it, st, args[0]))), st)]


@reg('iter::empty')
def iter_empty(it, st, fr, info, args, bb):
    return [(mkiter('src', seqv('vec')), st)]


@reg('p_any', 'p_any_bool')
def p_any(it, st, fr, info, args, bb):
    return [(it.fresh('any'), st)]


@reg('p_convert_err')
def p_conv(it, st, fr, info, args, bb):
    return [(args[0], st)]


# ---- memory ------------------------------------------------------------------------------
@reg('mem::swap')
def swap(it, st, fr, info, args, bb):
    s = st.copy()
    a, b = L(it, s, args[0]), L(it, s, args[1])
    it.store(s, args[0], b)
    it.store(s, args[1], a)
    return [(UNIT, s)]


@reg('mem::replace')
def replace(it, st, fr, info, args, bb):
    s = st.copy()
    a = L(it, s, args[0])
    it.store(s, args[0], args[1])
    return [(a, s)]


@reg('mem::take')
def take(it, st, fr, info, args, bb):
    s = st.copy()
    a = L(it, s, args[0])
    outs = default(it, s, fr, {}, [], bb)
    it.store(s, args[0], outs[0][0])
    return [(a, s)]


# ---- comparison and arithmetic -----------------------------------------------------------
@reg('PartialEq::eq', 'p_eq')
def eq(it, st, fr, info, args, bb):
    a, b = L(it, st, args[0]), L(it, st, args[1])
    if a.op == 'adt' and b.op == 'adt' and a.args[0] == b.args[0] == OPTION:
        if a.args[1] != b.args[1]:
            return [(FALSE, st)]
        if a.args[1] == 'None':
            return [(TRUE, st)]
        return [(it.eq_term(a.args[2], b.args[2]), st)]
    for x, y in ((a, b), (b, a)):
        if y.op == 'adt' and y.args[0] == OPTION and x.op != 'adt':
            if y.args[1] == 'None':
                return [(mk('isvar', x, 'None', ('None', 'Some')), st)]
            pay = it.field(st, x, 0, 'Some')
            return [(mk('and', mk('isvar', x, 'Some', ('None', 'Some')), it.eq_term(pay, y.args[2])), st)]
    return [(it.eq_term(a, b), st)]


@reg('PartialEq::ne')
def ne(it, st, fr, info, args, bb):
    from absint import mknot
    return [(mknot(v), s) for v, s in eq(it, st, fr, info, args, bb)]


def ordcmp(op):
    def h(it, st, fr, info, args, bb):
        from absint import NUMOPS
        a, b = L(it, st, args[0]), L(it, st, args[1])
        if a.op in NUMOPS or b.op in NUMOPS:
            return [(it.cmp(op, a, b), st)]
        m = {'Lt': ('lt', a, b, False), 'Gt': ('lt', b, a, False), 'Ge': ('lt', a, b, True), 'Le': ('lt', b, a, True)}[op]
        t = mk('boolapp', 'lt', m[1], m[2])
        from absint import mknot
        return [(mknot(t) if m[3] else t, st)]
    return h


for _n, _o in (('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')):
    TABLE['PartialOrd::' + _n] = ordcmp(_o)


@reg('Ord::cmp', 'PartialOrd::partial_cmp')
def cmp_(it, st, fr, info, args, bb):
    a, b = L(it, st, args[0]), L(it, st, args[1])
    v = mk('app', 'cmp', a, b)
    return [(some(v) if info['path'].endswith('partial_cmp') else v, st)]


@reg('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min')
def minmax(it, st, fr, info, args, bb):
    from absint import norm
    n = norm(info['path']).split('::')[1]
    a, b = L(it, st, args[0]), L(it, st, args[1])
    if a.op == 'int' and b.op == 'int':
        return [(I(max(a.args[0], b.args[0]) if n == 'max' else min(a.args[0], b.args[0])), st)]
    # max(x - y, c) style clamps
    out = []
    for x, y, strict in ((a, b, 0), (b, a, 1)):
        s = st.copy()
        d = add(x, y, -1)
        if n == 'min':
            d = scale(d, -1)
        if it.assume_bound(s, d, strict, None):
            out.append((x, s))
    return out


@reg('num::saturating_sub')
def satsub(it, st, fr, info, args, bb):
    a, b = L(it, st, args[0]), L(it, st, args[1])
    if a.op == 'int' and b.op == 'int':
        return [(I(max(0, a.args[0] - b.args[0])), st)]
    lo, hi = it.bounds(st, add(a, b, -1))
    if lo is not None and lo >= 0:
        return [(add(a, b, -1), st)]
    return [(mk('satsub', a, b), st)]


@reg('num::wrapping_add', 'num::saturating_add', 'num::unchecked_add', 'Add::add')
def wadd(it, st, fr, info, args, bb):
    return [(add(L(it, st, args[0]), L(it, st, args[1])), st)]


@reg('Div::div', 'Rem::rem', 'Shr::shr', 'Shl::shl', 'BitAnd::bitand', 'BitOr::bitor', 'BitXor::bitxor', 'Mul::mul')
def operator(it, st, fr, info, args, bb):
    from absint import norm
    base = {'div': 'Div', 'rem': 'Rem', 'shr': 'Shr', 'shl': 'Shl', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'mul': 'Mul'}[norm(info['path']).split('::')[1]]
    return [(it.binop(base, L(it, st, args[0]), L(it, st, args[1])), st)]


@reg('num::wrapping_sub', 'Sub::sub')
def wsub(it, st, fr, info, args, bb):
    return [(add(L(it, st, args[0]), L(it, st, args[1]), -1), st)]


@reg('num::checked_add')
def cadd(it, st, fr, info, args, bb):
    return [(some(add(L(it, st, args[0]), L(it, st, args[1]))), st)]


@reg('num::checked_sub')
def csub(it, st, fr, info, args, bb):
    a, b = L(it, st, args[0]), L(it, st, args[1])
    out = []
    s = st.copy()
    if it.assume_bound(s, add(a, b, -1), 0, None):
        out.append((some(add(a, b, -1)), s))
    s = st.copy()
    if it.assume_bound(s, add(a, b, -1), None, -1):
        out.append((NONE, s))
    return out


@reg('AddAssign::add_assign')
def addassign(it, st, fr, info, args, bb):
    s = st.copy()
    it.store(s, args[0], add(L(it, s, args[0]), L(it, s, args[1])))
    return [(UNIT, s)]


@reg('SubAssign::sub_assign')
def subassign(it, st, fr, info, args, bb):
    s = st.copy()
    it.store(s, args[0], add(L(it, s, args[0]), L(it, s, args[1]), -1))
    return [(UNIT, s)]


@reg('num::pow', 'num::leading_zeros', 'num::trailing_zeros', 'num::count_ones', 'num::is_power_of_two', 'num::to_le_bytes', 'num::to_be_bytes', 'num::ilog2', 'num::div_ceil', 'num::abs_diff', 'num::checked_shr', 'num::checked_shl', 'num::is_multiple_of', 'num::rem_euclid')
def arith(it, st, fr, info, args, bb):
    from absint import norm
    import re
    m = re.search(r'<impl ([ui]\w+)>', info['path'])
    return [(mk('arith', norm(info['path']) + (':' + m.group(1) if m else ''), *[L(it, st, a) for a in args]), st)]


@reg('Not::not')
def not_(it, st, fr, info, args, bb):
    from absint import mknot
    return [(mknot(L(it, st, args[0])), st)]


@reg('bool::then_some')
def then_some(it, st, fr, info, args, bb):
    return None
