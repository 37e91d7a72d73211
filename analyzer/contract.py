"""Contract models of the crate's own traits and public primitives, and entry-point set-up.

The generic core (`MerkleBIT<M, N>`) only reaches storage, hashing, codecs and node records through
traits, so each trait method is given its documented meaning as a term constructor plus an event.
"""
from terms import *
from absint import *

TRAITS = {'Database', 'Node', 'Branch', 'Leaf', 'Data', 'Hasher', 'Encode', 'Decode'}
BRANCH_F = {n: i for i, n in enumerate(RECORD['Branch'])}
LEAF_F = {n: i for i, n in enumerate(RECORD['Leaf'])}
DATA_F = {'value': 0}
FLD = {'Branch': BRANCH_F, 'Leaf': LEAF_F, 'Data': DATA_F}
# public helpers with a documented meaning, treated as primitives of the tree rules
PRIMS = {'tree_utils::choose_zero', 'tree_utils::split_pairs', 'tree_utils::check_descendants', 'tree_utils::calc_min_split_index'}
UNSET = lambda k, f: mk('unset', k, f)


def trait_name(info):
    t = info.get('trait') or ''
    p = t.split('::')
    if len(p) >= 2 and p[-2] == 'traits' and p[-1] in TRAITS:
        return p[-1]
    return None


def key_slot(t):
    """Is t an element of the caller's key list?"""
    if t.op != 'at':
        return False
    b = t.args[0]
    while b.op in ('sorted', 'perm'):
        b = b.args[0]
    return b.op == 'sym' and b.args[0] == ('arg', 3)


def overflow(it, st, c):
    """True: the checked operation certainly stays in range; False: it certainly can leave it; None: not known."""
    op, ty, v = c.args[0].args[0], c.args[1].args[0], c.args[2]
    lo, hi = it.bounds(st, v)
    w = INTW[ty]
    if op == 'Sub':
        if lo is not None and lo >= 0:
            return True
        return False if lo is not None and all(x.op in ('len', 'trunc') and not any(y.op in ('phi', 'coll') for y in subterms(x)) for x in lin_parts(v)[1]) else None
    if hi is not None:
        return True if hi < 1 << w else None
    if w > 16:
        return True     # counting this far takes longer than anything the library is used for
    return False if any(x.op == 'phi' for x in subterms(v)) else None


def endless(itr):
    """Does this iterator go on for ever?"""
    if itr.op != 'iter':
        return False
    k = itr.args[0]
    if k == 'range':
        return len(itr.args) > 2 and itr.args[2].op == 'infinity'
    subs = [endless(x) for x in itr.args[1:] if isinstance(x, T) and x.op == 'iter']
    return bool(subs) and k != 'take' and (all(subs) if k == 'zip' else any(subs))


def pair(x):
    return x.op == 'tup' and len(x.args) == 2


class Core(Listener):
    """Gives the traits their contract meaning and records events."""
    keeps_why = True

    def __init__(self):
        self.counts = {}
        self.rules = []
        self.alarms = {}
        self.checked = {}
        self.notes = {}
        self.asserts = []
        self.nexts = {}

    # ---- bookkeeping
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def res(self, it, st, fr, op, payload, *data):
        site = it.fresh(op)
        return mk('res', op, mk('key', site, *data), payload)

    def refarg(self, it, st, a):
        return it.load(st, a)

    def intercept(self, it, st, fr, info, n, args, bb):
        tn = trait_name(info)
        if tn is not None and not info.get('reslocal'):
            m = info['path'].split('::')[-1]
            h = getattr(self, 't_%s_%s' % (tn, m), None)
            if h is None:
                vals = [it.load(st, a) for a in args]
                base = tn
                if tn in FLD and (m.startswith('get_') or m.startswith('set_')):
                    f = m[4:]
                    if m.startswith('get_'):
                        if f not in FLD[tn]:
                            return None
                        return [(self.rec_get(it, st, vals[0], tn, f), st)]
                    s = st.copy()
                    self.rec_set(it, s, args[0], tn, f, it.load(s, args[1]))
                    return [(UNIT, s)]
                return None
            self.count('%s::%s' % (tn, m))
            return h(it, st, fr, args, bb)
        if n == 'tree_utils::generate_tree_ref_queue' and info.get('reslocal'):
            s = st.copy()
            it.event(s, fr, 'queue', it.load(s, args[0]))
            st.log = s.log
            return None
        if n in PRIMS and info.get('reslocal'):
            self.count(n)
            return getattr(self, 'p_' + n.split('::')[1])(it, st, fr, args)
        return None

    # ---- program events the rules read
    def on_push(self, it, st, fr, v, x, where):
        it.event(st, fr, 'push', x)
        if where != 'back' and pair(x):
            it.event(st, fr, 'front', where)

    def on_step(self, it, st, fr, cell, itr):
        # kept out of the events: only the passes of a loop look at it
        st.log = st.log + (('step', cell.args[0] if cell.op == 'mref' else None, endless(itr), it.cur_span),)

    def on_permute(self, it, st, fr, v, name):
        if v.op == 'coll' and any(pair(x) for x in v.args[3]) or v.op == 'seq' and any(pair(x) for x in v.args[1:]):
            it.event(st, fr, 'permute', name)

    def on_sort(self, it, st, fr, v, name, natural):
        els = v.args[3] if v.op == 'coll' else ()
        if any(pair(x) and x.args[1].op not in ('tup', 'coll', 'seq', 'adt') for x in els):
            it.event(st, fr, 'permute', name)

    def on_pop(self, it, st, fr, v, x, where, r=None):
        it.event(st, fr, 'pop', x, r)

    def on_drop(self, it, st, fr, name, r, v, n):
        it.event(st, fr, 'shed', name, r, v, n)

    def on_assert(self, it, st, fr, t, c):
        if c.op == 'ovf':
            self.asserts.append((it.cur_span, short(fr.fn.key), 'no overflow of %s in %s' % (show(c.args[2], 4), c.args[1].args[0]), overflow(it, st, c)))
            return
        tv = it.truth(st, c)
        self.asserts.append((it.cur_span, short(fr.fn.key), str(t[4:])[:80] + ' ' + show(c, 3), None if tv is None else tv == t[2], (c, st.facts, t[2])))

    def on_raise(self, it, st, fr, v):
        """A function ends in an error of its own making."""
        x = v.args[2]
        x = x.args[0] if x.op == 'conv' else x
        if x.op == 'adt' and not st.ghost.get('u_raised'):
            at = next((f for f in [fr] + it.callstack[::-1] if 'analyzer/models' not in f.fn.b.get('span', '')), fr)
            e = Event('raise', (x,), at.fn.b.get('span', ''), at.fn.key, fr.ctx, [f.fn.key for f in it.callstack], tuple(it.active))
            e.facts, e.log, e.ghost, e.extra = st.facts, st.log, st.ghost, st.why
            it.events.append(e)
            st.setghost('u_raised', frozenset({'yes'}))

    def on_need(self, it, st, fr, small, large, what):
        """A call that panics unless small <= large."""
        if it.track_overflow:
            d = add(large, small, -1)
            lo, hi = it.bounds(st, d)
            sure = all(x.op == 'trunc' or x.op == 'len' and x.args[0].op == 'sym' and x.args[0].args[0][:1] == ('arg',) for x in lin_parts(d)[1])
            self.asserts.append((it.cur_span, short(fr.fn.key), 'in bounds: ' + what, True if lo is not None and lo >= 0 else False if lo is not None and sure or hi is not None and hi < 0 else None))

    def on_panic(self, it, st, fr, name):
        """A call that does not return is reached."""
        if it.track_overflow:
            at = next((f for f in [fr] + it.callstack[::-1] if 'analyzer/models' not in f.fn.b.get('span', '')), fr)
            self.asserts.append((it.cur_span, short(at.fn.key), 'panic: %s is not reached' % name, False, (None, st.facts, None)))

    def on_branch(self, it, st, fr, t, val):
        while t.op == 'not':
            t, val = t.args[0], not val
        if t.op == 'boolapp' and t.args[0] == 'lt' and all(key_slot(a) for a in t.args[1:]):
            # in a sorted list, "not below its right neighbour" is "equal to it"
            d = add(t.args[2].args[1], t.args[1].args[1], -1)
            if d.op != 'int' or d.args[0] > 0:
                it.event(st, fr, 'dupcmp', t.args[1], t.args[2])
        if t.op == 'eq' and all(key_slot(a) or a.op == 'phi' or a.op == 'adt' for a in t.args) and any(key_slot(a) for a in t.args):
            it.event(st, fr, 'dupcmp', t.args[0], t.args[1])
            if val and not any(ev[0] == 'put' for ev in st.log):
                st.setghost('dup', frozenset({'found'}))

    def on_next(self, it, st, fr, itr, ix, e):
        self.nexts[ix] = itr
        if e.op == 'sym':
            self.nexts[e] = itr

    def leave(self, it, st, lid, fr, h, tgt):
        e = Event('leave', (), fr.fn.blocks[h]['sp'], fr.fn.key, (fr.ctx, h), [f.fn.key for f in it.callstack], tuple(it.active))
        e.facts, e.log, e.ghost, e.extra = st.facts, tuple(x for x in segment(st.log, lid) if x[0] == 'iterend'), st.ghost, (lid,)
        it.events.append(e)
        ks = []
        for k, v in st.facts.items():
            x = None
            if isinstance(k, T) and k.op == 'boolapp' and (k.args[0], v) in (('contains', True), ('newly', False)):
                x = k.args[-1]
            elif isinstance(k, tuple) and k[0] == 'v' and v == 'Some' and k[1].op == 'opt' and k[1].args[0].op == 'key':
                a = k[1].args[0].args
                x = a[1] if a[0] == 'oldval' else a[2] if a[0] == 'mapget' and len(a) > 2 else None
            if x is not None and key_slot(x):
                ks.append(x)
        if ks and not any(ev[0] in ('put', 'del') for ev in st.log):
            e = Event('dupfound', tuple(ks), fr.fn.blocks[h]['sp'], fr.fn.key, (fr.ctx, h), [f.fn.key for f in it.callstack], tuple(it.active))
            e.facts, e.log, e.ghost = st.facts, st.log, st.ghost
            it.events.append(e)

    def on_event(self, it, st, fr, e):
        if e.kind in ('put', 'del'):
            if st.ghost.get('dup'):
                it.event(st, fr, 'dupput')
            st.setghost('u_dirty', (st.ghost.get('u_dirty') or EMPTY) | {it.span_of(fr)})
        elif e.kind == 'flush' and st.ghost.get('u_dirty'):
            st.setghost('u_dirty', EMPTY)

    def on_adt(self, it, st, fr, v):
        n = v.args[0].split('::')[-1]
        if n in ('TreeRef', 'TreeCell'):
            a = it.dump.adts.get(v.args[0])
            if a:
                names = [f[0] for f in a['variants'][0]['f']]
                d = dict(zip(names, v.args[2:]))
                if n == 'TreeRef' and {'key', 'location', 'node_count', 'count'} <= set(d):
                    it.event(st, fr, 'treeref', d['key'], d['location'], d['node_count'], d['count'])
                elif n == 'TreeCell' and {'location', 'keys', 'node', 'depth'} <= set(d):
                    it.event(st, fr, 'treecell', d['location'], d['keys'], d['node'], d['depth'])

    def cross(self, it, st, lid, fr, h):
        seg = segment(st.log, lid)
        e = Event('cross', (), fr.fn.blocks[h]['sp'], fr.fn.key, (fr.ctx, h), [f.fn.key for f in it.callstack], tuple(it.active))
        live = {c: v for c, v in it.pass_start.mem.items() if c[0] != 'L' or c[1] != fr.ctx or c[2] in fr.fn.live[h] or c[2] in fr.fn.borrowed}
        e.facts, e.log, e.ghost, e.extra = st.facts, seg, st.ghost, (lid, dict(st.mem), live)
        it.events.append(e)

    def on_map_insert(self, it, st, fr, v, k, x):
        it.event(st, fr, 'mapinsert', k, x)

    def on_bsearch(self, it, st, fr, v, k):
        it.event(st, fr, 'bsearch', v, k)

    def attrs(self, it, st, x):
        if x.op == 'bf':
            if x.args[1] == 'data':
                return frozenset({'dataloc'})
            if x.args[1] in ('zero', 'one'):
                return frozenset({'treeloc'})
        return EMPTY

    # ---- records
    def rec_get(self, it, st, v, kind, f):
        i = FLD[kind][f]
        if v.op == 'rec' and v.args[0] == kind:
            return v.args[1 + i]
        if v.op == 'upd':
            for k, x in v.args[1]:
                if k == (i, kind):
                    return x
            return self.rec_get(it, st, v.args[0], kind, f)
        return mk('fld', v, i, kind)

    def rec_set(self, it, st, ref, kind, f, x):
        v = it.load(st, ref)
        i = FLD[kind][f]
        if v.op == 'rec':
            a = list(v.args)
            a[1 + i] = x
            nv = mk('rec', *a)
        else:
            nv = it.setfield(v, i, kind, x)
        it.store(st, ref, nv)

    def new_rec(self, kind):
        return mk('rec', kind, *[UNSET(kind, f) for f in RECORD[kind]])

    def t_Branch_new(self, it, st, fr, args, bb):
        return [(self.new_rec('Branch'), st)]

    def t_Leaf_new(self, it, st, fr, args, bb):
        return [(self.new_rec('Leaf'), st)]

    def t_Data_new(self, it, st, fr, args, bb):
        return [(self.new_rec('Data'), st)]

    def t_Branch_decompose(self, it, st, fr, args, bb):
        v = it.load(st, args[0])
        return [(mk('tup', *[self.rec_get(it, st, v, 'Branch', f) for f in RECORD['Branch']]), st)]

    def t_Leaf_decompose(self, it, st, fr, args, bb):
        v = it.load(st, args[0])
        return [(mk('tup', *[self.rec_get(it, st, v, 'Leaf', f) for f in RECORD['Leaf']]), st)]

    # ---- nodes
    def t_Node_new(self, it, st, fr, args, bb):
        return [(mk('nodeval', it.load(st, args[0]), mk('unset', 'Node', 'references')), st)]

    def t_Node_get_references(self, it, st, fr, args, bb):
        v = it.load(st, args[0])
        return [(v.args[1] if v.op == 'nodeval' else mk('fld', v, 1, 'Node'), st)]

    def t_Node_get_variant(self, it, st, fr, args, bb):
        v = it.load(st, args[0])
        return [(v.args[0] if v.op == 'nodeval' else mk('fld', v, 0, 'Node'), st)]

    def node_set(self, it, st, ref, variant=None, refs=None):
        s = st.copy()
        v = it.load(s, ref)
        a, b = (v.args if v.op == 'nodeval' else (mk('fld', v, 0, 'Node'), mk('fld', v, 1, 'Node')))
        it.store(s, ref, mk('nodeval', variant or a, refs or b))
        return [(UNIT, s)]

    def t_Node_set_references(self, it, st, fr, args, bb):
        return self.node_set(it, st, args[0], refs=it.load(st, args[1]))

    def variant_adt(self, it):
        for p in it.dump.adts:
            if p.endswith('traits::NodeVariant'):
                return p
        return 'traits::NodeVariant'

    def t_Node_set_branch(self, it, st, fr, args, bb):
        return self.node_set(it, st, args[0], variant=adt(self.variant_adt(it), 'Branch', it.load(st, args[1])))

    def t_Node_set_leaf(self, it, st, fr, args, bb):
        return self.node_set(it, st, args[0], variant=adt(self.variant_adt(it), 'Leaf', it.load(st, args[1])))

    def t_Node_set_data(self, it, st, fr, args, bb):
        return self.node_set(it, st, args[0], variant=adt(self.variant_adt(it), 'Data', it.load(st, args[1])))

    # ---- storage
    def t_Database_open(self, it, st, fr, args, bb):
        r = self.res(it, st, fr, 'open', mk('app', 'opened', it.load(st, args[0])))
        s = st.copy()
        it.event(s, fr, 'open', r)
        return [(r, s)]

    def t_Database_get_node(self, it, st, fr, args, bb):
        loc = it.load(st, args[1])
        s = st.copy()
        site = it.fresh('get')
        ver = self.epoch(s)
        o = mk('opt', mk('key', 'db', loc, site, ver), mk('nodeval', mk('nvar', loc), mk('refs', loc, site)))
        r = mk('res', 'get', mk('key', site, loc), o)
        it.event(s, fr, 'get', loc, r)
        return [(r, s)]

    def epoch(self, s):
        return s.ghost.get('epoch', UNIT)

    def t_Database_insert(self, it, st, fr, args, bb):
        s = st.copy()
        loc, node = it.load(s, args[1]), it.load(s, args[2])
        r = self.res(it, s, fr, 'put', UNIT, loc)
        it.event(s, fr, 'put', loc, node, r)
        return [(r, s)]

    def t_Database_remove(self, it, st, fr, args, bb):
        s = st.copy()
        loc = it.load(s, args[1])
        r = self.res(it, s, fr, 'del', UNIT, loc)
        it.event(s, fr, 'del', loc, r)
        return [(r, s)]

    def t_Database_batch_write(self, it, st, fr, args, bb):
        s = st.copy()
        r = self.res(it, s, fr, 'flush', UNIT)
        it.event(s, fr, 'flush', r)
        return [(r, s)]

    # ---- hashing and codecs
    def t_Hasher_new(self, it, st, fr, args, bb):
        return [(mk('hasher'), st)]

    def t_Hasher_update(self, it, st, fr, args, bb):
        s = st.copy()
        v, x = it.load(s, args[0]), it.load(s, args[1])
        if v.op != 'hasher':
            v = mk('hasher', mk('of', v))
        if x.op == 'seq' and all(e.op == 'int' for e in x.args[1:]):
            x = mk('bytes', tuple(e.args[0] for e in x.args[1:]))
        if len(v.args) > 24:
            v = mk('hasher', mk('of', it.fresh('longhash')))
        it.store(s, args[0], mk('hasher', *(v.args + (x,))))
        return [(UNIT, s)]

    def t_Hasher_finalize(self, it, st, fr, args, bb):
        v = it.load(st, args[0])
        h = mk('H', *v.args) if v.op == 'hasher' else mk('H', mk('of', v))
        s = st.copy()
        it.event(s, fr, 'hash', h)
        return [(h, s)]

    def t_Encode_encode(self, it, st, fr, args, bb):
        v = it.load(st, args[0])
        s = st.copy()
        r = self.res(it, s, fr, 'encode', mk('enc', v), v)
        it.event(s, fr, 'encode', v, r)
        return [(r, s)]

    def t_Decode_decode(self, it, st, fr, args, bb):
        v = it.load(st, args[0])
        s = st.copy()
        r = self.res(it, s, fr, 'decode', mk('dec', v), v)
        it.event(s, fr, 'decode', v, r)
        return [(r, s)]

    # ---- public helpers
    def p_choose_zero(self, it, st, fr, args):
        k, b = [it.load(st, a) for a in args]
        return [(mk('res', 'choose_zero', mk('key', k, b), mk('boolapp', 'zero', k, b)), st)]

    def p_split_pairs(self, it, st, fr, args):
        l, b = [it.load(st, a) for a in args]
        s = st.copy()
        it.event(s, fr, 'split_pairs', l, b)
        if l.op == 'seq' and len(l.args) == 2:
            z = mk('boolapp', 'zero', l.args[1], b)
            s1, s2 = s.copy(), s.copy()
            e = mk('seq', l.args[0])
            out = []
            if it.assume(s1, z, True):
                out.append((mk('res', 'split_pairs', mk('key', l, b), mk('tup', l, e)), s1))
            if it.assume(s2, z, False):
                out.append((mk('res', 'split_pairs', mk('key', l, b), mk('tup', e, l)), s2))
            return out
        return [(mk('res', 'split_pairs', mk('key', l, b), mk('tup', mk('sub', l, mk('zeros', b)), mk('sub', l, mk('ones', b)))), s)]

    def p_check_descendants(self, it, st, fr, args):
        l, bsi, bkey, msi = [it.load(st, a) for a in args]
        s = st.copy()
        it.event(s, fr, 'check_descendants', l, bsi, bkey, msi)
        if l.op == 'seq' and len(l.args) == 2:
            c = mk('boolapp', 'below', l.args[1], bkey, bsi)
            s1, s2 = s.copy(), s.copy()
            out = []
            if it.assume(s1, c, True):
                out.append((mk('res', 'check_descendants', mk('key', l, bsi, bkey), l), s1))
            if it.assume(s2, c, False):
                out.append((mk('res', 'check_descendants', mk('key', l, bsi, bkey), mk('seq', l.args[0])), s2))
            return out
        return [(mk('res', 'check_descendants', mk('key', l, bsi, bkey), mk('sub', l, mk('desc', bkey, bsi))), s)]

    def p_calc_min_split_index(self, it, st, fr, args):
        l, bkey = [it.load(st, a) for a in args]
        return [(mk('res', 'msi', mk('key', l, bkey), mk('msi', l, bkey)), st)]


def segment(log, lid):
    for i in range(len(log) - 1, -1, -1):
        if log[i] == ('loop', lid):
            return tuple(e for e in log[i + 1:] if e[0] != 'loop')
    return tuple(e for e in log if e[0] != 'loop')


def entry_args(it, fn, st):
    b = fn.b
    args = []
    for i in range(1, b['argc'] + 1):
        ty = fn.dump.types[b['locals'][i]]
        v = sym(('arg', i))
        if ty['k'] == 'ref' and ty.get('m'):
            cell = ('P', i)
            st.mem[cell] = v
            args.append(mk('mref', cell, ()))
        else:
            args.append(v)
    return args


def run_entry(it, key):
    fn = it.fn(key)
    st = State()
    args = entry_args(it, fn, st)
    it.site = (0, -1)
    it.cur_span = fn.b.get('span')
    c = it.ctx(-1, key, -1)
    return it.run_fn(fn, args, st, c)
