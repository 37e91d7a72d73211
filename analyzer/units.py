"""Rules over single bodies: storage backends, codecs, hashers, front ends, bit addressing, node records."""
import os, re
from terms import *
from absint import *
from contract import run_entry, trait_name, segment
from rules import murky, fact_variant, field_index

CONFIGS = {}
RULES = {}
SOURCE_RULES = {}


# calls that drop, repeat, reorder or change elements of what they are applied to
DROPS = re.compile(r'^(Iterator::(take_while|skip_while|filter|filter_map|step_by|map_while)|slice::(split|splitn|rsplit|rsplitn|split_inclusive|strip_\w+|trim\w*|to_ascii_\w+|escape\w*)'
                   r'|HashMap::(retain|remove\w*|clear|drain)|Vec::(truncate|clear|drain|retain\w*|dedup\w*|pop|remove|swap_remove)|str::(trim\w*|to_\w*case|replace\w*|strip_\w+|split\w*|lines|escape\w*)'
                   r'|String::(from_utf8_lossy|truncate|pop|retain|remove))$')
REORDERS = re.compile(r'^(Iterator::rev|slice::(sort\w*|reverse|rotate_\w+|fill|swap|make_ascii_\w+|copy_within)|Vec::(insert|push|extend\w*|append|resize\w*)|String::(push\w*|insert\w*))$')
RESHAPES = re.compile(DROPS.pattern[:-1] + '|' + REORDERS.pattern[1:])


class Unit(Listener):
    """Interprets one body on its own: calls that leave the crate become named effects on what they may write."""
    effects = True
    untracked = True
    maps = False
    stop = ()

    def __init__(self):
        self.ext = []
        self.reshapes = []
        self.names = set()

    def intercept(self, it, st, fr, info, n, args, bb):
        """Maps whose content is unknown: every change is kept as a named effect, every test as a fact about the key."""
        self.names.add(n)
        if args and RESHAPES.match(n):
            self.reshapes.append((n, it.load(st, args[0]), tuple(it.load(st, a) for a in args[1:]), fr.fn.blocks[bb]['sp']))
        if n in ('HashMap::insert', 'BTreeMap::insert', 'HashMap::remove', 'BTreeMap::remove', 'HashMap::remove_entry', 'BTreeMap::remove_entry') and not is_tracked(it.load(st, args[0])):
            vals = [it.load(st, a) for a in args]
            x = mk('at', vals[0], vals[1])
            r = mk('opt', mk('key', 'mapget', vals[0], vals[1]), mk('tup', vals[1], x) if n.endswith('_entry') else x)
            return [(r, self.change(it, st, n.replace('_entry', ''), args[0], vals))]
        if not self.maps:
            return None
        if n in ('HashMap::get_key_value', 'BTreeMap::get_key_value') and not is_tracked(it.load(st, args[0])):
            v, k = it.load(st, args[0]), it.load(st, args[1])
            return [(mk('opt', mk('key', 'mapget', v, k), mk('tup', k, mk('at', v, k))), st)]
        if n in ('HashMap::get_mut', 'BTreeMap::get_mut') and args[0].op == 'mref' and not is_tracked(it.load(st, args[0])):
            v, k = it.load(st, args[0]), it.load(st, args[1])
            out = []
            for b in (True, False):
                s = st.copy()
                if it.assume(s, mk('boolapp', 'contains', v, k), b):
                    out.append((adt('Option', 'Some', mk('mref', args[0].args[0], args[0].args[1] + (('x', k),))) if b else adt('Option', 'None'), s))
            return out
        if n in ('OccupiedEntry::insert', 'VacantEntry::insert', 'VacantEntry::insert_entry', 'OccupiedEntry::remove', 'OccupiedEntry::remove_entry', 'Entry::or_insert', 'Entry::or_default', 'Entry::or_insert_with', 'Entry::insert_entry'):
            e = it.load(st, args[0]) if args[0].op == 'mref' else args[0]
            vacant = None
            if n.startswith('Entry') and e.op == 'adt' and len(e.args) == 3:
                vacant, e = e.args[1] == 'Vacant', e.args[2]
            if e.op != 'tup' or len(e.args) != 2 or e.args[0].op != 'mref' or is_tracked(it.load(st, e.args[0])):
                return None
            r, k = e.args
            v = it.load(st, r)
            slot = mk('mref', r.args[0], r.args[1] + (('x', k),))
            if n.startswith('OccupiedEntry::remove'):
                return [(mk('at', v, k) if n.endswith('remove') else mk('tup', k, mk('at', v, k)), self.change(it, st, 'HashMap::remove', r, [v, k]))]
            if n.startswith('Entry::or'):
                if not vacant:
                    return [(slot, st)]
                if n == 'Entry::or_default':
                    return None
                xs = it.call_value(st, fr, args[1], []) if n.endswith('_with') else [(it.load(st, args[1]), st)]
                return [(slot, self.change(it, s, 'HashMap::insert', r, [v, k, x])) for x, s in xs]
            s = self.change(it, st, 'HashMap::insert', r, [v, k, it.load(st, args[1])])
            return [(mk('at', v, k) if n == 'OccupiedEntry::insert' else slot if n == 'VacantEntry::insert' else e, s)]
        return None

    def change(self, it, st, n, r, vals):
        s = st.copy()
        it.store(s, r, mk('eff', n, 0, *vals))
        s.log = s.log + (('ext', n, tuple(vals)),)
        return s

    def cross(self, it, st, lid, fr, h):
        e = Event('cross', (), fr.fn.blocks[h]['sp'], fr.fn.key, (fr.ctx, h), [f.fn.key for f in it.callstack], tuple(it.active))
        e.facts, e.log, e.ghost, e.extra = st.facts, segment(st.log, lid), st.ghost, (lid, dict(st.mem))
        it.events.append(e)

    def on_opaque(self, it, st, fr, name, vals, r):
        st.log = st.log + (('ext', name, tuple(vals), r),)


class MapUnit(Unit):
    maps = True


class MapErrUnit(MapUnit):
    keep_errs = True


def is_tracked(v):
    return v.op in ('seq', 'coll')


class UPath:
    __slots__ = ('value', 'facts', 'log', 'mem', 'post')


def run_unit(D, M, key, listener=None, **kw):
    """[UPath] of one body, or an error string."""
    l = listener or Unit()
    it = Interp(D, M, l, **kw)
    try:
        outs = run_entry(it, key)
    except (Unsupported, Budget) as e:
        return it, '%s: %s' % (type(e).__name__, e)
    except RecursionError:
        return it, 'RecursionError'
    except Exception as e:
        return it, 'the analysis gave up: %s: %s' % (type(e).__name__, e)
    ps = []
    for v, s in outs:
        p = UPath()
        p.value, p.facts, p.log, p.mem = v, s.facts, s.log, s.mem
        p.post = lambda i, s=s: s.mem.get(('P', i))
        ps.append(p)
    return it, ps


# ---- shared helpers -------------------------------------------------------------------------
def impls(D, trait):
    """[(self type, {method: body key})] of the crate's implementations of a trait."""
    out = []
    for i in D.impls:
        t = i.get('trait') or ''
        if t == trait or t.endswith('::' + trait):
            out.append((D.tys(i['self']), {n: k for n, k in i['items'] if k in D.bodies}))
    return out


def inherent(D, ty):
    """{method: body key} of a type's own functions; ty is the bare name."""
    out = {}
    for i in D.impls:
        if not i.get('trait') and bare(D.tys(i['self'])) == ty:
            out.update({n: k for n, k in i['items'] if k in D.bodies})
    return out


def bare(s):
    return s.split('<')[0].split('::')[-1]


WRAP = ('to_vec', 'as_ref', 'as_slice', 'clone', 'into', 'from', 'as_bytes', 'deref', 'borrow', 'to_owned', 'into_boxed_slice', 'into_bytes', 'as_mut')


def strip(t):
    """Sees through conversions that keep the bytes."""
    while t.op == 'app' and isinstance(t.args[0], str) and t.args[0].split('::')[-1] in WRAP and len(t.args) == 2 and isinstance(t.args[1], T):
        t = t.args[1]
    return t


def lossy(t):
    """Does t come from something the interpretation gave up on (an unmodelled call, a join)?"""
    for x in subterms(t):
        if x.op in ('app', 'bv', 'lost', 'eff', 'arith', 'phi', 'coll'):
            return True
        if x.op == 'sym' and murky(x):
            return True
    return False


def same(t, want, maybe=()):
    """'ok' when t is want, 'unknown' when it may be, 'bad' when it is something else."""
    t = strip(t)
    if t is want or (t.op == 'fld' and t.args[0] is want and t.args[1] == 0 and not t.args[2]):
        return 'ok'
    if t.op == 'adt' and len(t.args) == 3 and strip(t.args[2]) is want:
        return 'ok'
    if any(contains(t, m) for m in maybe):
        return 'unknown'
    if t.op == 'upd' and t.args[0] is want and all(v.op not in ('fld', 'at', 'phi') for q, v in t.args[1]):
        return 'bad'
    if any(x.op == 'coll' and len(x.args) == 5 and x.args[1].op == 'of' and x.args[1].args[0] is want and x.args[4] and any(isinstance(kv, tuple) and kv[1].op in ('arith', 'int') for kv in x.args[4]) for x in ([t] + list(t.args) if t.op in ('upd', 'adt') else [t]) if isinstance(x, T)):
        return 'bad'
    return 'unknown' if lossy(t) else 'bad'


TAMPER = re.compile(r'^(filtered|sorted|reversed|trunc|signed)$|(^|::)(to_\w*(lower|upper)case|trim\w*|strip_\w+|replace\w*|from_utf8_lossy|split\w*|digest|rev|sort\w*|dedup\w*|chunks_exact|escape\w*|wrapping_\w+|saturating_\w+|rotate_\w+|reverse_bits|swap_bytes|to_be|count_ones)$')
CHANGES = ('BitAnd', 'BitOr', 'BitXor', 'Shr', 'Shl', 'Rem', 'Div', 'Not', 'Add', 'Sub', 'Mul', 'bitand', 'bitor', 'bitxor', 'shr', 'shl', 'rem', 'div', 'not')


def tampered(t, isroot):
    """Why t, which comes from a root value, is certainly not that value unchanged; None when it may be."""
    t = strip(t)
    if isroot(t):
        return None
    kids = [x for x in t.args if isinstance(x, T)]
    if t.op in ('sorted', 'trunc') or t.op == 'app' and isinstance(t.args[0], str) and TAMPER.search(t.args[0]) or t.op == 'arith' and any(str(a).split(':')[0] in CHANGES for a in t.args if isinstance(a, str)):
        if any(isroot(y) for x in kids for y in subterms(x)):
            return show(t, 4)
    if t.op in ('app', 'sub', 'fld', 'at', 'arith', 'upd', 'coll', 'adt', 'of', 'eff'):
        for x in kids + [kv[1] for kv in (t.args[4] if t.op == 'coll' else t.args[1] if t.op == 'upd' else ())]:
            w = tampered(x, isroot)
            if w:
                return w
    return None


def reshaped(l, isroot):
    """[(call, place)] that certainly change the root value: what they drop or reorder was derived from it."""
    out = []
    for n, v, rest, at in l.reshapes:
        if DROPS.match(n):
            if any(isroot(x) for x in subterms(v)):
                out.append((n, at))
        else:
            b = v
            while True:
                c = strip(b)
                c = c.args[1] if c.op == 'iter' and c.args[0] == 'src' else c
                if c is b:
                    break
                b = c
            if isroot(b):
                out.append((n, at))
    return out


def arg(i):
    return sym(('arg', i))


def okv(p):
    """Payload of an Ok result, or None."""
    v = p.value
    return v.args[2] if v.op == 'adt' and v.args[0].endswith('Result') and v.args[1] == 'Ok' else None


def is_err(p):
    v = p.value
    return v.op == 'adt' and v.args[0].endswith('Result') and v.args[1] == 'Err'


def exts(p):
    return [e for e in p.log if e[0] == 'ext']


def unit(R, prop, D, M, cfg, key, notes, analysed, stats, listener=None, **kw):
    """Paths of one body; None (with a note) when it cannot be interpreted."""
    it, ps = run_unit(D, M, key, listener, **kw)
    if isinstance(ps, str):
        notes.append('%s [%s]: not decided (%s)' % (key, cfg, ps))
        stats['bodies_not_decided'] += 1
        return it, None
    stats['bodies'] += 1
    stats['paths'] += len(ps)
    stats['abstract_steps'] += it.steps
    analysed.setdefault('functions', set()).add(short(key))
    return it, ps


def where(D, key):
    return D.bodies[key].get('span', '')


def absent(R, prop, rule, cfg, what, notes):
    notes.append('%s [%s]: not found' % (what, cfg))
    R.check(prop, rule, (cfg, what, 'absent'), 'unknown', '-', what + ' not found')


# ---- C13: storage backends ------------------------------------------------------------------
WRITES = re.compile(r'^((Hash|BTree)Map::insert|WriteBatch(WithTransaction)?::put|DBWithThreadMode::put(_opt)?)$')
DELS = re.compile(r'^((Hash|BTree)Map::remove|WriteBatch(WithTransaction)?::delete|DBWithThreadMode::delete(_opt)?)$')
READS = re.compile(r'^DBWithThreadMode::get(_pinned)?(_opt)?$')
FALLIBLE = re.compile(r'^DBWithThreadMode::(get|put|delete|write|open|flush|merge|ingest)\w*$')
MUTATES = re.compile(r'^((Hash|BTree)Map::(insert|remove|clear|retain|drain|entry)|DBWithThreadMode::(put|delete|merge|write|ingest|drop|create|set)\w*)$')
PUTSDELS = re.compile(r'^DBWithThreadMode::(put|delete|merge|write|ingest|drop|create|set)\w*$')
FLUSHES = re.compile(r'^DBWithThreadMode::write(_opt|_without_wal)?$')


def codec_opaque(D):
    o = set()
    for tr in ('Encode', 'Decode'):
        for s, m in impls(D, tr):
            if bare(s) == 'TreeNode':
                o |= set(m.values())
    return o


def unencode(t, D):
    """x when t is the encoding of x as the crate's codec produces it."""
    if t.op == 'fld' and t.args[1] == 0 and t.args[2] == 'Ok':
        t = t.args[0]
        if t.op == 'app' and isinstance(t.args[0], str) and t.args[0].split('::')[-1] == 'encode' and len(t.args) == 2:
            return t.args[1]
    return None


def undecode(t):
    if t.op == 'fld' and t.args[1] == 0 and t.args[2] == 'Ok':
        t = t.args[0]
        if t.op == 'app' and isinstance(t.args[0], str) and t.args[0].split('::')[-1] == 'decode' and len(t.args) == 2:
            return strip(t.args[1])
    return None


def errors_kept(R, prop, D, cfg, key, p, i):
    """A failure reported by the storage engine must not end in success."""
    for e in exts(p):
        if not FALLIBLE.match(e[1]):
            continue
        r = e[3] if len(e) > 3 else None
        f = fact_variant(p.facts, r) if r is not None else None
        if is_err(p):
            continue
        direct = p.value is r
        v = 'ok' if f == 'Ok' or direct else 'bad' if okv(p) is not None else 'unknown'
        R.check(prop, 'errors-kept', (cfg, key, i, e[1]), v, where(D, key), 'the result of %s %s' % (e[1], 'must be Ok for success' if v == 'ok' else 'is %s when success is returned' % (f or 'not examined')), short(key))


NEUTRAL = re.compile(r'::(len|is_empty|contains_key|get\w*|iter|keys|values|capacity|size_in_bytes|data|default|new|with_capacity\w*|encode|decode|clone|as_ref|reserve|shrink_to_fit|key_may_exist\w*)$|^default$')
DESTROYS = re.compile(r'::(clear|retain|drain|truncate|merge|merge_cf|delete_range\w*|destroy|drop_cf|delete_file\w*|split_off|extract_if|pop\w*|drain_filter|set_\w+)$')


def spurious(R, P, D, cfg, k, p, i):
    """An error must come from something that failed."""
    if not is_err(p):
        return
    failed = any(isinstance(f, tuple) and f[0] == 'v' and x == 'Err' for f, x in p.facts.items())
    derived = any(t.op in ('app', 'anyerr', 'phi', 'bv', 'lost') or t.op == 'fld' and t.args[2] == 'Err' for t in subterms(p.value))
    R.check(P, 'errors-have-a-cause', (cfg, k, i), 'ok' if failed or derived else 'bad', where(D, k), 'an error is returned though nothing failed', short(k))


def map_writes(post):
    """[(key, value)] written through references into maps, as the final state shows them."""
    out = []
    for t in subterms(post) if post is not None else ():
        if t.op == 'coll' and len(t.args) == 5 and t.args[4]:
            for kv in t.args[4]:
                if isinstance(kv, tuple) and len(kv) == 2:
                    out.append(kv)
                elif isinstance(kv, T) and kv.op == 'tup' and len(kv.args) == 2:
                    out.append(kv.args)
        elif t.op == 'upd':
            for q, v in t.args[1]:
                if q and q[0] == 'x':
                    out.append((q[1], v))
    return out


def destroys(R, P, D, cfg, k, p, i, self, ok=lambda e, before: False):
    log = exts(p)
    for j, e in enumerate(log):
        if DESTROYS.search(e[1]) and (e[1].endswith('::destroy') or e[2] and contains(e[2][0], self)):
            R.check(P, 'nothing-else-changed', (cfg, k, i, e[1]), 'ok' if ok(e, log[:j]) else 'bad', where(D, k), '%s is called on the store' % e[1], short(k))


def intrudes(R, P, D, cfg, k, p, i, what, bad):
    """A method other than the writers changes the store itself."""
    for e in exts(p):
        if bad.match(e[1]):
            R.check(P, 'nothing-else-changed', (cfg, k, i, e[1]), 'bad', where(D, k), '%s calls %s' % (what, e[1]), short(k))


def c05(R, D, M, cfg, stats, notes, analysed):
    """A backend's lookup leaves the store alone (the walks over the tree are judged in rules.py)."""
    P = 'C05'
    for ty, ms in impls(D, 'Database'):
        if 'get_node' not in ms:
            continue
        k = ms['get_node']
        it, ps = unit(R, P, D, M, cfg, k, notes, analysed, stats, MapErrUnit(), opaque=codec_opaque(D))
        for i, p in enumerate(ps or []):
            ch = [e[1] for e in exts(p) if MUTATES.match(e[1]) or DESTROYS.search(e[1]) and e[2] and contains(e[2][0], arg(1))]
            R.check(P, 'backend-lookup-is-pure', (cfg, k, i), 'bad' if ch else 'ok', where(D, k), 'a lookup in the backend calls %s' % (', '.join(ch) or 'nothing that changes it'), short(k))


def already_there(D, p, node, self):
    """Does the path know that everything in the node is already in the store?"""
    seen = set()
    for f, x in p.facts.items():
        bound = isinstance(f, tuple) and f[0] == 'b'
        f = f[1] if isinstance(f, tuple) else f
        if x is False or not (contains(f, node) and contains(f, self)) or bound and x != (0, 0):
            continue
        parts = {t.args[1] for t in subterms(f) if t.op == 'fld' and t.args[0] is node}
        if not parts or f.op not in ('eq', 'eq0') and not bound:
            return True
        seen |= parts
    names = fields(D, 'TreeNode')['variants'][0]['f']
    return len(seen) >= len(names)


def c13(R, D, M, cfg, stats, notes, analysed):
    P = 'C13'
    self, A2, A3 = arg(1), arg(2), arg(3)
    found = 0
    opq = codec_opaque(D)
    for ty, ms in impls(D, 'Database'):
        if not {'get_node', 'insert', 'remove', 'batch_write'} <= set(ms):
            continue
        found += 1
        rocks = 'rocks' in ty.lower()
        run = lambda m: unit(R, P, D, M, cfg, ms[m], notes, analysed, stats, MapErrUnit() if m in ('get_node', 'open') else MapUnit(), opaque=opq)
        # insert
        it, ps = run('insert')
        for i, p in enumerate(ps or []):
            k = ms['insert']
            errors_kept(R, P, D, cfg, k, p, i)
            spurious(R, P, D, cfg, k, p, i)
            destroys(R, P, D, cfg, k, p, i, self)
            if is_err(p):
                continue
            ws = [e for e in exts(p) if WRITES.match(e[1])]
            other = [e for e in exts(p) if not WRITES.match(e[1])]
            idn = (cfg, k, i)
            if not ws:
                post = p.post(1)
                inner = map_writes(post)
                if inner:
                    for ka, va in inner:
                        R.check(P, 'insert-key', idn, same(ka, A2), where(D, k), 'the node is stored under %s' % show(ka, 4), short(k))
                        R.check(P, 'insert-value', idn, same(va, A3), where(D, k), 'the stored value is %s' % show(va, 4), short(k))
                    continue
                idle = all(NEUTRAL.search(e[1]) or not any(contains(x, self) for x in e[2]) for e in other)
                equal = already_there(D, p, A3, self)
                fresh = post is not None and post.op == 'upd' and post.args[0] is self and all(v.op == 'adt' and not any(t.op in ('eff', 'phi', 'bv', 'coll') for t in subterms(v)) for q, v in post.args[1])
                v = 'bad' if idle and not equal and (post is self or fresh) else 'unknown'
                R.check(P, 'insert-stores', idn, v, where(D, k), 'success without putting the node anywhere', short(k))
                continue
            e = ws[-1]
            base, ka, va = e[2][0], e[2][-2], e[2][-1]
            kv = same(ka, A2)
            R.check(P, 'insert-key', idn, kv, where(D, k), 'the node is stored under %s' % show(ka, 4), short(k))
            x = unencode(strip(va), D)
            vv = same(va if x is None else x, A3)
            if x is None and vv == 'bad' and contains(va, A3):
                vv = 'unknown'
            R.check(P, 'insert-value', idn, vv, where(D, k), 'the stored value is %s' % show(va, 4), short(k))
            post = p.post(1)
            effs = [t for t in subterms(post) if t.op == 'eff' and WRITES.match(str(t.args[0]))] if post is not None else []
            direct = e[1].startswith('DB')
            v = 'ok' if direct or effs else 'bad' if post is self else 'unknown'
            if effs and not direct:
                base = effs[-1].args[2]
                while base.op == 'eff':
                    base = base.args[2]
                if contains(base, self):
                    pass
                elif base.op == 'app' and base.args[0] == 'default' or base.op == 'seq':
                    # a fresh container replaces the one in self: only allowed when there was none
                    had = [f for f, x in p.facts.items() if isinstance(f, tuple) and f[0] == 'v' and contains(f[1], self) and f[1].op == 'fld' and x == 'None']
                    v = 'ok' if had else 'bad' if not rocks or any(isinstance(f, tuple) and f[0] == 'v' and x == 'Some' and f[1].op == 'fld' and f[1].args[0] is self for f, x in p.facts.items()) else 'unknown'
                else:
                    v = 'unknown'
            R.check(P, 'insert-kept', idn, v, where(D, k), 'the write goes to %s' % show(base, 4), short(k))
        # remove
        it, ps = run('remove')
        for i, p in enumerate(ps or []):
            k = ms['remove']
            errors_kept(R, P, D, cfg, k, p, i)
            spurious(R, P, D, cfg, k, p, i)
            pass
            if is_err(p):
                continue
            idn = (cfg, k, i)
            ds = [e for e in exts(p) if DELS.match(e[1])]
            if not ds:
                looks = lookups(p, self)
                absentkey = any(x == 'None' and same(l, A2) == 'ok' for l, x in looks)
                idle = all(NEUTRAL.search(e[1]) for e in exts(p))
                v = 'ok' if absentkey else 'bad' if p.post(1) in (self, None) and idle and (looks or not exts(p)) or map_writes(p.post(1)) and idle else 'unknown'
                R.check(P, 'remove-deletes', idn, v, where(D, k), 'success without deleting the node', short(k))
            for e in ds:
                R.check(P, 'remove-deletes', idn + (e[1],), same(e[2][1], A2), where(D, k), '%s deletes %s' % (e[1], show(e[2][1], 4)), short(k))
                if not e[1].startswith('DB'):
                    post = p.post(1)
                    kept = post is not None and any(t.op == 'eff' and DELS.match(str(t.args[0])) for t in subterms(post))
                    v = 'ok' if kept else 'bad' if post is self else 'unknown'
                    if v == 'unknown' and post is not None and post.op == 'upd' and any(t.op == 'seq' and len(t.args) == 1 for _, t in post.args[1]):
                        # the whole map is emptied: only allowed when nothing else can be in it
                        sizes = [(f[1], x) for f, x in p.facts.items() if isinstance(f, tuple) and f[0] == 'b' and f[1].op == 'len' and contains(f[1], self)]
                        after = [x for t, x in sizes if any(y.op == 'eff' for y in subterms(t))]
                        v = 'ok' if (0, 0) in after else 'bad' if len(after) == len(sizes) else 'unknown'
                    R.check(P, 'remove-kept', idn, v, where(D, k), 'the deletion reaches the store', short(k))
        # get_node
        it, ps = run('get_node')
        for i, p in enumerate(ps or []):
            k = ms['get_node']
            errors_kept(R, P, D, cfg, k, p, i)
            spurious(R, P, D, cfg, k, p, i)
            destroys(R, P, D, cfg, k, p, i, self)
            intrudes(R, P, D, cfg, k, p, i, 'a lookup', MUTATES)
            if is_err(p):
                continue
            idn = (cfg, k, i)
            o = okv(p)
            looks = lookups(p, self)
            if o is None:
                R.check(P, 'get-reads', idn, 'unknown', where(D, k), 'returns %s' % show(p.value, 4), short(k))
                continue
            if o.op == 'adt' and o.args[1] == 'None':
                good = [l for l in looks if l[1] == 'None' and same(l[0], A2) == 'ok']
                v = 'ok' if good else 'bad' if all(same(l[0], A2) == 'ok' for l in looks) and (looks and all(l[1] == 'Some' for l in looks) or not looks and not exts(p)) else 'unknown'
                R.check(P, 'get-reads', idn, v, where(D, k), 'answers "absent" when the lookup of the key %s' % ('found nothing' if good else 'did not say so'), short(k))
            elif o.op == 'adt' and o.args[1] == 'Some':
                val = strip(o.args[2])
                src = undecode(val)
                tgt = strip(src) if src is not None else val
                keyt = read_key(tgt, self)
                if keyt is None and tgt.op == 'upd' and read_key(tgt.args[0], self) is not None and all(v.op not in ('fld', 'at', 'phi') for q, v in tgt.args[1]):
                    R.check(P, 'get-reads', idn, 'bad', where(D, k), 'answers with an altered record: %s' % show(val, 5), short(k))
                    continue
                v = same(keyt, A2) if keyt is not None else 'bad' if not lossy(tgt) and not contains(tgt, self) else 'unknown'
                R.check(P, 'get-reads', idn, v, where(D, k), 'answers with %s' % show(val, 5), short(k))
            else:
                altered = o.op == 'upd' and o.args[0].op == 'opt' and any(q == (0, 'Some') and x.op == 'upd' and all(y.op not in ('fld', 'at', 'phi') for _, y in x.args[1]) for q, x in o.args[1])
                v = 'bad' if altered else same(o.args[0].args[2], A2) if o.op == 'opt' and o.args[0].op == 'key' else 'unknown'
                R.check(P, 'get-reads', idn, v, where(D, k), 'answers with %s' % show(o, 5), short(k))
        # batch_write
        it, ps = run('batch_write')
        for i, p in enumerate(ps or []):
            k = ms['batch_write']
            errors_kept(R, P, D, cfg, k, p, i)
            spurious(R, P, D, cfg, k, p, i)
            destroys(R, P, D, cfg, k, p, i, self, lambda e, before: e[1].endswith('::clear') and any(FLUSHES.match(b[1]) for b in before))
            if is_err(p):
                continue
            idn = (cfg, k, i)
            post = p.post(1)
            pend = [f[1] for f, x in p.facts.items() if isinstance(f, tuple) and f[0] == 'v' and x == 'Some' and f[1].op == 'fld' and f[1].args[0] is self]
            fl = [e for e in exts(p) if FLUSHES.match(e[1])]
            if not pend and not fl:
                none = [f for f, x in p.facts.items() if isinstance(f, tuple) and f[0] == 'v' and x == 'None' and f[1].op == 'fld' and f[1].args[0] is self]
                if rocks and not none:
                    v = 'bad' if not exts(p) else 'unknown'
                else:
                    v = 'ok' if rocks or post is self or post is None else 'bad' if not lossy(post) or drops(post) or any(t.op == 'app' and t.args[0] == 'filtered' and contains(t.args[1], self) for t in subterms(post)) else 'unknown'
                R.check(P, 'flush-writes', idn, v, where(D, k), 'nothing pending: the store is left as %s' % (show(post, 4) if post is not None else 'it was'), short(k))
                continue
            batch = [mk('fld', q, 0, 'Some') for q in pend]
            if fl:
                b = fl[-1][2][1]
                v = 'ok' if any(b is x for x in batch) else 'bad' if not contains(b, self) and not murky_batch(b) else 'unknown'
                R.check(P, 'flush-writes', idn, v, where(D, k), 'the batch written is %s' % show(b, 4), short(k))
                left = field_of(post, self, pend[0]) if pend else None
                v = 'unknown' if left is None else 'bad' if left is pend[0] or (left.op == 'adt' and left.args[1] == 'Some' and strip(left.args[2]) in batch) else 'ok' if not contains(left, pend[0]) or emptied(left) else 'unknown'
                R.check(P, 'flush-clears', idn, v, where(D, k), 'after a flush the pending batch is %s' % (show(left, 4) if left is not None else '?'), short(k))
            else:
                empty = any(known_empty(p, b) for b in batch)
                asked = [f for f in p.facts if any(contains(f[1] if isinstance(f, tuple) else f, b) for b in batch)]
                only = all(re.search(r'WriteBatch\w*::(len|is_empty)', show(f[1] if isinstance(f, tuple) else f, 6)) for f in asked)
                v = 'ok' if empty else 'bad' if only else 'unknown'
                R.check(P, 'flush-writes', idn, v, where(D, k), 'success with a pending batch that was not written', short(k))
        if 'open' in ms:
            it, ps = run('open')
            for i, p in enumerate(ps or []):
                k = ms['open']
                errors_kept(R, P, D, cfg, k, p, i)
                spurious(R, P, D, cfg, k, p, i)
                destroys(R, P, D, cfg, k, p, i, self)
                intrudes(R, P, D, cfg, k, p, i, 'opening a store', PUTSDELS)
                for e in exts(p):
                    if FALLIBLE.match(e[1]) and '::open' in e[1]:
                        R.check(P, 'open-path', (cfg, k, i), same(e[2][-1], arg(1)), where(D, k), 'opens %s' % show(e[2][-1], 4), short(k))
        for m, k in ms.items():
            it, ps = run_unit(D, M, k, opaque=opq)
            for n, at in sorted(it.unknown_calls.items()):
                if re.search(r'::(destroy|drop_cf|delete_file\w*|delete_range\w*)$', n):
                    R.check(P, 'nothing-else-changed', (cfg, k, n), 'bad', at, '%s is called' % n, short(k))
        own = inherent(D, bare(ty))
        for m in ('new', 'decompose'):
            k = own.get(m)
            if not k:
                continue
            it, ps = unit(R, P, D, M, cfg, k, notes, analysed, stats, opaque=opq)
            for i, p in enumerate(ps or []):
                v = p.value
                if m == 'new':
                    r = 'ok' if v.op == 'adt' and any(holds(x, self) for x in v.args[2:]) else 'unknown' if lossy(v) else 'bad'
                else:
                    r = 'ok' if v.op == 'fld' and unwrapped(v, self) else 'unknown' if lossy(v) else 'bad'
                R.check(P, 'same-store', (cfg, k, i), r, where(D, k), '%s gives %s' % (m, show(v, 4)), short(k))
    if not found:
        absent(R, P, 'backend', cfg, 'a storage backend', notes)


def holds(t, x):
    """t is x, or x within wrappers of its own."""
    while t is not x and t.op == 'adt' and len(t.args) == 3:
        t = t.args[2]
    return t is x


def unwrapped(t, self):
    """A field of self, or of a wrapper that is one."""
    while t.op == 'fld' and t.args[0] is not self and t.args[1] == 0:
        t = t.args[0]
    return t.op == 'fld' and t.args[0] is self


def drops(post):
    return any(t.op == 'eff' and re.search(r'::(clear|drain|retain|truncate)$', str(t.args[0])) for t in subterms(post))


def murky_batch(b):
    return not (b.op == 'app' and b.args[0] == 'default')


def emptied(left):
    return any(t.op == 'eff' and str(t.args[0]).endswith('::clear') for t in subterms(left))


def known_empty(p, b):
    for f, x in p.facts.items():
        t = f[1] if isinstance(f, tuple) else f
        if isinstance(t, T) and contains(t, b):
            s = show(t, 6)
            if '::is_empty' in s and t.op == 'app' and x is True:
                return True
            if '::len' in s and isinstance(f, tuple) and f[0] == 'b' and t.op == 'app' and x[1] == 0:
                return True
            if '::len' in s and t.op == 'eq0' and x is True and t.args[0].op == 'app':
                return True
    return False


def field_of(post, self, fieldterm):
    """Value of self.<field> after the call."""
    if post is None:
        return None
    if post is self:
        return fieldterm
    if post.op == 'upd' and post.args[0] is self:
        for path, v in post.args[1]:
            if path and path[0] == fieldterm.args[1]:
                return v
        return fieldterm
    if post.op == 'adt':
        try:
            return post.args[2 + fieldterm.args[1]]
        except Exception:
            return None
    return None


def lookups(p, self):
    """[(key term, 'Some'/'None')] of the lookups in the store whose outcome this path knows."""
    out = []
    for f, x in p.facts.items():
        if isinstance(f, T) and f.op == 'boolapp' and f.args[0] == 'contains' and contains(f.args[1], self) and x in (True, False):
            out.append((f.args[2], 'Some' if x else 'None'))
        if not (isinstance(f, tuple) and f[0] == 'v' and x in ('Some', 'None')):
            continue
        t = f[1]
        if t.op == 'opt' and t.args[0].op == 'key' and t.args[0].args[0] == 'mapget' and contains(t.args[0].args[1], self):
            out.append((t.args[0].args[2], x))
        elif t.op == 'fld' and t.args[2] == 'Ok' and t.args[0].op == 'app' and READS.match(str(t.args[0].args[0])):
            out.append((t.args[0].args[2], x))
    return out


def read_key(t, self):
    """Key under which the value t was found in the store."""
    if t.op == 'at' and contains(t.args[0], self):
        return t.args[1]
    if t.op == 'fld' and t.args[2] == 'Some' and t.args[1] == 0:
        t = t.args[0]
        if t.op == 'fld' and t.args[2] == 'Ok' and t.args[0].op == 'app' and READS.match(str(t.args[0].args[0])):
            return t.args[0].args[2]
    return None


CONFIGS['C13'] = (['default', 'hashbrown', 'rocksdb', 'rocksdb+release'], ['rocksdb+release', 'hashbrown+release', 'default', 'hashbrown', 'rocksdb', 'bincode', 'json', 'cbor', 'yaml', 'pickle', 'ron'])
CONFIGS['C05'] = (['default', 'rocksdb'], ['default', 'hashbrown', 'rocksdb', 'rocksdb+release'])
RULES['C05'] = c05
RULES['C13'] = c13


# ---- C14: codecs ----------------------------------------------------------------------------
ENC = {'bincode::serialize': 'bincode', 'serde_json::to_string': 'json', 'serde_json::to_vec': 'json', 'serde_json::to_string_pretty': 'json', 'serde_json::to_vec_pretty': 'json',
       'ciborium::into_writer': 'cbor', 'serde_yaml::to_vec': 'yaml', 'serde_yaml::to_string': 'yaml', 'serde_pickle::to_vec': 'pickle', 'ron::to_string': 'ron', 'ser::to_string': 'ron',
       'ser::into_writer': 'cbor', 'ser::to_vec': 'any'}
DEC = {'bincode::deserialize': 'bincode', 'serde_json::from_str': 'json', 'serde_json::from_slice': 'json', 'ciborium::from_reader': 'cbor', 'de::from_reader': 'any', 'serde_yaml::from_slice': 'yaml',
       'serde_yaml::from_str': 'yaml', 'serde_pickle::from_slice': 'pickle', 'de::from_bytes': 'ron', 'de::from_str': 'ron', 'ron::from_str': 'ron', 'de::from_slice': 'any'}
RESHAPE = re.compile(r'::(truncate|pop|push|remove|clear|reverse|swap|drain|retain|insert|extend\w*|dedup\w*|resize|split_off|rotate_\w+|fill|append|set|write\w*)$')
RECORDS = ('TreeBranch', 'TreeLeaf', 'TreeData', 'TreeNode')


def okfld(t):
    """x when t is the success payload of a call x."""
    if t.op == 'fld' and t.args[1] == 0 and t.args[2] == 'Ok' and t.args[0].op == 'app':
        return t.args[0]
    return None


def libout(t, tab):
    """Is t the output of a library (de)serialiser?"""
    c = okfld(t)
    return c is not None and c.args[0] in tab or t.op == 'eff' and t.args[0] in tab or t.op == 'app' and t.args[0] in tab


def encoded(t):
    """(library, value) when t is exactly the output of a serialiser; (None, why) otherwise; why 'altered' when an output is changed afterwards."""
    t = strip(t)
    c = okfld(t)
    if c is not None and c.args[0] in ENC:
        return ENC[c.args[0]], c.args[1]
    if t.op == 'eff' and t.args[0] in ENC and t.args[1] == 0:
        base = t.args[-1]
        if base.op == 'seq' and len(base.args) <= 2 and not any(base.args[1:]):
            return ENC[t.args[0]], t.args[2]
        return None, 'altered' if not lossy(base) else 'unknown'
    if t.op == 'eff' and RESHAPE.search('::' + str(t.args[0])):
        b = t.args[2 + t.args[1]] if len(t.args) > 2 + t.args[1] else None
        if b is not None and encoded(b)[0]:
            return None, 'altered'
    if t.op in ('sub', 'upd', 'coll') and any(encoded(x)[0] for x in subterms(t) if x is not t and x.op in ('fld', 'eff')):
        return None, 'altered'
    if tampered(t, lambda x: libout(x, ENC)):
        return None, 'altered'
    if not lossy(t):
        return None, 'constant'
    return None, 'unknown'


def decoded(t):
    t = strip(t)
    c = okfld(t)
    if c is not None and c.args[0] in DEC:
        src = strip(c.args[1])
        u = okfld(src)
        if u is not None and str(u.args[0]).split('::')[-1] in ('from_utf8',):
            src = strip(u.args[1])
        return (None, 'altered') if tampered(src, lambda x: x is arg(1)) else (DEC[c.args[0]], src)
    if t.op in ('upd', 'adt') and any(okfld(x) is not None and okfld(x).args[0] in DEC for x in subterms(t)):
        return None, 'altered'
    if c is not None and tampered(c, lambda x: x is arg(1)):
        return None, 'altered'
    if not lossy(t):
        return None, 'constant'
    return None, 'unknown'


def fields(D, ty):
    for path, a in D.adts.items():
        if path.split('::')[-1] == ty and a.get('local', True):
            return a
    return None


def c14(R, D, M, cfg, stats, notes, analysed):
    P = 'C14'
    run = lambda k, **kw: unit(R, P, D, M, cfg, k, notes, analysed, stats, **kw)
    libs = {}
    for tr, m, f in (('Encode', 'encode', encoded), ('Decode', 'decode', decoded)):
        seen = set()
        for ty, ms in impls(D, tr):
            if m not in ms:
                continue
            k = ms[m]
            it, ps = run(k)
            seen.add(bare(ty))
            for i, p in enumerate(ps or []):
                if is_err(p):
                    continue
                o = okv(p)
                idn = (cfg, k, i)
                tab = ENC if tr == 'Encode' else DEC
                for e in exts(p):
                    if e[1] in tab and len(e) > 3:
                        r = e[3]
                        fv = fact_variant(p.facts, r)
                        direct = any(r is x for x in subterms(p.value))
                        R.check(P, 'failures-kept', idn + (e[1],), 'ok' if fv == 'Ok' or direct and fv != 'Err' else 'bad' if o is not None else 'unknown', where(D, k), 'success although %s %s' % (e[1], 'failed' if fv == 'Err' else 'was not asked whether it failed'), short(k))
                for n, at in reshaped(it.listener, lambda x: libout(x, tab) or x is arg(1))[:1] if it.listener else ():
                    R.check(P, m + 's-all', (cfg, k, 'reshaped', n), 'bad', at, 'the bytes go through %s' % n, short(k))
                if o is None:
                    # the library's own result handed through
                    c = p.value if p.value.op == 'app' else None
                    tab = ENC if tr == 'Encode' else DEC
                    good = c is not None and c.args[0] in tab and strip(c.args[1]) is arg(1)
                    R.check(P, m + 's-all', idn, 'ok' if good else 'unknown', where(D, k), 'returns %s' % show(p.value, 4), short(k))
                    continue
                if bare(ty) not in RECORDS:
                    v = 'ok' if strip(o) is arg(1) else 'unknown' if lossy(o) else 'bad'
                    R.check(P, m + 's-all', idn, v, where(D, k), 'bytes are passed on as %s' % show(o, 4), short(k))
                    continue
                lib, x = f(o)
                if lib is None:
                    v = {'altered': 'bad', 'constant': 'bad'}.get(x, 'unknown')
                    R.check(P, m + 's-all', idn, v, where(D, k), 'returns %s, which is not the library\'s own %s' % (show(o, 5), 'output' if tr == 'Encode' else 'reading of the bytes'), short(k))
                else:
                    R.check(P, m + 's-all', idn, rebuilt(x) if tr == 'Encode' and bare(ty) in RECORDS and x.op == 'adt' else same(x, arg(1)), where(D, k), '%s of %s' % (lib, show(x, 4)), short(k))
                    libs.setdefault(bare(ty), {}).setdefault(tr, set()).add(lib)
        for ty in RECORDS:
            if ty not in seen:
                absent(R, P, m + 's-all', cfg, '%s for %s' % (tr, ty), notes)
    for ty, d in sorted(libs.items()):
        a, b = d.get('Encode', set()), d.get('Decode', set())
        if a and b:
            v = 'ok' if a == b or 'any' in a | b else 'bad' if len(a) == len(b) == 1 else 'unknown'
            R.check(P, 'codecs-agree', (cfg, ty), v, '-', '%s is written as %s and read as %s' % (ty, '/'.join(sorted(a)), '/'.join(sorted(b))), ty)
    serde_records(R, D, M, cfg, run, notes)
    serde_array(R, D, M, cfg, run, notes)


def rebuilt(x):
    """A record put together again from the fields of the one to encode."""
    v = 'ok'
    for j, f in enumerate(x.args[2:]):
        f = strip(f)
        if f.op == 'fld' and f.args[0] is arg(1) and f.args[1] == j:
            continue
        if f.op in ('int', 'seq') or f.op == 'app' and f.args[0] in ('default', 'repeat') or f.op == 'fld' and f.args[0] is arg(1) or tampered(f, lambda t: t is arg(1)):
            return 'bad'
        v = 'unknown'
    return v


def serde_records(R, D, M, cfg, run, notes):
    """Each record's serde implementation writes every field under a name that reads back into the same field."""
    P = 'C14'
    sers = {bare(t): m for t, m in impls(D, 'Serialize')}
    vis = {}
    for t, m in impls(D, 'Visitor'):
        mm = re.search(r"de> for ([\w:]+)", t)
        ty = mm.group(1).split('::')[-1] if mm else bare(t)
        vis.setdefault(ty, {}).update(m)
    for ty in RECORDS:
        a = fields(D, ty)
        if a is None or ty not in sers or ty not in vis:
            absent(R, P, 'fields-written', cfg, 'serde implementation of ' + ty, notes)
            continue
        names = [f[0] for f in a['variants'][0]['f']]
        k = sers[ty]['serialize']
        it, ps = run(k)
        written = None
        for i, p in enumerate(ps or []):
            if is_err(p):
                continue
            w = [(e[2][1].args[0] if e[2][1].op == 'str' else None, e[2][2]) for e in exts(p) if e[1].split('::')[-1] == 'serialize_field']
            idn = (cfg, k, i)
            if not w or not any(e[1].split('::')[-1] == 'serialize_struct' for e in exts(p)):
                R.check(P, 'fields-written', idn, 'unknown', where(D, k), 'not the field-by-field form', short(k))
                continue
            written = [n for n, _ in w]
            for j, n in enumerate(names):
                # which entries carry field j?
                carr = [q for q, (_, x) in enumerate(w) if strip(x) is mk('fld', arg(1), j, '')or strip(x) is fldterm(arg(1), j)]
                lost = any(lossy(x) and contains(x, fldterm(arg(1), j)) for _, x in w)
                v = 'ok' if len(carr) == 1 and carr[0] == j and len(w) == len(names) else 'unknown' if lost or len(carr) == 1 and len(w) != len(names) else 'bad'
                R.check(P, 'fields-written', idn + (n,), v, where(D, k), 'field %s of %s is %s' % (n, ty, 'written at position %d' % j if v == 'ok' else 'not written in its place'), short(k))
        vm = vis[ty]
        back = {}
        if 'visit_str' in vm:
            it, ps = run(vm['visit_str'])
            for p in ps or []:
                o = okv(p)
                if o is not None and o.op == 'adt':
                    for f, x in p.facts.items():
                        if isinstance(f, T) and f.op == 'eq' and x is True:
                            for s in f.args:
                                if isinstance(s, T) and s.op == 'str':
                                    back[s.args[0]] = o.args[1]
        if written and back:
            for j, n in enumerate(written):
                if j < len(names) and n is not None:
                    got = back.get(n)
                    v = 'ok' if got == '__field%d' % j else 'bad' if got is None or re.match(r'__(field\d+|ignore)$', got) else 'unknown'
                    R.check(P, 'names-agree', (cfg, ty, n), v, where(D, vm['visit_str']), '"%s" is read back into %s' % (n, got or 'nothing'), short(vm['visit_str']))
        if 'visit_seq' in vm:
            k = vm['visit_seq']
            it, ps = run(k)
            for i, p in enumerate(ps or []):
                o = okv(p)
                if o is None or o.op != 'adt' or bare(o.args[0]) != ty:
                    continue
                for j, n in enumerate(names):
                    x = strip(o.args[2 + j])
                    d = seq_pos(x)
                    v = 'ok' if d == j else 'bad' if d is not None or not lossy(x) else 'unknown'
                    R.check(P, 'fields-read', (cfg, k, i, n), v, where(D, k), 'field %s of %s is read from %s' % (n, ty, 'position %d' % d if d is not None else show(x, 4)), short(k))
        if 'visit_map' in vm:
            k = vm['visit_map']
            it, ps = run(k)
            for i, p in enumerate(ps or []):
                o = okv(p)
                if o is None or o.op != 'adt' or bare(o.args[0]) != ty:
                    continue
                for j, n in enumerate(names):
                    x = strip(o.args[2 + j])
                    c = okfld(x)
                    if c is not None and str(c.args[0]).endswith('missing_field') and c.args[1].op == 'str':
                        v = 'ok' if written is None or j >= len(written) or c.args[1].args[0] == written[j] else 'bad'
                        R.check(P, 'fields-read', (cfg, k, i, n), v, where(D, k), 'field %s of %s, when missing, is reported as "%s"' % (n, ty, c.args[1].args[0]), short(k))
                    elif x.op == 'phi' or lossy(x):
                        continue
                    else:
                        R.check(P, 'fields-read', (cfg, k, i, n), 'bad', where(D, k), 'field %s of %s is filled with %s' % (n, ty, show(x, 4)), short(k))
    # the node kinds
    ty = 'NodeVariant'
    if ty in sers and ty not in vis:
        k = sers[ty]['serialize']
        it, ps = run(k)
        for i, p in enumerate(ps or []):
            if exts(p) and all(e[1].endswith('Serialize::serialize') for e in exts(p)) and fact_variant(p.facts, arg(1)):
                R.check(P, 'kinds-kept', (cfg, k, i), 'bad', where(D, k), 'a %s is written without saying what kind it is' % fact_variant(p.facts, arg(1)), short(k))
    if ty not in sers or ty not in vis:
        absent(R, P, 'kinds-kept', cfg, 'serde implementation of ' + ty, notes)
        return
    k = sers[ty]['serialize']
    it, ps = run(k)
    codes = {}
    for i, p in enumerate(ps or []):
        kind = p.facts.get(('v', arg(1)))
        for e in exts(p):
            if e[1].split('::')[-1] == 'serialize_newtype_variant' and isinstance(kind, str):
                idx, name, val = e[2][2], e[2][3], e[2][4]
                codes[kind] = (idx.args[0] if idx.op == 'int' else None, name.args[0] if name.op == 'str' else None)
                v = 'ok' if strip(val) is mk('fld', arg(1), 0, kind) else 'unknown' if lossy(val) else 'bad'
                R.check(P, 'kinds-kept', (cfg, k, kind), v, where(D, k), 'a %s is written as variant %s "%s" with %s' % (kind, codes[kind][0], codes[kind][1], show(val, 3)), short(k))
    if len(set(codes.values())) != len(codes) and None not in codes.values():
        R.check(P, 'kinds-kept', (cfg, k, 'distinct'), 'bad', where(D, k), 'two node kinds are written alike: %s' % codes, short(k))
    vm = vis[ty]
    to = {}
    if 'visit_enum' in vm:
        it, ps = run(vm['visit_enum'])
        for p in ps or []:
            o = okv(p)
            if o is not None and o.op == 'adt':
                for f, x in p.facts.items():
                    if isinstance(f, tuple) and f[0] == 'v' and isinstance(x, str) and x.startswith('__field'):
                        to[x] = o.args[1]
    for m, ix in (('visit_str', 1), ('visit_u64', 0)):
        if m not in vm or not to:
            continue
        it, ps = run(vm[m])
        got = {}
        for p in ps or []:
            o = okv(p)
            if o is None or o.op != 'adt' or o.args[1] not in to:
                continue
            for f, x in p.facts.items():
                if isinstance(f, T) and f.op == 'eq' and x is True:
                    for s in f.args:
                        if isinstance(s, T) and s.op == 'str':
                            got[s.args[0]] = to[o.args[1]]
                if isinstance(f, tuple) and f[0] == 'b' and f[1] is arg(2) and x[0] == x[1]:
                    got[x[0]] = to[o.args[1]]
        for kind, c in sorted(codes.items()):
            if c[ix] is None or not got:
                continue
            g = got.get(c[ix])
            R.check(P, 'kinds-kept', (cfg, m, kind), 'ok' if g == kind else 'bad', where(D, vm[m]), 'variant %r is read back as %s' % (c[ix], g), short(vm[m]))


def fldterm(t, i):
    return mk('fld', t, i, None)


def seq_pos(x):
    """Position of the element of a sequence x was read from."""
    if x.op == 'fld' and x.args[2] == 'Some' and x.args[1] == 0:
        c = okfld(x.args[0])
        if c is not None and str(c.args[0]).endswith('next_element'):
            n, b = 0, c.args[1]
            while b.op == 'eff' and str(b.args[0]).endswith('next_element'):
                n, b = n + 1, b.args[2]
            return n
    return None


def serde_array(R, D, M, cfg, run, notes):
    """Fixed-size arrays are written element by element and read back completely."""
    P = 'C14'
    ser = [m['serialize'] for t, m in impls(D, 'Serialize') if bare(t) == 'Array' and 'serialize' in m]
    vs = [m['visit_seq'] for t, m in impls(D, 'Visitor') if bare(t) == 'ArrayVisitor' and 'visit_seq' in m]
    de = [m['deserialize'] for t, m in impls(D, 'Deserialize') if bare(t) == 'Array' and 'deserialize' in m]
    N = None
    for k in ser:
        it, ps = run(k)
        if ps is None:
            continue
        body = sym('x')
        wrote = [e for e in it.events if e.kind == 'cross' and any(x[0] == 'ext' and x[1].endswith('serialize_element') for x in e.log)]
        skip = [e for e in it.events if e.kind == 'cross' and not any(x[0] == 'ext' and x[1].endswith('serialize_element') for x in e.log)]
        for e in wrote:
            els = [x[2][1] for x in e.log if x[0] == 'ext' and x[1].endswith('serialize_element')]
            isarr = lambda t: strip(t) in (arg(1), fldterm(arg(1), 0), mk('fld', arg(1), 0, ''))
            v = 'ok' if len(els) == 1 and els[0].op == 'at' and isarr(els[0].args[0]) and plain_index(els[0].args[1]) else \
                'bad' if any(tampered(x, lambda t: t.op == 'at' and isarr(t.args[0])) for x in els) or len(els) == 1 and els[0].op == 'at' and isarr(els[0].args[0]) and moved_index(els[0].args[1]) else 'unknown'
            R.check(P, 'array-written', (cfg, k, 'el'), v, e.span, 'each step writes %s' % ', '.join(show(x, 3) for x in els), short(k))
        for e in skip:
            same_loop = any(e.extra[0] == w.extra[0] for w in wrote)
            R.check(P, 'array-written', (cfg, k, 'skip', e.extra[0]), 'bad' if same_loop else 'unknown', e.span, 'a step that writes no element', short(k))
        for i, p in enumerate(ps):
            if is_err(p) or not (okv(p) is not None or any(e[1].endswith('SerializeSeq::end') or e[1].endswith('::end') for e in exts(p))):
                continue
            ends = [x for x in p.log if x[0] == 'iterend']
            full = any(whole_iter(x[1], arg(1)) for x in ends)
            cut = it.listener.names & {'Iterator::' + x for x in ('take_while', 'skip_while', 'filter', 'filter_map', 'step_by', 'map_while')} if it.listener else ()
            v = 'ok' if full else 'bad' if ends and all(partial_iter(x[1], arg(1)) for x in ends) or not ends and not wrote and not exts(p) or cut else 'unknown'
            R.check(P, 'array-written', (cfg, k, i, 'all'), v, where(D, k), 'the loop covers %s' % (', '.join(show(x[1], 4) for x in ends) or 'no known range'), short(k))
    for k in ser:
        it, ps = run(k)
        for i, p in enumerate(ps or []):
            for e in exts(p):
                if e[1].endswith('serialize_seq') and len(e[2]) > 1:
                    n = e[2][1]
                    v = 'ok' if n.op == 'adt' and n.args[1] == 'None' or n.op == 'adt' and n.args[1] == 'Some' and (is_const_n(n.args[2]) or n.args[2].op == 'len' and strip(n.args[2].args[0]) in (arg(1), fldterm(arg(1), 0), mk('fld', arg(1), 0, ''))) else 'bad' if n.op == 'adt' and not lossy(n) else 'unknown'
                    R.check(P, 'array-written', (cfg, k, i, 'len'), v, where(D, k), 'the length announced is %s' % show(n, 4), short(k))
    for k in vs:
        it, ps = run(k)
        if ps is None:
            continue
        for e in it.events:
            if e.kind != 'cross':
                continue
            el = [x for x in e.log if x[0] == 'ext' and x[1].endswith('next_element')]
            st = []
            for v in e.extra[1].values():
                if v.op == 'coll':
                    st += [(ix, x) for ix, x in v.args[4]] if len(v.args) > 4 else []
            ok = False
            badw = None
            for ix, x in st:
                if nextel(x):
                    ok = plain_index(ix)
                    if not ok and (not lossy(ix) or moved_index(ix)):
                        badw = 'element stored at %s' % show(ix, 4)
                elif x.op == 'int' or x.op == 'app' and x.args[0] == 'default':
                    badw = '%s is stored for an element that is missing' % show(x, 3)
                elif tampered(x, nextel):
                    badw = 'the element is altered: %s' % show(x, 4)
            v = 'ok' if ok else 'bad' if badw else 'unknown'
            R.check(P, 'array-read', (cfg, k, 'el', e.extra[0]), v, e.span, badw or 'the next element is stored at the running index', short(k))
        for i, p in enumerate(ps):
            if okv(p) is None:
                continue
            ends = [x for x in p.log if x[0] == 'iterend']
            full = any(x[1].op == 'iter' and x[1].args[0] == 'range' and x[1].args[1] is I(0) and is_const_n(x[1].args[2]) or whole_coll(x[1]) for x in ends)
            nx = [(fact_variant(p.facts, e[3]), fact_variant(p.facts, mk('fld', e[3], 0, 'Ok'))) for e in exts(p) if len(e) > 3 and e[1].endswith('next_element')]
            v = 'bad' if any(a == 'Err' for a, _ in nx) else 'ok' if full else 'bad' if ends and all(short_range(x[1]) for x in ends) else 'unknown'
            over = [e for e in it.unknown_calls if e.endswith('next_element')]
            if full:
                R.check(P, 'array-read', (cfg, k, i, 'rest'), 'ok' if any(b == 'None' for _, b in nx) else 'bad' if not nx or all(b == 'Some' for _, b in nx) else 'unknown', where(D, k), 'bytes left over after the array are an error', short(k))
            R.check(P, 'array-read', (cfg, k, i, 'all'), v, where(D, k), 'success after the loop over %s' % (', '.join(show(x[1], 4) for x in ends) or 'no known range'), short(k))
    for k in de:
        it, ps = run(k)
        for i, p in enumerate(ps or []):
            c = p.value
            m = str(c.args[0]).split('::')[-1] if c.op == 'app' else ''
            wr = 'serialize_seq'
            v = 'ok' if m in ('deserialize_seq',) else 'unknown'
            R.check(P, 'array-read', (cfg, k, i, 'form'), v, where(D, k), 'read as a sequence, as it is written' if v == 'ok' else 'read by %s' % show(c, 3), short(k))
    if 'Array' in D.adts and not (ser and vs and de):
        absent(R, P, 'array-written', cfg, 'serde implementation of Array', notes)


def nextel(x):
    return x.op == 'fld' and x.args[2] == 'Some' and okfld(x.args[0]) is not None and str(okfld(x.args[0]).args[0]).endswith('next_element')


def moved_index(t):
    """The running index, shifted or counted from the end."""
    if t.op == 'revix':
        return True
    return t.op == 'lin' and any(plain_index(x) and (c != 1 or t.args[0] != 0) for x, c in t.args[1]) and all(plain_index(x) or is_const_n(x) for x, c in t.args[1])


def plain_index(t):
    n = t.args[0] if t.op == 'sym' else None
    return isinstance(n, tuple) and n and str(n[0]).startswith('idx') or t.op == 'sym' and str(n).startswith('idx')


def plain_value(t):
    return not any(x.op in ('app', 'bv', 'lost', 'eff', 'phi', 'coll') or x.op == 'sym' and murky(x) and not is_const_n(x) for x in subterms(t))


def pinned(p, a, b):
    """Do the facts of this path say that a is b?"""
    if p.facts.get(mkeq(a, b)) is True:
        return True
    d = add(a, b, -1)
    return any(isinstance(f, tuple) and f[0] == 'b' and x[0] is not None and x[0] == x[1] and I(0) in (add(add(f[1], d, -1), I(x[0]), -1), add(add(f[1], d), I(x[0]), -1)) for f, x in p.facts.items())


BINARY = {'Rem': lambda x, y: x % y, 'Div': lambda x, y: x // y, 'Shr': lambda x, y: x >> y, 'Shl': lambda x, y: x << y & (1 << 64) - 1, 'BitAnd': lambda x, y: x & y,
          'BitOr': lambda x, y: x | y, 'BitXor': lambda x, y: x ^ y, 'Mul': lambda x, y: x * y, 'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y}


def formula(t, a, n):
    """The value of a formula over `a` alone when a is n; None for anything else."""
    if t is a:
        return n
    if t.op == 'int':
        return t.args[0]
    if t.op == 'lin':
        xs = [(formula(x, a, n), c) for x, c in t.args[1]]
        return None if any(x is None for x, _ in xs) else t.args[0] + sum(x * c for x, c in xs)
    if t.op in ('arith', 'satsub'):
        f = BINARY.get(str(t.args[0]).split(':')[0]) if t.op == 'arith' else lambda x, y: max(0, x - y)
        xs = [formula(x, a, n) for x in t.args if isinstance(x, T)]
        if f is None or len(xs) != 2 or None in xs:
            return None
        try:
            return f(*xs)
        except (ZeroDivisionError, ValueError):
            return None
    return None


def miscounts(p, t, a):
    """A value of `a` for which the formula t over `a` alone is something else (no fact of the path speaks of `a`)."""
    if any(contains(f, a) for f in (f[1] if isinstance(f, tuple) else f for f in p.facts) if isinstance(f, T) and f.op != 'app'):
        return None
    for n in (0, 1, 2, 3, 7, 8, 9, 31, 100, 255, 256, 257, 1000, 65535, 65536):
        v = formula(t, a, n)
        if v is None:
            return None
        if v != n:
            return n
    return None


def is_const_n(t):
    return show(t) == 'const N'


def whole_iter(t, self):
    if t.op != 'iter':
        return False
    if t.args[0] == 'src':
        return strip(t.args[1]) in (self, fldterm(self, 0), mk('fld', self, 0, ''))
    return t.args[0] == 'range' and t.args[1] is I(0) and is_const_n(t.args[2])


def partial_iter(t, self):
    if t.op == 'iter' and t.args[0] in ('take', 'skip', 'step') and t.args[2].op == 'int' and (t.args[0] != 'skip' or t.args[2].args[0] > 0):
        return contains(t.args[1], self)
    return short_range(t) or t.op == 'iter' and t.args[0] == 'src' and t.args[1].op == 'sub' and contains(t.args[1], self)


def short_range(t):
    """A range over constants and N that is not 0..N."""
    if t.op != 'iter' or t.args[0] != 'range':
        return False
    parts = [x for a in t.args[1:3] for x in subterms(a)]
    return not whole_coll(t) and all(x.op in ('int', 'lin') or is_const_n(x) for x in parts) and not (t.args[1] is I(0) and is_const_n(t.args[2]))


def whole_coll(t):
    return False


SER = ['bincode', 'json', 'cbor', 'yaml', 'pickle', 'ron']
CONFIGS['C14'] = (SER, SER)
RULES['C14'] = c14


# ---- C15: hasher adapters -------------------------------------------------------------------
FEED = re.compile(r'::(write|update|input|process|absorb|consume|chain)$')
FEEDS = re.compile(r'::(write\w*|update\w*|input|process|absorb|consume|chain\w*|hash\w*)$')
DIGEST = re.compile(r'::(finish|finalize|finalize_fixed|result|finish_fixed)$')
FULL = {'Sha256::finish': 32}
CUTS = ('BitAnd', 'Shr', 'Rem', 'Div', 'bitand', 'shr', 'rem', 'div', 'Shl', 'shl', 'BitOr', 'bitor')


def digest_of(t, self):
    """(source digest call, full length or None) when t is the complete output bytes of the wrapped hasher."""
    t = strip(t)
    full = None
    if t.op == 'arith' and re.search(r'::to_[lbn]e_bytes(:\w+)?$', str(t.args[0])):
        t = strip(t.args[1])
        full = 8
    if t.op == 'app' and isinstance(t.args[0], str) and DIGEST.search('::' + t.args[0]):
        if full is None:
            full = FULL.get(t.args[0])
        if full == 8 and not t.args[0].endswith('finish'):
            full = None
        return t, full
    return None, None


def narrowed(t):
    return any(x.op == 'trunc' for x in subterms(t)) or any(x.op in ('arith', 'bin') and any(str(c) in CUTS for c in x.args if isinstance(c, str)) for x in subterms(t))


def own(t, self):
    while t.op == 'fld':
        t = t.args[0]
    return t is self


def fed_state(t, self):
    """Is t the state of self, possibly after other calls on it?"""
    while t.op == 'fld' or t.op == 'eff' and t.args[1] == 0 and len(t.args) > 2:
        t = t.args[0] if t.op == 'fld' else t.args[2]
    return t is self


def nothing(t):
    return t.op == 'seq' and len(t.args) == 1 or t.op == 'bytes' and not t.args[0]


def n_term(t):
    """Is t the length of the produced array?"""
    return is_const_n(t) or t.op == 'len' and t.args[0].op == 'app' and t.args[0].args[0] == 'repeat' or t.op == 'len' and t.args[0].op == 'adt' and n_term(mk('len', t.args[0].args[2]))


def c15(R, D, M, cfg, stats, notes, analysed):
    P = 'C15'
    self = arg(1)
    found = 0
    for ty, ms in impls(D, 'Hasher'):
        if not {'new', 'update', 'finalize'} <= set(ms):
            continue
        found += 1
        run = lambda m: unit(R, P, D, M, cfg, ms[m], notes, analysed, stats)
        k = ms['update']
        it, ps = run('update')
        for i, p in enumerate(ps or []):
            idn = (cfg, k, i)
            post = p.post(1)
            feeds = [t for t in subterms(post) if t.op == 'eff' and FEED.search('::' + str(t.args[0]))] if post is not None else []
            whole = [t for t in feeds if strip(t.args[-1]) is arg(2)]
            part = [t for t in feeds if strip(t.args[-1]) is not arg(2) and contains(t.args[-1], arg(2))]
            data = lambda t: t is arg(2)
            extra = [t for t in subterms(post) if t.op == 'eff' and t not in whole and t not in part and FEEDS.search('::' + str(t.args[0])) and fed_state(t.args[2], self) and not nothing(t.args[-1])] if post is not None else []
            looped = post is not None and any(t.op == 'phi' for t in subterms(post))
            why = None
            for t in feeds:
                why = why or tampered(t.args[-1], data)
            cut = [t for t in part if any(x.op == 'sub' and strip(x.args[0]) is arg(2) and x.args[1].op == 'range' and not whole_range(x) for x in subterms(t.args[-1]))]
            if why:
                v = 'bad'
            elif whole and not part:
                v = 'ok' if len(whole) == 1 and not extra else 'bad' if not looped else 'unknown'
            elif part:
                v = 'bad' if len(part) == 1 and cut and not looped else 'unknown'
            elif extra and not looped:
                v = 'bad' if not any(contains(x, arg(2)) and not lengthlike(x) for t in extra for x in t.args[3:]) else 'unknown'
            elif post is self or post is None:
                v = 'ok' if empty_data(it, p) else 'bad' if not exts(p) else 'unknown'
            else:
                v = 'unknown'
            res = [] if v == 'bad' or it.listener is None else reshaped(it.listener, data)
            if 'slice::chunks_exact' in it.listener.names and not any(n.endswith('::remainder') for n in it.listener.names):
                res.append(('chunks_exact without its remainder', where(D, k)))
            if res:
                R.check(P, 'update-feeds-all', idn + ('reshaped',), 'bad', res[0][1], 'the input goes through %s' % res[0][0], short(k))
            R.check(P, 'update-feeds-all', idn, v, where(D, k), 'feeds %s' % (', '.join(show(t.args[-1], 4) for t in whole + part) or 'nothing'), short(k))
            piecewise(R, P, D, cfg, k, it)
        k = ms['new']
        it, ps = run('new')
        for i, p in enumerate(ps or []):
            fed = [t for t in subterms(p.value) if t.op == 'eff' and FEEDS.search('::' + str(t.args[0]))]
            sized = [t for t in subterms(p.value) if t.op == 'app' and t.args[0] == 'Blake2b::new']
            R.check(P, 'new-is-fresh', (cfg, k, i), 'ok' if not fed else 'bad', where(D, k), 'a new hasher has absorbed %s' % ('nothing' if not fed else show(fed[0], 3)), short(k))
            for t in sized:
                a = t.args[1]
                R.check(P, 'new-is-fresh', (cfg, k, i, 'size'), 'ok' if a is arg(1) or is_const_n(a) else 'bad' if not lossy(a) else 'unknown', where(D, k), 'the digest length asked for is %s' % show(a, 3), short(k))
        k = ms['finalize']
        it, ps = run('finalize')
        for i, p in enumerate(ps or []):
            if ps is None:
                break
            idn = (cfg, k, i)
            v, what = finalized(p.value, p, it, self)
            R.check(P, 'finalize-complete', idn, v, where(D, k), what, short(k))
    if not found:
        absent(R, P, 'hasher', cfg, 'a hasher adapter', notes)


def piecewise(R, P, D, cfg, k, it):
    """Each step of a loop over the input feeds exactly the piece it is at."""
    import bits
    for n, e in enumerate(it.events):
        if e.kind != 'cross':
            continue
        terms = [x for l in e.log for a in l[1:] if isinstance(a, (T, tuple)) for y in (a if isinstance(a, tuple) else (a,)) if isinstance(y, T) for x in subterms(y)]
        terms += [x for f in e.facts for x in subterms(f[1] if isinstance(f, tuple) else f) if isinstance(f, (T, tuple)) and isinstance(f[1] if isinstance(f, tuple) else f, T)]
        pieces = {x for x in terms if x.op == 'chunk' and strip(x.args[0]) is arg(2)}
        if len(pieces) != 1:
            continue
        pc, = pieces
        feeds = [l for l in e.log if l[0] == 'ext' and FEEDS.search('::' + l[1])]
        other = [l for l in e.log if l[0] == 'ext' and l not in feeds and any(contains(a, pc) for a in l[2]) and not NEUTRAL.search(l[1])]
        args = [strip(l[2][-1]) for l in feeds if len(l[2]) > 1]
        ranges = []
        for a in args:
            if a is pc:
                ranges.append((I(0), mk('len', pc)))
            elif a.op == 'sub' and strip(a.args[0]) is pc and a.args[1].op == 'range' and len(a.args[1].args) == 2:
                ranges.append(a.args[1].args)
            else:
                ranges.append(None)
        lens = mk('len', pc)
        bad = None
        if not other and None not in ranges:
            for L in range(1, 65):
                env = {lens: bits.num(L)}
                mine = [(kk, v) for kk, v in e.facts.items() if not (isinstance(kk, tuple) and kk[0] == 'v') and contains(kk[1] if isinstance(kk, tuple) else kk, lens)]
                if pc.args[2].op == 'int' and L > pc.args[2].args[0] or not all(bits.fact_ok(kk, v, env) for kk, v in mine):
                    continue
                got = []
                for r in ranges:
                    lo, hi = (bits.ev(x, env) for x in r)
                    if lo is None or hi is None or lo.const is None or hi.const is None:
                        got = None
                        break
                    if lo.const < hi.const:
                        got.append((lo.const, hi.const))
                if got is None:
                    continue
                at = 0
                for lo, hi in got:
                    at = hi if lo == at else -1
                    if at < 0:
                        break
                if at != L:
                    bad = (L, got)
                    break
        R.check(P, 'update-feeds-piece', (cfg, k, n), 'bad' if bad else 'unknown' if other or None in ranges else 'ok', where(D, k), 'of a piece of %d bytes the ranges %s are fed' % bad if bad else 'a step of the loop feeds its piece', short(k))


def murky_in(t):
    return any(x.op in ('app', 'phi', 'lost', 'arith') for x in subterms(t))


def whole_range(t):
    lo, hi = t.args[1].args
    return lo is I(0) and (hi.op == 'len' and strip(hi.args[0]) is strip(t.args[0]) or hi.op in ('phi', 'infinity'))


def lengthlike(t):
    return t.op in ('len', 'lin', 'arith', 'int') and all(x.op in ('len', 'lin', 'arith', 'int') or x is arg(2) for x in subterms(t))


def empty_data(it, p):
    for f, x in p.facts.items():
        if isinstance(f, tuple) and f[0] == 'b' and f[1].op == 'len' and f[1].args[0] is arg(2) and x[1] == 0:
            return True
        if isinstance(f, T) and x is True and 'len(arg.2)' in show(f) and f.op == 'eq0':
            return True
    return False


def finalized(v, p, it, self):
    """Does the result carry as much of the wrapped hasher's digest as fits?"""
    if v.op == 'adt' and len(v.args) == 3:
        v = v.args[2]
    v = strip(v)
    if v.op == 'eff' and DIGEST.search('::' + str(v.args[0])):
        src, dst = v.args[2], v.args[3]
        if own(src, self) and dst.op == 'app' and dst.args[0] == 'repeat':
            return 'ok', 'the wrapped hasher writes its digest over the whole array'
        if own(src, self) and dst.op == 'sub':
            return 'bad', 'the digest is written over a part of the array only: %s' % show(dst, 4)
        more = extra_feed(src, self)
        if more is not None:
            return 'bad', 'the digest is taken after %s is fed as well' % show(more, 3)
        return 'unknown', 'digest written to %s' % show(dst, 4)
    if v.op == 'upd' or v.op == 'coll' and len(v.args[4]) == 0 and not lossy_of(v):
        inner = [t for t in subterms(v) if t.op == 'eff' and DIGEST.search('::' + str(t.args[0]))]
        if inner and all(t.args[3].op == 'sub' for t in inner if len(t.args) > 3):
            return 'bad', 'the digest is written over a part of the array only'
    isd = lambda t: t.op in ('app', 'eff') and isinstance(t.args[0], str) and DIGEST.search('::' + t.args[0]) is not None and len(t.args) > 1 and any(contains(x, self) for x in t.args[1:] if isinstance(x, T))
    w = tampered(v, isd)
    if w:
        return 'bad', 'the digest is altered: %s' % w
    body = v.args[0] if v.op == 'sub' and v.args[1].op == 'range' and v.args[1].args[0] is I(0) and v.args[1].args[1] is not None and n_term(v.args[1].args[1]) else v
    d, full = digest_of(body, self)
    if d is not None and not own(d.args[1], self):
        more = extra_feed(d.args[1], self)
        if more is not None:
            return 'bad', 'the digest is taken after %s is fed as well' % show(more, 3)
    if d is not None:
        return ('ok' if own(d.args[1], self) else 'bad' if other_state(d, self) else 'unknown'), 'the array is the digest of %s' % show(d.args[1], 3)
    if v.op == 'coll' and len(v.args[4]) >= 1:
        for ix, src in v.args[4]:
            src = strip(src)
            if src.op == 'int' and ix.op != 'rangeix' and any(isd(t) for t in subterms(v)):
                return 'bad', 'a byte of the result is set to %s' % show(src, 2)
            if src.op == 'eff' and DIGEST.search('::' + str(src.args[0])) and len(src.args) > 3 and src.args[3].op == 'sub':
                r = src.args[3].args[1]
                if r.op in ('rangeix', 'range') and (r.args[0] is not I(0) and r.args[0].op in ('int', 'lin') or short_of_n(r.args[1])):
                    return 'bad', 'the digest is written over a part of the array only: %s' % show(r, 4)
    if v.op == 'phi' or v.op == 'coll':
        starts = [x[1].args[1] for x in p.log if x[0] == 'iterend' and x[1].op == 'iter' and x[1].args[0] == 'range']
        if starts and not v.args[4:] and all(a.op == 'int' and a.args[0] > 0 for a in starts):
            return 'bad', 'the digest is copied from byte %s on' % show(starts[0])
    if v.op == 'coll' and len(v.args[4]) == 1:
        (ix, src), = v.args[4]
        src = strip(src)
        if ix.op == 'rangeix':
            lo, hi = ix.args
            if src.op == 'sub':
                body, rng = src.args
                body = strip(body)
                slo, shi = (rng.args[0], rng.args[1]) if rng.op == 'range' else (None, None)
            else:
                body, slo, shi = src, None, None
            d, full = digest_of(body, self)
            if d is None:
                if narrowed(body) and any(t.op == 'app' and DIGEST.search('::' + str(t.args[0])) for t in subterms(body)):
                    return 'bad', 'the digest is reduced before it is copied: %s' % show(body, 5)
                return 'unknown', 'copies %s' % show(body, 4)
            if not own(d.args[1], self):
                more = extra_feed(d.args[1], self)
                if more is not None:
                    return 'bad', 'the digest is taken after %s is fed as well' % show(more, 3)
                return ('bad' if other_state(d, self) else 'unknown'), 'the digest is of %s' % show(d.args[1], 4)
            if lo is not I(0) and (not lossy(lo) or lo.op == 'lin' and all(n_term(x) for x, _ in lo.args[1])):
                return 'bad', 'the digest is copied to [%s, %s), leaving the front of the array fixed' % (show(lo, 3), show(hi, 3))
            if slo is not None and slo is not I(0) and slo.op in ('int', 'lin'):
                return 'bad', 'the digest is copied from byte %s on' % show(slo, 3)
            k = hi
            if n_term(k):
                return 'ok', 'the array is filled with digest bytes'
            if k.op == 'len' and strip(k.args[0]) is body:
                return 'ok', 'the whole digest is copied'
            if k.op == 'int' and full is not None:
                if k.args[0] >= full:
                    return 'ok', 'the whole digest (%d bytes) is copied' % full
                n = bound_n(p)
                if n is not None and n <= k.args[0]:
                    return 'ok', 'the array is filled with digest bytes'
                return 'bad', 'only %d of %d digest bytes are copied' % (k.args[0], full)
            if k.op == 'int':
                return ('bad' if k.args[0] < longest(d) else 'unknown'), '%d digest bytes are copied' % k.args[0]
            if k.op == 'lin' and all(n_term(x) or x.op == 'len' and strip(x.args[0]) is body for x, _ in k.args[1]) and k.args[0] < 0 and len(k.args[1]) == 1 and k.args[1][0][1] == 1:
                return 'bad', 'the copy stops %d bytes early' % -k.args[0]
            if k.op == 'arith' and narrowed(k):
                return 'bad', 'only a part of the digest is copied: up to %s' % show(k, 4)
        return 'unknown', 'copies %s at %s' % (show(src, 4), show(ix, 4))
    if not any(x.op == 'app' and x.args[0] != 'repeat' or x.op in ('phi', 'eff', 'lost', 'arith') or x.op == 'coll' and x.args[1].op == 'sym' for x in subterms(v)):
        return 'bad', 'the result %s does not depend on the digest' % show(v, 4)
    return 'unknown', 'the result is %s' % show(v, 4)


def extra_feed(state, self):
    """A constant fed to the hash function when the digest is asked for."""
    while state.op == 'eff' and FEEDS.search('::' + str(state.args[0])):
        last = strip(state.args[-1])
        if last.op == 'int' or n_term(last.args[1] if last.op == 'trunc' else last) or last.op == 'seq' and len(last.args) > 1 and all(x.op == 'int' for x in last.args if isinstance(x, T)) or last.op == 'bytes' and last.args[0]:
            return last if own(state.args[2], self) or state.args[2].op == 'eff' else None
        state = state.args[2]
    return None


def other_state(d, self):
    """Is the digest certainly not of this hasher's state?"""
    return not contains(d, self) and not any(x.op in ('phi', 'lost', 'bv') or x.op == 'sym' and murky(x) for x in subterms(d))


def short_of_n(t):
    return t.op == 'int' or t.op == 'lin' and t.args[0] < 0 and len(t.args[1]) == 1 and n_term(t.args[1][0][0]) and t.args[1][0][1] == 1


def longest(d):
    """Bytes the digest may have."""
    n = str(d.args[0])
    return 64 if re.match(r'(Blake2b|Digest|FixedOutput|Self)', n) else 8


def lossy_of(v):
    return any(x.op in ('phi', 'lost') for x in subterms(v))


def bound_n(p):
    for f, x in p.facts.items():
        if isinstance(f, tuple) and f[0] == 'b' and n_term(f[1]):
            return x[1]
    return None


HASH_Q = ['default', 'default+release', 'bincode', 'fxhash', 'seahash', 'blake2-rfc', 'keccak', 'sha2', 'sha3', 'rust_sha2']
CONFIGS['C15'] = (HASH_Q, HASH_Q + ['groestl', 'blake2b', 'md2', 'md4', 'md5', 'ripemd160', 'ripemd320', 'sha1', 'rust_sha3', 'rust_keccak', 'whirlpool'])
RULES['C15'] = c15


# ---- C16 (addition): no ambient input -------------------------------------------------------
AMBIENT = re.compile(r'(^|::)(Instant::now|SystemTime::now|SystemTime::elapsed|Instant::elapsed|RandomState::new|thread_rng|ThreadRng::\w+|random|OsRng|from_entropy|getrandom|env::var\w*|env::args\w*|'
                     r'process::id|thread::current|ThreadId::\w+|available_parallelism|hostname|current_dir|temp_dir)$')


def callees(b):
    """(path, span) of each call in a body, closures and promoteds excluded (they are bodies of their own)."""
    for bl in b['blocks']:
        if bl['cl']:
            continue
        t = bl['t']
        if t[0] == 'call' and t[1][0] == 'k' and 'fn' in t[1][1]:
            yield t[1][1]['fn'], bl['sp']


def c16_census(R, D, M, cfg, stats, notes, analysed):
    P = 'C16'
    for k, b in D.bodies.items():
        if '::tests::' in k:
            continue
        hits = []
        n = 0
        for f, sp in callees(b):
            n += 1
            if AMBIENT.search(f['path'].split('<')[0] if '::<' not in f['path'] else re.sub(r'::<[^:]*>', '', f['path'])):
                hits.append((f['path'], sp))
        for bl in b['blocks']:
            for s in bl['s']:
                if s[0] == '=' and s[2][0] == 'cast' and ('PointerExpose' in s[2][1] or 'PtrToInt' in s[2][1] or 'Expose' in s[2][1]):
                    hits.append(('address used as a number', s[3] if len(s) > 3 else bl['sp']))
        stats['calls_examined'] += n
        stats['bodies_censused'] += 1
        for h, sp in hits:
            R.check(P, 'no-ambient-input', (cfg, k, h), 'bad', sp, '%s makes the result depend on more than the arguments and the store' % h, short(k))
        if not hits:
            R.check(P, 'no-ambient-input', (cfg, k), 'ok', b.get('span', ''), '%s reads no clock, random source, environment or address' % short(k), short(k))
    for path, span in D.raw.get('unsafe', []):
        R.check(P, 'no-unsafe', (cfg, span), 'bad', span, 'unsafe block in %s' % path, path)
    for s in D.raw.get('statics', []):
        mut = s.get('mut') or not s.get('freeze', True)
        R.check(P, 'no-ambient-input', (cfg, 'static', s.get('path')), 'bad' if mut else 'ok', s.get('span', ''), 'static %s%s' % (s.get('path'), ' can change between calls' if mut else ''), str(s.get('path')))


CONFIGS['C16'] = (['default', 'rocksdb'], ['default', 'hashbrown', 'rocksdb', 'bincode', 'json', 'cbor', 'yaml', 'pickle', 'ron', 'fxhash', 'seahash', 'blake2-rfc', 'keccak', 'sha2', 'sha3', 'rust_sha2'])
RULES['C16'] = c16_census


# ---- C17: threads ---------------------------------------------------------------------------
WITNESS = r"""
#![allow(dead_code, unused_imports)]
use starling::hash_tree::HashTree;
use starling::merkle_bit::{MerkleBIT, MerkleTree};
use starling::traits::{Exception, NodeVariant};
use starling::tree::{tree_branch::TreeBranch, tree_data::TreeData, tree_leaf::TreeLeaf, tree_node::TreeNode};
use starling::tree_db::HashTreeDB;
use starling::tree_hasher::TreeHasher;
use starling::Array;
use std::panic::{RefUnwindSafe, UnwindSafe};

fn send<T: Send + 'static>() {}
fn sync<T: Sync>() {}

fn tree_is_send() { send::<HashTree<32>>(); }
fn tree_is_sync() { sync::<HashTree<32>>(); }
fn values_are_send() { send::<HashTree<32, Vec<u8>>>(); }
fn core_is_send<M: MerkleTree<32>>() where MerkleBIT<M, 32>: Sized, M::Database: Send + 'static, M: 'static { send::<MerkleBIT<M, 32>>(); }
fn core_is_sync<M: MerkleTree<32>>() where M::Database: Sync { sync::<MerkleBIT<M, 32>>(); }
fn store_is_send() { send::<HashTreeDB<32>>(); }
fn store_is_sync() { sync::<HashTreeDB<32>>(); }
fn node_is_send() { send::<TreeNode<32>>(); }
fn node_is_sync() { sync::<TreeNode<32>>(); }
fn records_are_send() { send::<TreeBranch<32>>(); send::<TreeLeaf<32>>(); send::<TreeData>(); }
fn records_are_sync() { sync::<TreeBranch<32>>(); sync::<TreeLeaf<32>>(); sync::<TreeData>(); }
fn error_is_send() { send::<Exception>(); }
fn error_is_sync() { sync::<Exception>(); }
fn error_is_error() -> Box<dyn std::error::Error + Send + Sync> { let e: Exception = Exception::new("x"); Box::new(e) }
fn hasher_is_send() { send::<TreeHasher>(); }
fn keys_are_plain() { fn copy<T: Copy + Send + Sync + Ord + 'static>() {} copy::<Array<32>>(); }
"""
WITNESS_ROCKS = r"""
use starling::rocks_tree::RocksTree;
fn rocks_is_send() { send::<RocksTree<32>>(); }
"""
NOTSYNC = re.compile(r'(?<![A-Za-z])(Cell|RefCell|UnsafeCell|SyncUnsafeCell|OnceCell|LazyCell|Rc|Weak|NonNull)<|\*(const|mut) ')
SHARED = re.compile(r'(?<![A-Za-z])(Atomic\w*|Mutex|RwLock|OnceLock|LazyLock)(<|$)')


def c17(R, D, M, cfg, stats, notes, analysed):
    P = 'C17'
    for path, a in D.adts.items():
        if not a.get('local'):
            continue
        bad, maybe = [], []
        for v in a['variants']:
            for f in v['f']:
                t = D.tys(f[1]) if isinstance(f[1], int) else str(f[1])
                if NOTSYNC.search(t):
                    bad.append('%s: %s' % (f[0], t))
                elif SHARED.search(t):
                    maybe.append('%s: %s' % (f[0], t))
        stats['types_examined'] += 1
        R.check(P, 'no-hidden-mutation', (cfg, path), 'bad' if bad or maybe else 'ok', a.get('span', ''), '%s %s' % (path, 'has only plainly owned fields' if not bad + maybe else 'holds ' + ', '.join(bad + maybe)), path)
    for i in D.impls:
        if i.get('safety') == 'Unsafe' and (i.get('trait') or '').split('::')[-1] in ('Send', 'Sync'):
            R.check(P, 'no-unsafe', (cfg, i['span']), 'bad', i['span'], 'unsafe impl %s for %s' % (i['trait'], D.tys(i['self'])), D.tys(i['self']))
    for path, span in D.raw.get('unsafe', []):
        R.check(P, 'no-unsafe', (cfg, span), 'bad', span, 'unsafe block in %s' % path, path)
    for s in D.raw.get('statics', []):
        mut = s.get('mut') or not s.get('freeze', True)
        R.check(P, 'no-global-state', (cfg, s.get('path')), 'bad' if mut else 'ok', s.get('span', ''), 'static %s%s' % (s.get('path'), ' can change between calls' if mut else ' is constant'), str(s.get('path')))
    R.check(P, 'no-global-state', (cfg,), 'ok', '-', '%d statics in the library' % len(D.raw.get('statics', [])))


def c17_witness(R, stats, notes, analysed, tmp, sr):
    """Compile-time witnesses: the build of the witness crate fails on the line of the guarantee that is gone."""
    import json
    import frontend
    for cfg, src in (('default', WITNESS), ('rocksdb', WITNESS + WITNESS_ROCKS)):
        d = os.path.join(tmp, 'witness-' + cfg)
        os.makedirs(d + '/src')
        feats = ', '.join('"%s"' % f for f in frontend.CONFIGS[cfg].split())
        with open(d + '/Cargo.toml', 'w') as f:
            f.write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nstarling = { path = "%s", features = [%s] }\n' % (frontend.REPO, feats))
        lock = os.path.join(frontend.REPO, 'Cargo.lock')
        if os.path.exists(lock):
            import shutil
            shutil.copy(lock, d + '/Cargo.lock')
        with open(d + '/src/lib.rs', 'w') as f:
            f.write(src)
        env = frontend.env_for(cfg)
        r = frontend.fresh_cargo(['cargo', '+nightly', 'check', '--offline', '--lib', '-q', '--message-format', 'json'], d, env)
        msgs = []
        for l in r.stdout.splitlines():
            try:
                j = json.loads(l)
            except ValueError:
                continue
            m = j.get('message') if j.get('reason') == 'compiler-message' else None
            if m and m.get('level') == 'error':
                msgs.append((j['target']['name'], m))
        lines = src.split('\n')
        failed = {}
        other = False
        for tgt, m in msgs:
            code = (m.get('code') or {}).get('code')
            sp = [s for s in m['spans'] if s['is_primary']]
            if tgt == 'witness' and code in ('E0277', 'E0310', 'E0599') and sp:
                fn = re.search(r'fn (\w+)', lines[sp[0]['line_start'] - 1])
                if fn and code == 'E0277':
                    failed[fn.group(1)] = m['message']
                    continue
            if not m['message'].startswith('aborting'):
                other = True
                notes.append('witness [%s]: %s' % (cfg, m['message'][:200]))
        if r.returncode != 0 and not msgs:
            other = True
            notes.append('witness [%s]: %s' % (cfg, r.stderr[-300:]))
        for fn in re.findall(r'^fn (\w+)', src, re.M):
            if fn in ('send', 'sync'):
                continue
            v = 'bad' if fn in failed else 'unknown' if other else 'ok'
            R.check(P17, 'witness', (cfg, fn), v, 'witness crate, feature set ' + cfg, '%s %s' % (fn, failed.get(fn, 'holds')), fn)
        stats['witnesses_compiled'] += 1


P17 = 'C17'
CONFIGS['C17'] = (['default', 'rocksdb'], ['default', 'hashbrown', 'rocksdb', 'bincode', 'json', 'cbor', 'yaml', 'pickle', 'ron', 'fxhash', 'seahash', 'blake2-rfc', 'keccak', 'sha2', 'sha3'])
RULES['C17'] = c17
SOURCE_RULES['C17'] = c17_witness


# ---- C20: front ends ------------------------------------------------------------------------
FRONT = {'get': 3, 'insert': 4, 'remove': 2, 'generate_inclusion_proof': 3, 'verify_inclusion_proof': 4, 'get_one': 3, 'insert_one': 4, 'decompose': 1}
MAKERS = {'new': 'MerkleBIT::new', 'open': 'MerkleBIT::new', 'from_db': 'MerkleBIT::from_db'}


def trivial(p):
    """Does the path know that one of the lists it was given is empty?"""
    for f, x in p.facts.items():
        if isinstance(f, tuple) and f[0] == 'b' and f[1].op == 'len' and x[1] == 0:
            return True
        if isinstance(f, T) and f.op == 'eq0' and x is True and f.args[0].op in ('len', 'lin'):
            return True
    return False


WRITERS = ('insert', 'insert_one', 'remove')


class ErrUnit(Unit):
    keep_errs = True


def front_arg(x, w, p):
    """Is x the caller's own argument w (taken apart and put together again counts)?"""
    x = strip(x)
    if x.op == 'adt' and x.args[1] == 'Some' and len(x.args) == 3 and strip(x.args[2]) is mk('fld', w, 0, 'Some'):
        return 'ok'
    if x.op == 'adt' and x.args[1] == 'None' and fact_variant(p.facts, w) == 'None':
        return 'ok'
    if x.op == 'sub' and strip(x.args[0]) is w and x.args[1].op == 'range' and not may_cover(x.args[1], w):
        return 'bad'
    if tampered(x, lambda y: y is w):
        return 'bad'
    return same(x, w)


def may_cover(r, w):
    """Might the range r cover all of w?"""
    if len(r.args) != 2 or not all(isinstance(a, T) for a in r.args):
        return True
    lo, hi = r.args
    n = mk('len', w)
    return not (lo.op == 'int' and lo.args[0] > 0 or hi.op == 'int' or hi.op == 'arith' and (contains(hi, n) or any(x.op == 'sym' and (is_const_n(x) or not murky(x)) for x in subterms(hi))) and str(hi.args[0]) in ('Div', 'Sub', 'Shr', 'Rem', 'BitAnd'))


def err_src(v, call):
    return any(x is mk('fld', call, 0, 'Err') for x in subterms(v))


def c20(R, D, M, cfg, stats, notes, analysed):
    P = 'C20'
    core = inherent(D, 'MerkleBIT')
    opq = set(core.values())
    fronts = ['HashTree'] + (['RocksTree'] if any(bare(D.tys(i['self'])) == 'RocksTree' for i in D.impls) else [])
    for ty in fronts:
        ms = inherent(D, ty)
        for m, n in FRONT.items():
            if m not in ms:
                absent(R, P, 'delegates', cfg, '%s::%s' % (ty, m), notes)
                continue
            k = ms[m]
            l = ErrUnit()
            it, ps = unit(R, P, D, M, cfg, k, notes, analysed, stats, l, opaque=opq)
            stat = m == 'verify_inclusion_proof'
            direct = any(e[1] == 'MerkleBIT::' + m for p in ps or [] for e in exts(p))
            for i, p in enumerate(ps or []):
                idn = (cfg, k, i)
                calls = [e for e in exts(p) if e[1].startswith('MerkleBIT::')]
                names = [e[1].split('::')[1] for e in calls]
                writes = [n for n in names if n in WRITERS]
                o = okv(p)
                if m not in WRITERS and writes:
                    R.check(P, 'delegates', idn + ('w',), 'bad', where(D, k), '%s changes the tree: %s' % (m, ', '.join(writes)), short(k))
                elif m != 'remove' and 'remove' in writes or m == 'remove' and set(writes) - {'remove'}:
                    R.check(P, 'delegates', idn + ('w',), 'bad', where(D, k), '%s does %s' % (m, ' and '.join(writes)), short(k))
                elif m == 'remove' and writes.count('remove') > 1:
                    R.check(P, 'delegates', idn + ('w',), 'bad', where(D, k), 'one removal is passed on %d times' % writes.count('remove'), short(k))
                if o is not None and m in WRITERS and not writes:
                    R.check(P, 'delegates', idn, 'bad', where(D, k), '%s answers %s without asking the tree to change' % (m, show(p.value, 4)), short(k))
                    continue
                if not calls:
                    if o is not None and m in ('verify_inclusion_proof', 'generate_inclusion_proof', 'get_one'):
                        v = 'unknown' if exts(p) else 'bad'
                    elif p.value.op == 'adt' and bare(p.value.args[0]) == 'Result':
                        v = 'unknown' if trivial(p) or exts(p) or lossy_of(p.value) else 'bad'
                    else:
                        v = 'unknown'
                    R.check(P, 'delegates', idn, v, where(D, k), 'answers %s without asking the tree' % show(p.value, 4), short(k))
                    continue
                e = calls[-1]
                if len(calls) > 1:
                    R.check(P, 'delegates', idn, 'unknown', where(D, k), 'makes %d calls: %s' % (len(calls), ', '.join(c[1] for c in calls)), short(k))
                    continue
                if e[1] != 'MerkleBIT::' + m:
                    if m == 'insert' and names[0] == 'insert_one':
                        # the same only when there is exactly one key and one value
                        one = [p.facts.get(('b', mk('len', arg(j)))) == (1, 1) for j in (3, 4)]
                        R.check(P, 'delegates', idn + ('o',), 'ok' if all(one) else 'bad', where(D, k), 'insert takes the single-entry way when %s' % ('there is one key and one value' if all(one) else 'the numbers of keys and values are not both known to be one'), short(k))
                        continue
                    if m not in WRITERS and names[0] in FRONT:
                        R.check(P, 'delegates', idn + ('o',), 'bad' if direct else 'unknown', where(D, k), '%s is %sanswered by %s' % (m, 'sometimes ' if direct else '', e[1]), short(k))
                        continue
                    if {m, names[0]} <= {'insert', 'insert_one'}:
                        R.check(P, 'same-arguments', idn + (1,), front_arg(e[2][1], arg(2), p), where(D, k), 'argument 1 of %s is %s' % (e[1], show(e[2][1], 4)), short(k))
                    R.check(P, 'delegates', idn, 'unknown', where(D, k), '%s forwards to %s' % (m, e[1]), short(k))
                    continue
                R.check(P, 'delegates', idn, 'ok', where(D, k), '%s::%s asks %s' % (ty, m, e[1]), short(k))
                wants = [arg(j) for j in range(1, n + 1)]
                for j, w in enumerate(wants):
                    x = strip(e[2][j])
                    if j == 0 and not stat:
                        v = 'ok' if own(x, w) else 'unknown' if lossy(x) else 'bad'
                    else:
                        v = front_arg(x, w, p)
                    R.check(P, 'same-arguments', idn + (j,), v, where(D, k), 'argument %d of %s is %s' % (j, e[1], show(x, 4)), short(k))
                r = e[3]
                v = p.value
                fv = fact_variant(p.facts, r)
                good = v is r or fv == 'Ok' and o is mk('fld', r, 0, 'Ok') or is_err(p) and err_src(v, r) or fv == 'Ok' and m in ('remove', 'verify_inclusion_proof') and o is not None
                changed = reshaped(l, lambda x: x is mk('fld', r, 0, 'Ok') or x is r)
                if good:
                    vd = 'ok'
                elif changed and contains(v, r) and (o is None or o is not r):
                    vd = 'bad'
                elif is_err(p) and fv == 'Ok' and not exts(p)[exts(p).index(e) + 1:]:
                    vd = 'bad'
                elif v.op == 'adt' and fv == 'Ok' and o is not None and not contains(o, r) and not lossy(o):
                    vd = 'bad'
                elif o is not None and fv == 'Err':
                    vd = 'bad'
                elif o is not None and not contains(o, r) and not lossy(o) and not m == 'decompose':
                    # the outcome is not looked at: only right when success carries nothing, and then errors are lost
                    vd = 'bad' if fv is None else 'unknown'
                else:
                    vd = 'unknown'
                R.check(P, 'same-answer', idn, vd, where(D, k), 'returns %s' % show(v, 4), short(k))
        for m, tgt in MAKERS.items():
            if m not in ms:
                if m != 'from_db' and not (ty == 'RocksTree' and m == 'new'):
                    absent(R, P, 'opens', cfg, '%s::%s' % (ty, m), notes)
                continue
            k = ms[m]
            b = D.bodies[k]
            it, ps = unit(R, P, D, M, cfg, k, notes, analysed, stats, opaque=opq)
            for i, p in enumerate(ps or []):
                idn = (cfg, k, i)
                calls = [e for e in exts(p) if e[1] in ('MerkleBIT::new', 'MerkleBIT::from_db')]
                for e in calls:
                    v = same(e[2][-1], arg(b['argc']))
                    if v != 'ok' and pinned(p, e[2][-1], arg(b['argc'])):
                        v = 'ok'
                    elif v == 'unknown' and plain_value(e[2][-1]) and any(isinstance(f, tuple) and f[0] == 'b' and (x[0] != x[1] or f[1] is arg(b['argc'])) and contains(f[1], arg(b['argc'])) for f, x in p.facts.items()):
                        v = 'bad'
                    elif v == 'unknown' and miscounts(p, e[2][-1], arg(b['argc'])) is not None:
                        v = 'bad'
                    R.check(P, 'opens', idn + ('depth',), v, where(D, k), 'the depth limit handed on is %s' % show(e[2][-1], 3), short(k))
                    if b['argc'] == 2:
                        src = e[2][0]
                        opened = [x for x in subterms(src) if x.op == 'app' and '::open' in str(x.args[0])]
                        v = same(src, arg(1))
                        if opened:
                            v = 'ok' if all(same(x.args[-1], arg(1)) == 'ok' for x in opened) else 'bad' if all(not lossy(x.args[-1]) and same(x.args[-1], arg(1)) == 'bad' for x in opened) else 'unknown'
                        elif v == 'bad' and contains(src, arg(1)):
                            v = 'unknown'
                        R.check(P, 'opens', idn + ('path',), v, where(D, k), 'opens %s' % show(src, 3), short(k))
                if okv(p) is not None and not calls:
                    R.check(P, 'opens', idn, 'unknown', where(D, k), 'a tree made without the core constructor', short(k))
    # the core's own constructors
    fld_of = {}
    for m in ('new', 'from_db'):
        if m not in core:
            absent(R, P, 'opens', cfg, 'MerkleBIT::' + m, notes)
            continue
        k = core[m]
        it, ps = unit(R, P, D, M, cfg, k, notes, analysed, stats)
        for i, p in enumerate(ps or []):
            o = okv(p)
            if o is None:
                continue
            idn = (cfg, k, i)
            if o.op != 'adt' or bare(o.args[0]) != 'MerkleBIT':
                R.check(P, 'opens', idn, 'unknown', where(D, k), 'returns %s' % show(o, 4), short(k))
                continue
            names = [f[0] for f in fields(D, 'MerkleBIT')['variants'][0]['f']]
            vals = dict(zip(names, o.args[2:]))
            dp = [x for x in vals.values() if x is arg(2)]
            dv = vals.get('depth')
            plain = dv is not None and plain_value(dv)
            tied = any(isinstance(f, T) and f.op == 'eq' and x is True and dv in f.args for f, x in p.facts.items())
            v = 'ok' if dv is arg(2) or dv is None and dp else 'bad' if plain and not tied else 'unknown'
            R.check(P, 'opens', idn + ('depth',), v, where(D, k), 'the depth limit kept is %s' % (show(dv, 4) if dv is not None else '?'), short(k))
            db = vals.get('db')
            if db is None:
                v = 'unknown'
            elif m == 'from_db':
                v = same(db, arg(1))
            else:
                c = okfld(strip(db))
                v = same(c.args[-1], arg(1)) if c is not None and str(c.args[0]).endswith('Database::open') else 'unknown'
            R.check(P, 'opens', idn + ('db',), v, where(D, k), 'the store kept is %s' % (show(db, 4) if db is not None else '?'), short(k))
    if 'decompose' in core:
        k = core['decompose']
        it, ps = unit(R, P, D, M, cfg, k, notes, analysed, stats)
        names = [f[0] for f in fields(D, 'MerkleBIT')['variants'][0]['f']]
        for i, p in enumerate(ps or []):
            v = p.value
            want = mk('tup', *[mk('fld', arg(1), names.index(f), None) for f in ('db', 'depth') if f in names])
            R.check(P, 'opens', (cfg, k, i), 'ok' if show(v) == show(want) else 'unknown' if lossy(v) else 'bad', where(D, k), 'comes apart into %s' % show(v, 4), short(k))


def anyerr_of(v):
    return any(x.op == 'anyerr' for x in subterms(v))


CONFIGS['C20'] = (['default', 'rocksdb', 'rocksdb+release'], ['rocksdb+release', 'default+release', 'default', 'hashbrown', 'rocksdb', 'bincode', 'json', 'cbor', 'yaml', 'pickle', 'ron'])
RULES['C20'] = c20


# ---- C22: node records ----------------------------------------------------------------------
PAIRS = {'Branch': ('count', 'zero', 'one', 'split_index', 'key'), 'Leaf': ('key', 'data'), 'Data': ('value',)}
IMPLS = {'Branch': 'TreeBranch', 'Leaf': 'TreeLeaf', 'Data': 'TreeData', 'Node': 'TreeNode'}


def place(t, base):
    """Path of plain fields and fixed positions from base to t, or None."""
    t = strip(t)
    if t is base:
        return ()
    if t.op == 'fld' and not t.args[2]:
        step = t.args[1]
    elif t.op == 'at' and t.args[1].op == 'int':
        step = ('at', t.args[1].args[0])
    else:
        return None
    p = place(t.args[0], base)
    return None if p is None else p + (step,)


def plainfld(t, base):
    """The field of base t is: its index, or a path when it lies inside another field."""
    p = place(t, base)
    return None if not p else p[0] if len(p) == 1 else p


def after(post, path):
    """What lies at path in the value post, or None when its form is not recognised."""
    cur = post
    for step in path:
        pos = isinstance(step, tuple)
        if cur.op == 'upd' and not pos:
            hit = [(q, v) for q, v in cur.args[1] if q[0] == step]
            whole = [v for q, v in hit if len(q) == 2 and not q[1]]
            if any(q[1] for q, v in hit) or len(hit) > 1 and whole:
                return None
            if whole:
                cur = whole[0]
            elif hit:
                cur = mk('upd', mk('fld', cur.args[0], step, ''), tuple((q[2:], v) for q, v in hit))
            else:
                cur = mk('fld', cur.args[0], step, '')
        elif cur.op == 'adt' and not pos and len(cur.args) > 2 + step:
            cur = cur.args[2 + step]
        elif cur.op == 'tup' and not pos and len(cur.args) > step:
            cur = cur.args[step]
        elif pos and cur.op == 'coll' and cur.args[1].op == 'of' and not cur.args[3]:
            if any(k.op != 'int' for k, v in cur.args[4]):
                return None
            cur = dict(cur.args[4]).get(I(step[1]), mk('at', cur.args[1].args[0], I(step[1])))
        elif not pos and cur.op in ('fld', 'sym', 'at'):
            cur = mk('fld', cur, step, '')
        elif pos and cur.op in ('fld', 'sym', 'at'):
            cur = mk('at', cur, I(step[1]))
        else:
            return None
    return cur


def altered(t, want):
    """A value computed from want by an operation that loses information, with nothing unknown in it."""
    t = strip(t)
    for x in subterms(t):
        if x is want or contains(want, x):
            continue
        if x.op in ('app', 'phi', 'lost', 'eff', 'bv', 'coll'):
            return False
        if x.op == 'sym' and murky(x):
            return False
    return True


def verdict(t, want):
    t = strip(t)
    if t is want or t.op == 'fld' and t.args[0] is want and t.args[1] == 0 and not t.args[2] or t.op == 'adt' and len(t.args) == 3 and strip(t.args[2]) is want:
        return 'ok'
    return 'bad' if altered(t, want) or tampered(t, lambda x: x is want) else 'unknown'


def writes_of(post, self, places):
    """{place: value} of what a setter changed among places, plus top-level fields that hold none of them; None when the form is not recognised."""
    if post is None or post is self:
        return {}
    out = {}
    for pl in places:
        path = pl if isinstance(pl, tuple) else (pl,)
        v = after(post, path)
        if v is None:
            return None
        if place(v, self) != path:
            out[pl] = v
    tops = {pl[0] if isinstance(pl, tuple) else pl for pl in places}
    if post.op == 'upd' and post.args[0] is self:
        for path, v in post.args[1]:
            if path[0] not in tops:
                out[path[0]] = v
    elif post.op == 'adt':
        out.update({i: v for i, v in enumerate(post.args[2:]) if i not in tops and place(v, self) != (i,)})
    else:
        return None
    return out


def unwritten(facts, self, pl):
    """Verdict on a setter path that leaves the field as it was: right only where the new value is known to equal the old."""
    want = pl if isinstance(pl, tuple) else (pl,)
    mixed = False
    for f, v in facts.items():
        t = f[1] if isinstance(f, tuple) and len(f) > 1 else f
        if not isinstance(t, T) or not contains(t, self) or not contains(t, arg(2)):
            continue
        if t.op == 'eq' and v is True and {place(x, self) for x in t.args} == {want, None} and any(strip(x) is arg(2) for x in t.args):
            return 'ok'
        c, m = lin_parts(t)
        if not (isinstance(f, tuple) and f[0] == 'b' and c == 0 and len(m) == 2 and arg(2) in m and all(x is arg(2) or place(x, self) == want for x in m) and sum(m.values()) == 0):
            mixed = True
        elif v == (0, 0):
            return 'ok'
    return 'unknown' if mixed else 'bad'


def c22(R, D, M, cfg, stats, notes, analysed):
    P = 'C22'
    self = arg(1)
    for tr, ty in IMPLS.items():
        ms = {}
        for t, m in impls(D, tr):
            if bare(t) == ty:
                ms.update(m)
        if not ms:
            absent(R, P, 'set-then-get', cfg, '%s for %s' % (tr, ty), notes)
            continue
        run = lambda m: unit(R, P, D, M, cfg, ms[m], notes, analysed, stats)[1]
        pairs = PAIRS.get(tr, ('references',))
        getf = {}
        for n in pairs + (('variant',) if tr == 'Node' else ()):
            g = 'get_' + n
            if g not in ms:
                absent(R, P, 'set-then-get', cfg, '%s::%s' % (ty, g), notes)
                continue
            ps = run(g)
            for i, p in enumerate(ps or []):
                f = plainfld(p.value, self)
                k = ms[g]
                if f is None:
                    v = 'bad' if altered(p.value, self) else 'unknown'
                    R.check(P, 'set-then-get', (cfg, k, i), v, where(D, k), '%s returns %s' % (g, show(p.value, 4)), short(k))
                elif n in getf and getf[n] != f:
                    R.check(P, 'set-then-get', (cfg, k, i), 'bad', where(D, k), '%s returns one field or another' % g, short(k))
                else:
                    getf[n] = f
                    R.check(P, 'set-then-get', (cfg, k, i), 'ok', where(D, k), '%s returns field %s' % (g, f), short(k))
        for a in getf:
            for b in getf:
                if a < b and getf[a] == getf[b]:
                    R.check(P, 'set-then-get', (cfg, ty, a, b), 'bad', where(D, ms['get_' + b]), 'get_%s and get_%s return the same field' % (a, b), short(ms['get_' + b]))
        setters = [(n, n, None) for n in pairs] if tr != 'Node' else [('references', 'references', None), ('branch', 'variant', 'Branch'), ('leaf', 'variant', 'Leaf'), ('data', 'variant', 'Data')]
        for s, g, kind in setters:
            m = 'set_' + s
            if m not in ms or g not in getf:
                if m not in ms:
                    absent(R, P, 'set-then-get', cfg, '%s::%s' % (ty, m), notes)
                continue
            k = ms[m]
            ps = run(m)
            for i, p in enumerate(ps or []):
                idn = (cfg, k, i)
                w = writes_of(p.post(1), self, list(getf.values()))
                if w is None:
                    R.check(P, 'set-then-get', idn, 'unknown', where(D, k), '%s leaves %s' % (m, show(p.post(1), 4)), short(k))
                    continue
                for f, v in w.items():
                    if f == getf[g]:
                        if kind:
                            v = strip(v)
                            vd = 'ok' if v.op == 'adt' and v.args[1] == kind and strip(v.args[2]) is arg(2) else 'bad' if altered(v, arg(2)) else 'unknown'
                        else:
                            vd = verdict(v, arg(2))
                        R.check(P, 'set-then-get', idn, vd, where(D, k), '%s stores %s' % (m, show(v, 4)), short(k))
                    else:
                        owner = [x for x, y in getf.items() if y == f]
                        R.check(P, 'set-only-that', idn + (f,), 'bad' if owner else 'unknown', where(D, k), '%s also changes field %s%s' % (m, f, ' (%s)' % owner[0] if owner else ''), short(k))
                if getf[g] not in w:
                    vd = unwritten(p.facts, self, getf[g])
                    R.check(P, 'set-then-get', idn, vd, where(D, k), '%s leaves the field as it was' % m, short(k))
        if 'decompose' in ms and tr != 'Node':
            k = ms['decompose']
            ps = run('decompose')
            for i, p in enumerate(ps or []):
                v = strip(p.value)
                if v.op != 'tup' and tr == 'Data':
                    R.check(P, 'decompose-order', (cfg, k, i), 'ok' if plainfld(v, self) == getf.get('value') else 'unknown', where(D, k), 'decompose gives %s' % show(v, 4), short(k))
                    continue
                if v.op != 'tup' or len(v.args) != len(pairs):
                    R.check(P, 'decompose-order', (cfg, k, i), 'unknown', where(D, k), 'decompose gives %s' % show(v, 4), short(k))
                    continue
                for n, x in zip(pairs, v.args):
                    if n in getf:
                        vd = 'ok' if plainfld(x, self) == getf[n] else 'bad' if altered(x, self) else 'unknown'
                        R.check(P, 'decompose-order', (cfg, k, i, n), vd, where(D, k), 'decompose gives %s for %s' % (show(x, 4), n), short(k))
        if tr == 'Node' and 'new' in ms:
            k = ms['new']
            ps = run('new')
            for i, p in enumerate(ps or []):
                v = p.value
                if v.op != 'adt' or bare(v.args[0]) != ty or len(getf) < 2 or not all(isinstance(f, int) for f in getf.values()):
                    R.check(P, 'new-node', (cfg, k, i), 'unknown', where(D, k), 'new gives %s' % show(v, 4), short(k))
                    continue
                x, r = v.args[2 + getf['variant']], v.args[2 + getf['references']]
                vd = verdict(x, arg(1)) if not (x.op == 'adt' and len(x.args) == 3 and bare(x.args[0]) == 'NodeVariant') else 'unknown'
                R.check(P, 'new-node', (cfg, k, i, 'content'), vd, where(D, k), 'a new node holds %s' % show(x, 4), short(k))
                R.check(P, 'new-node', (cfg, k, i, 'references'), 'ok' if r is I(0) else 'bad' if r.op == 'int' else 'unknown', where(D, k), 'a new node has %s references' % show(r, 3), short(k))
        # copies
        for t, m in impls(D, 'Clone'):
            if bare(t) == ty and 'clone' in m:
                copies(R, P, D, M, cfg, m['clone'], notes, analysed, stats)
    for t, m in impls(D, 'Clone'):
        if bare(t) in ('NodeVariant', 'TreeRef', 'Array') and 'clone' in m:
            copies(R, P, D, M, cfg, m['clone'], notes, analysed, stats)
    # references order by key
    for tr, meth in (('Ord', 'cmp'), ('PartialOrd', 'partial_cmp')):
        for t, m in impls(D, tr):
            if bare(t) != 'TreeRef' or meth not in m:
                continue
            k = m[meth]
            kf = field_index(D.adts, 'TreeRef', 'key')
            it, ps = unit(R, P, D, M, cfg, k, notes, analysed, stats)
            for i, p in enumerate(ps or []):
                v = p.value
                if v.op == 'adt' and v.args[1] == 'Some':
                    v = v.args[2]
                if v.op == 'app' and v.args[0] == 'cmp' and len(v.args) == 3 and kf is not None:
                    a, b = plainfld(v.args[1], arg(1)), plainfld(v.args[2], arg(2))
                    rev = plainfld(v.args[1], arg(2)), plainfld(v.args[2], arg(1))
                    cut = any(x.op == 'sub' and x.args[1].op == 'range' and plainfld(x.args[0], w) == kf and (partial(x) or not may_cover(x.args[1], x.args[0])) for x, w in ((v.args[1], arg(1)), (v.args[2], arg(2))))
                    vd = 'ok' if a == b == kf else 'unknown' if a == b and isinstance(a, tuple) and a[0] == kf else 'bad' if (a is not None and b is not None) or None not in rev or cut else 'unknown'
                else:
                    vd = 'bad' if v.op == 'adt' and v.args[1] in ('Less', 'Greater', 'Equal') and len(ps) == 1 else 'unknown'
                R.check(P, 'references-order', (cfg, k, i), vd, where(D, k), 'references compare as %s' % show(v, 4), short(k))
    for ty in ('TreeRef', 'TreeCell'):
        for m, k in inherent(D, ty).items():
            if m != 'new':
                continue
            names = [f[0] for f in fields(D, ty)['variants'][0]['f']]
            it, ps = unit(R, P, D, M, cfg, k, notes, analysed, stats)
            par = {v[1][0]: v[0] for v in D.bodies[k]['dbg'] if not v[1][1]}
            for i, p in enumerate(ps or []):
                v = p.value
                if v.op != 'adt' or bare(v.args[0]) != ty:
                    R.check(P, 'constructor', (cfg, k, i), 'unknown', where(D, k), 'new gives %s' % show(v, 4), short(k))
                    continue
                for n, x in zip(names, v.args[2:]):
                    src = [j for j in range(1, D.bodies[k]['argc'] + 1) if strip(x) is arg(j)]
                    if not src:
                        R.check(P, 'constructor', (cfg, k, i, n), 'unknown', where(D, k), '%s of a new %s is %s' % (n, ty, show(x, 4)), short(k))
                    else:
                        pn = par.get(src[0])
                        R.check(P, 'constructor', (cfg, k, i, n), 'ok' if pn == n else 'bad' if pn in names else 'unknown', where(D, k), '%s of a new %s is its %s' % (n, ty, pn), short(k))
    if 'Array' in D.adts:
        array_transparent(R, P, D, M, cfg, notes, analysed, stats)


def copies(R, P, D, M, cfg, k, notes, analysed, stats):
    it, ps = unit(R, P, D, M, cfg, k, notes, analysed, stats)
    for i, p in enumerate(ps or []):
        v = p.value
        if v is arg(1):
            vd, what = 'ok', 'a copy is the whole record'
        elif v.op == 'adt':
            vd, what = 'ok', 'a copy is field by field'
            for j, x in enumerate(v.args[2:]):
                want = None
                x = strip(x)
                if x.op == 'fld' and x.args[0] is arg(1) and x.args[1] == j:
                    continue
                vd = 'bad' if altered(x, arg(1)) else 'unknown'
                what = 'field %d of a copy is %s' % (j, show(x, 4))
                if vd == 'bad':
                    break
            kind = p.facts.get(('v', arg(1)))
            if isinstance(kind, str) and v.args[1] != kind:
                vd, what = 'bad', 'a copy of %s is %s' % (kind, v.args[1])
        else:
            vd, what = 'bad' if altered(v, arg(1)) else 'unknown', 'a copy is %s' % show(v, 4)
        R.check(P, 'copy-is-equal', (cfg, k, i), vd, where(D, k), what, short(k))


def array_transparent(R, P, D, M, cfg, notes, analysed, stats):
    """The newtype around fixed-size arrays behaves as the array itself."""
    f0 = fldterm(arg(1), 0)
    same0 = lambda t: strip(t) is f0 or strip(t) is mk('fld', arg(1), 0, '')
    within = lambda p: p.value.op == 'at' and p.value.args[0].op == 'sub' and same0(p.value.args[0].args[0]) and p.value.args[0].args[1].args[0] is I(0) and p.value.args[1] is arg(2)
    cut = lambda p: p.value.op == 'at' and partial(p.value.args[0]) or p.value.op == 'mref' and any(s[0] == 'x' and s[1].op == 'rangeix' and (s[1].args[1].op == 'int' or s[1].args[0].op == 'int' and s[1].args[0].args[0] > 0) for s in p.value.args[1])
    want = {'AsRef': ('as_ref', lambda p: same0(p.value)), 'Deref': ('deref', lambda p: same0(p.value)),
            'IntoIterator': ('into_iter', lambda p: p.value.op == 'iter' and p.value.args[0] == 'src' and same0(p.value.args[1]) or same0(p.value)),
            'Index': ('index', lambda p: p.value.op in ('at', 'sub') and same0(p.value.args[0]) and p.value.args[1] is arg(2) or within(p) and n_term(p.value.args[0].args[1].args[1])),
            'IndexMut': ('index_mut', lambda p: p.value.op == 'mref' and p.value.args[0] == ('P', 1) and tuple(s[:2] for s in p.value.args[1]) == (('f', 0), ('x', arg(2)))),
            'DerefMut': ('deref_mut', lambda p: p.value.op == 'mref' and p.value.args[0] == ('P', 1) and tuple(s[:2] for s in p.value.args[1]) == (('f', 0),)),
            'PartialEq': ('eq', lambda p: p.value.op == 'eq' and {show(x) for x in p.value.args} == {'arg.1.0', 'arg.2.0'}),
            'Ord': ('cmp', lambda p: p.value.op == 'app' and p.value.args[0] == 'cmp' and show(p.value.args[1]) in ('arg.1.0', 'arg.1') and show(p.value.args[2]) in ('arg.2.0', 'arg.2'))}
    for tr, (m, good) in want.items():
        for t, ms in impls(D, tr):
            if bare(t) != 'Array' or m not in ms:
                continue
            k = ms[m]
            it, ps = unit(R, P, D, M, cfg, k, notes, analysed, stats)
            for i, p in enumerate(ps or []):
                rev = tr == 'Ord' and p.value.op == 'app' and p.value.args[0] == 'cmp' and show(p.value.args[1]).startswith('arg.2') and show(p.value.args[2]).startswith('arg.1')
                v = 'ok' if good(p) else 'bad' if rev or cut(p) or not lossy(p.value) and len(ps) == 1 and p.value.op not in ('mref',) else 'unknown'
                R.check(P, 'array-transparent', (cfg, k, i), v, where(D, k), '%s gives %s' % (m, show(p.value, 4)), short(k))
    for t, ms in impls(D, 'From'):
        if 'from' not in ms or not (bare(t) == 'Array' or re.match(r'^\[u8; N\]$', t)):
            continue
        k = ms['from']
        it, ps = unit(R, P, D, M, cfg, k, notes, analysed, stats)
        for i, p in enumerate(ps or []):
            v = strip(p.value)
            good = v.op == 'adt' and strip(v.args[2]) is arg(1) or same0(v) or v is arg(1)
            R.check(P, 'array-transparent', (cfg, k, i), 'ok' if good else 'bad' if altered(v, arg(1)) else 'unknown', where(D, k), 'conversion gives %s' % show(v, 4), short(k))


CONFIGS['C22'] = (['default', 'bincode', 'bincode+release'], ['bincode+release', 'default+release', 'default', 'bincode', 'hashbrown', 'rocksdb', 'json', 'cbor', 'yaml', 'pickle', 'ron'])
RULES['C22'] = c22
