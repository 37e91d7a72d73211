"""Rules over the interpreted core: each turns events and paths into obligations with a verdict.

Verdicts: 'ok' (discharged), 'bad' (a recognised construct that breaks the rule), 'unknown' (the rule
does not recognise the construct; reported in the evidence, never an alarm).
"""
from terms import *
from absint import *
from contract import *

MUT_ENTRIES = ('insert', 'insert_one', 'remove')
READ_ENTRIES = ('get', 'get_one', 'generate_inclusion_proof', 'verify_inclusion_proof')
ENTRIES = MUT_ENTRIES + READ_ENTRIES
TAG = {ord('d'): 'Data', ord('l'): 'Leaf', ord('b'): 'Branch'}


class Report:
    def __init__(self):
        self.obl = {}        # (prop, rule, key) -> verdict
        self.bad = {}        # (prop, vkey) -> (where, message)
        self.unk = {}
        self.samples = {}

    def check(self, prop, rule, ident, verdict, where, what, fn=''):
        """ident identifies the obligation; what describes it."""
        k = (prop, rule, ident)
        old = self.obl.get(k)
        order = {'ok': 0, 'unknown': 1, 'bad': 2}
        if old is None or order[verdict] > order[old]:
            self.obl[k] = verdict
        if verdict == 'bad':
            vk = (prop, '%s@%s' % (rule, fn))
            self.bad.setdefault(vk, (where, what))
        elif verdict == 'unknown':
            self.unk.setdefault((prop, rule), (where, what))
        else:
            s = self.samples.setdefault((prop, rule), [])
            if len(s) < 2:
                s.append('%s: %s' % (where, what))
        return verdict


class Path:
    __slots__ = ('entry', 'kind', 'value', 'facts', 'log', 'fn', 'where', 'mem', 'state', 'lid', 'why', 'start')


class Run:
    """One public operation, interpreted."""

    def __init__(self, dump, models, key, name, cfg):
        self.name, self.key, self.cfg = name, key, cfg
        self.listener = Core()
        self.it = Interp(dump, models, self.listener)
        self.it.split_bools = True
        self.it.track_overflow = name == 'verify_inclusion_proof'
        self.error = None
        self.outs = []
        try:
            self.outs = run_entry(self.it, key)
        except (Unsupported, Budget) as e:
            self.error = '%s: %s' % (type(e).__name__, e)
        except RecursionError:
            self.error = 'RecursionError'
        except Exception as e:
            self.error = 'the analysis gave up: %s: %s' % (type(e).__name__, e)
        self.events = self.it.events if self.error is None else []
        self.paths = []
        if self.error is None:
            for e in self.events:
                if e.kind == 'cross':
                    p = Path()
                    p.entry, p.kind, p.value, p.facts, p.log, p.fn = name, 'iter', None, e.facts, e.log, short(e.fn)
                    p.where, p.mem, p.lid, p.why, p.start = e.span, e.extra[1], e.extra[0], NO_WHY, e.extra[2]
                    self.paths.append(p)
            for v, s in self.outs:
                p = Path()
                p.entry, p.value, p.facts, p.log, p.fn = name, v, s.facts, tuple(x for x in s.log if x[0] != 'loop'), name
                p.kind = {'Ok': 'ok', 'Err': 'err'}.get(v.args[1] if v.op == 'adt' else '', 'ret')
                p.where, p.mem, p.lid, p.why = dump.bodies[key].get('span', ''), s.mem, None, s.why
                self.paths.append(p)
        for p in self.paths:
            st = State()
            st.facts = p.facts
            p.state = st
        adts = dump.adts
        self.depth_ix = field_index(adts, 'merkle_bit::MerkleBIT', 'depth')
        self.tr = {f: field_index(adts, 'TreeRef', f) for f in ('key', 'location', 'node_count', 'count')}
        self.tc = {f: field_index(adts, 'TreeCell', f) for f in ('location', 'keys', 'node', 'depth')}

    def truth(self, p, t):
        return self.it.truth(p.state, t)

    def bounds(self, p, t):
        return self.it.bounds(p.state, t)


def field_index(adts, suffix, f):
    for path, a in adts.items():
        if path.split('::')[-1] == suffix.split('::')[-1] and a['kind'] == 'struct':
            for i, x in enumerate(a['variants'][0]['f']):
                if x[0] == f:
                    return i
    return None


_murky = {}
BLESSED_APP = {'opened', 'default'}


def murky(t):
    """Is this value one the analysis lost track of?"""
    r = _murky.get(t)
    if r is None:
        o = t.op
        if o == 'app':
            r = t.args[0] not in BLESSED_APP or any(murky(a) for a in t.args if isinstance(a, T))
        elif o in ('bv', 'lost', 'longhash'):
            r = True
        elif o == 'sym':
            n = t.args[0]
            while isinstance(n, tuple) and n and n[0] == 'old':
                n = n[2]
            h = n[0] if isinstance(n, tuple) and n else n
            if isinstance(h, tuple):
                h = h[0] if h else ''
            h = str(h)
            r = (h.startswith(('el', 'havoc', 'uninit', 'errmerge', 'longhash', 'lostref', 'const', 'item', 'r', 'boxbuf', 'cat', 'ix?')) and not h.startswith('rix')) and not t.args[2]
        elif o == 'phi':
            r = False
        elif o in ('coll', 'corr'):
            r = False
        else:
            r = any(_mk(a) for a in t.args)
        _murky[t] = r
    return r


def _mk(a):
    if isinstance(a, T):
        return murky(a)
    if isinstance(a, tuple):
        return any(_mk(x) for x in a)
    return False


def fact_variant(facts, t):
    if t.op == 'adt':
        return t.args[1]
    f = facts.get(('v', t))
    return f if isinstance(f, str) else None


def presence(facts, loc):
    """What the path knows about loc being stored: 'Some', 'None' or None; from any lookup of loc."""
    r = None
    for k, v in facts.items():
        if isinstance(k, tuple) and k[0] == 'v' and k[1].op == 'opt' and isinstance(v, str):
            kk = k[1].args[0]
            if kk.op == 'key' and kk.args[0] == 'db' and kk.args[1] is loc:
                if r is not None and r != v:
                    return 'mixed'
                r = v
    return r


def loc_kind(t):
    """'tree', 'data' or None: where a location term was obtained."""
    if t.op == 'bf':
        return 'data' if t.args[1] == 'data' else 'tree' if t.args[1] in ('zero', 'one') else None
    if t.op in ('sym', 'phi', 'bv'):
        a = t.args[-1]
        if 'dataloc' in a:
            return 'data'
        if 'treeloc' in a:
            return 'tree'
    return None


def is_root(t):
    return t.op == 'sym' and isinstance(t.args[0], tuple) and t.args[0][0] == 'arg' or (t.op == 'fld' and is_root(t.args[0]))


def stored_parts(content):
    """For node content: ('same', L) when it is the content stored at L; ('new', kind, fields) otherwise."""
    if content.op == 'nvar':
        return ('same', content.args[0])
    if content.op == 'adt' and content.args[0].endswith('NodeVariant') and len(content.args) == 3:
        kind, rec = content.args[1], content.args[2]
        if rec.op == 'rec' and rec.args[0] == kind:
            fs = dict(zip(RECORD[kind], rec.args[1:]))
            locs = {f.args[2] if f.op == 'bf' and f.args[0] == kind and f.args[1] == n else None for n, f in fs.items()}
            if len(locs) == 1 and None not in locs:
                return ('same', next(iter(locs)))
            return ('new', kind, fs)
        if rec.op == 'upd':
            return ('mixed', kind, rec)
    return ('?', content)


def hparts(h):
    """(tag, parts) of a hash transcript; tag None when the layout is not the recognised one."""
    a = h.args
    if a and a[0].op == 'bytes' and len(a[0].args[0]) == 1 and a[0].args[0][0] in TAG:
        return TAG[a[0].args[0][0]], a[1:]
    return None, a


def plain(ts):
    return all(not murky(t) and t.op not in ('coll', 'seq', 'sub', 'hasher', 'of') for t in ts)


def hash_list(p):
    """Does the path look at a list that a loop filled? (The analysis does not tell its elements apart.)"""
    return any(isinstance(f, tuple) and f[0] == 'b' and f[1].op == 'len' and f[1].args[0].op in ('phi', 'coll') for f in p.facts)


def cut_parts(parts):
    """Hash inputs that certainly leave part of a value out (and no other input supplies the rest)."""
    base = [x.args[0] if x.op == 'sub' else x for x in parts]
    return [x for x in parts if partial(x) and base.count(x.args[0]) == 1]


def transcript_verdict(h, kind, fs):
    """Does hash term h commit to record (kind, fields) in the documented layout?"""
    tag, parts = hparts(h)
    cut = cut_parts(parts)
    if cut and tag is not None:
        return 'bad', '%s hash absorbs only a part of a field: %s' % (kind, show(cut[0], 3))
    if tag is None:
        if not plain(h.args):
            return 'unknown', 'hash input not resolved'
        return 'bad', 'the hash input %s has no domain tag' % show(h, 4)
    if tag != kind:
        return 'bad', 'a %s record is stored under a hash tagged for %s' % (kind, tag)
    fields = {'Data': (None, 'value'), 'Leaf': ('key', 'data'), 'Branch': ('zero', 'one')}[kind]
    if len(parts) != 2:
        return ('bad' if plain(parts) else 'unknown'), '%s hash does not absorb exactly two fields' % kind
    for x, f in zip(parts, fields):
        if f is None:
            if not plain((x,)):
                return 'unknown', 'hash input not resolved'
        elif x is not fs[f]:
            return ('unknown' if murky(fs[f]) or not plain((x,)) else 'bad'), '%s hash absorbs %s where the record has %s=%s' % (kind, show(x, 4), f, show(fs[f], 4))
    return 'ok', '%s stored under H(%s, ..)' % (kind, tag)


# ------------------------------------------------------------------------------------------
def c01_c02(R, run):
    fnof = lambda e: short(e.fn)
    for e in run.events:
        if e.kind == 'del':
            R.check('C02', 'delete-only-in-remove', (run.name, e.span), 'ok' if run.name == 'remove' else 'bad', e.span,
                    'a stored node is deleted by %s' % run.name, fnof(e))
        if e.kind != 'put':
            continue
        loc, node = e.data[0], e.data[1]
        if node.op != 'nodeval':
            R.check('C02', 'node-content', (run.name, e.span, node), 'unknown', e.span, 'node value not resolved', fnof(e))
            continue
        part = stored_parts(node.args[0])
        ident = (run.name, e.span, loc, node.args[0])
        if part[0] == 'same':
            v = 'ok' if part[1] is loc else ('unknown' if murky(loc) or murky(part[1]) else 'bad')
            R.check('C02', 'rewrite-keeps-content', ident, v, e.span, 'node of %s written to %s' % (show(part[1], 4), show(loc, 4)), fnof(e))
        elif part[0] == 'mixed':
            R.check('C02', 'rewrite-keeps-content', ident, 'bad', e.span, 'a stored record is modified in place: %s' % show(part[2], 4), fnof(e))
        elif part[0] == 'new':
            kind, fs = part[1], part[2]
            unset = [n for n, f in fs.items() if f.op == 'unset']
            R.check('C01', 'record-complete', ident, 'bad' if unset else 'ok', e.span,
                    ('fields never set: %s' % ', '.join(unset)) if unset else 'every field of the %s record is set' % kind, fnof(e))
            if loc.op == 'H':
                v, w = transcript_verdict(loc, kind, fs)
                R.check('C01', 'location-commits-to-content', ident, v, e.span, w, fnof(e))
                if kind == 'Leaf' and fs['data'].op == 'H':
                    tg, ps = hparts(fs['data'])
                    v2 = 'ok' if tg == 'Data' and ps and ps[0] is fs['key'] else 'bad' if cut_parts(ps) else ('unknown' if not plain(ps) or murky(fs['key']) else 'bad')
                    R.check('C01', 'data-hash-bound-to-key', ident, v2, e.span, 'leaf key %s over data hash %s' % (show(fs['key'], 4), show(fs['data'], 4)), fnof(e))
            else:
                locs = {f.args[2] for f in fs.values() if f.op == 'bf'}
                v = 'unknown' if murky(loc) or any(murky(f) for f in fs.values()) else 'bad'
                if loc in locs:
                    R.check('C02', 'rewrite-keeps-content', ident, v, e.span, 'the record at %s is rewritten with different fields: %s' % (show(loc, 4), show(node.args[0], 5)), fnof(e))
                else:
                    R.check('C01', 'location-commits-to-content', ident, v, e.span, 'a new %s record is stored at %s, which is not a hash of it' % (kind, show(loc, 4)), fnof(e))
        else:
            R.check('C01', 'location-commits-to-content', ident, 'unknown', e.span, 'content not resolved', fnof(e))
    # reads go to locations the tree names
    if run.name == 'generate_inclusion_proof':
        for e in run.events:
            if e.kind == 'hash':
                tag, parts = hparts(e.data[0])
                ok = 'unknown' if not plain(e.data[0].args) else 'bad'
                what = 'proof entry hash %s' % show(e.data[0], 5)
                if tag == 'Leaf' and len(parts) == 2:
                    k, d = parts
                    if d.op == 'bf' and d.args[:2] == ('Leaf', 'data'):
                        own = mk('bf', 'Leaf', 'key', d.args[2])
                        ok = 'ok' if k is own or e.facts.get(mkeq(k, own)) is True else ok
                elif tag == 'Data' and len(parts) == 2:
                    k, d = parts
                    if d.op == 'bf' and d.args[:2] == ('Data', 'value'):
                        ok = 'ok'
                R.check('C01', 'proof-uses-same-commitment', (run.name, e.span, e.data[0]), ok, e.span, what, fnof(e))


def delta_of(run, p, X, refs):
    """(delta, base) of a reference count written to X: base is 'abs', ('rel', site) or 'other'/'?'"""
    if refs.op == 'int':
        return refs.args[0], 'abs'
    c, d = lin_parts(refs)
    base, k = None, c
    if refs.op == 'satsub':
        x, y = refs.args
        if y.op != 'int':
            return None, '?'
        d0, b = delta_of(run, p, X, x)
        return (None if d0 is None else d0 - y.args[0]), b
    for a, co in d.items():
        if a.op == 'refs' and co == 1 and base is None:
            base = a
        elif a.op == 'bool2int':
            t = run.truth(p, a.args[0])
            if t is None:
                return None, '?'
            k += co * int(t)
        elif a.op == 'satsub' and co == 1 and base is None and a.args[0].op == 'refs' and a.args[1].op == 'int':
            base = a.args[0]
            k -= a.args[1].args[0]
        else:
            return None, '?'
    if base is None:
        return None, '?'
    if base.args[0] is not X:
        return k, 'other' if not murky(base.args[0]) and not murky(X) else '?'
    return k, ('rel', base.args[1])


def narrowed(refs):
    """Does this count go through an operation that loses large counts?"""
    for x in subterms(refs):
        if x.op == 'trunc' and any(y.op == 'refs' for y in subterms(x)):
            return True
        if x.op in ('min', 'arith') and any(isinstance(y, T) and y.op == 'int' for y in x.args) and any(isinstance(y, T) and any(z.op == 'refs' for z in subterms(y)) for y in x.args):
            if x.op == 'min' or str(x.args[0]).split(':')[0] in ('BitAnd', 'Rem', 'Shr', 'Div'):
                return True
    return False


def ledger(run, p):
    """Net reference-count change per location on a path -> {X: (delta or None, why, span)}"""
    led = {}
    gets, lastput = {}, {}
    for i, ev in enumerate(p.log):
        if ev[0] == 'get':
            r = ev[2]
            if r.op == 'res' and r.args[1].op == 'key':
                gets[(ev[1], r.args[1].args[0])] = i
        elif ev[0] == 'put':
            X, node = ev[1], ev[2]
            sp = ev[-1]
            if node.op != 'nodeval':
                led[X] = (None, '?', sp)
                continue
            if node.args[1].op == 'unset':
                led[X] = (None, 'unset', sp)
                continue
            d, b = delta_of(run, p, X, node.args[1])
            if b == 'abs':
                pr = presence(p.facts, X)
                led[X] = (d, 'fresh' if pr == 'None' else 'reset', sp) if pr != 'mixed' else (None, '?', sp)
            elif b == 'other':
                led[X] = (None, 'other', sp)
            elif b == '?' or d is None:
                led[X] = (None, 'narrowed' if narrowed(node.args[1]) else '?', sp)
            else:
                g = gets.get((X, b[1]), -1)
                prev = led.get(X)
                if prev is not None and prev[0] is not None and X in lastput and g > lastput[X]:
                    d += prev[0]
                led[X] = (d, 'rel', sp)
            lastput[X] = i
    return led


def c03(R, run):
    if run.name not in ('insert', 'insert_one'):
        return
    deferred = False
    for e in run.events:
        if e.kind == 'put' and e.data[1].op == 'nodeval':
            r = e.data[1].args[1]
            if r.op == 'lin' and r.args[0] >= 1 and (murky(e.data[0]) or e.data[0].op in ('fld', 'at')) and loc_kind(e.data[0]) is None and not is_root(e.data[0]):
                deferred = True
    seen = set()
    for p in run.paths:
        if p.kind == 'err':
            continue
        led = ledger(run, p)
        refs_made = {}
        for ev in p.log:
            if ev[0] == 'treeref':
                refs_made.setdefault(ev[2], []).append(ev[-1])
        sig = (p.fn, tuple(sorted(((x.id, d) for x, d in led.items()), key=str)), tuple(sorted(x.id for x in refs_made)))
        branch_children = {}
        for X in led:
            if X.op == 'H':
                tag, ps = hparts(X)
                if tag == 'Branch' and len(ps) == 2:
                    for c in ps:
                        branch_children.setdefault(c, []).append(X)
        for X, (d, why, sp) in led.items():
            where, fn = sp.split('@')[0], sp.split('@')[-1]
            ident = (run.name, fn, X, d, why, presence(p.facts, X))
            if why == 'unset':
                R.check('C03', 'count-set', ident, 'bad', where, 'node stored at %s without a reference count' % show(X, 4), fn)
                continue
            if why == 'reset':
                R.check('C03', 'never-reset', ident, 'bad' if not murky(X) else 'unknown', where,
                        'reference count of %s is set to %s although %s' % (show(X, 4), d, 'it is already stored' if presence(p.facts, X) == 'Some' else 'whether it is stored was not checked'), fn)
                continue
            if why == 'other':
                R.check('C03', 'own-count', ident, 'bad', where, 'the reference count written to %s is derived from another node' % show(X, 4), fn)
                continue
            if why == 'narrowed':
                R.check('C03', 'count-change', ident, 'bad', where, 'the count stored for %s loses large values' % show(X, 4), fn)
                continue
            if d is None:
                R.check('C03', 'count-change', ident, 'unknown', where, 'count of %s not resolved' % show(X, 4), fn)
                continue
            if X.op == 'H':
                tag, ps = hparts(X)
                if tag == 'Leaf':
                    R.check('C03', 'leaf-one-per-key', ident, 'ok' if d == 1 else 'bad', where, 'leaf count changes by %+d for one inserted key' % d, fn)
                elif tag == 'Data':
                    leafs = [Y for Y in led if Y.op == 'H' and hparts(Y)[0] == 'Leaf' and contains(Y, X)]
                    pr = {presence(p.facts, Y) for Y in leafs}
                    if why == 'fresh':
                        v = 'ok' if d == 1 else 'bad'
                    elif pr == {'Some'}:
                        v = 'ok' if d == 0 else 'bad'
                    elif pr == {'None'}:
                        v = 'ok' if d == 1 else 'bad'
                    else:
                        v = 'unknown' if not leafs else 'bad'
                    R.check('C03', 'data-one-per-leaf', ident + (tuple(sorted(map(str, pr))),), v, where,
                            'data count changes by %+d while its leaf is %s' % (d, '/'.join({'Some': 'already stored', 'None': 'new'}.get(x, 'not known to be stored or new') for x in sorted(map(str, pr)))), fn)
                elif tag == 'Branch':
                    R.check('C03', 'branch-one-per-parent', ident, 'ok' if d == 1 else 'bad', where, 'branch count changes by %+d for one new parent' % d, fn)
                    for c in ps:
                        want = 0 if why == 'fresh' else -1
                        got = led.get(c, (0, '', ''))
                        if murky(c) and got[0] != want:
                            v = 'unknown'
                        else:
                            v = 'unknown' if got[0] is None else 'ok' if got[0] == want else 'bad'
                        R.check('C03', 'branch-children', ident + (c, got[0]), v, where,
                                'a branch that is %s gives its child a net change of %s' % ('new' if why == 'fresh' else 'already stored', got[0]), fn)
                else:
                    R.check('C03', 'count-change', ident, 'unknown', where, 'unrecognised location', fn)
            elif X in branch_children:
                pass
            else:
                made = len(refs_made.get(X, ()))
                v = 'ok' if made == d else 'unknown' if murky(X) or (made < d and (pushed_somewhere(p, X, False) or deferred or d == 1 and pushed_somewhere(p, X))) or (loc_kind(X) is None and not is_root(X)) else 'bad'
                R.check('C03', 'one-count-per-link', ident + (made,), v, where, 'the count of %s changes by %+d while %d link(s) to it are made' % (show(X, 4), d, made), fn)
        for X, sps in refs_made.items():
            if X in led or X.op == 'H':
                continue
            where, fn = sps[0].split('@')[0], sps[0].split('@')[-1]
            if loc_kind(X) == 'tree' or is_root(X):
                v = 'unknown' if murky(X) or deferred or p.kind == 'ret' else 'bad'
                R.check('C03', 'one-count-per-link', (run.name, fn, X, 'none'), v, where, 'a link to %s is made without adding a reference' % show(X, 4), fn)
        # release reads must see pending writes
        flushed = False
        for ev in p.log:
            if ev[0] == 'flush':
                flushed = True
            elif ev[0] == 'put' and ev[1] in branch_children:
                R.check('C03', 'release-after-flush', (run.name, p.fn, ev[1]), 'ok' if flushed else 'bad', ev[-1].split('@')[0],
                        'a child released while an earlier count of it may still be in the unwritten batch', ev[-1].split('@')[-1])


def pushed_somewhere(p, X, refs=True):
    """Is something naming X handed to a collection (refs=False: other than as a finished reference)?"""
    return any(ev[0] == 'push' and contains(ev[1], X) and (refs or not (ev[1].op == 'adt' and ev[1].args[0].endswith('TreeRef'))) for ev in p.log)


def c04(R, run):
    if run.name != 'remove':
        return
    drained(R, run, 'C04', 'the removal can end with nodes still queued, which then keep a reference too many')
    for p in run.paths:
        if p.kind == 'err':
            continue
        done = set()
        for ev in p.log:
            if ev[0] != 'get' or ev[1] in done:
                continue
            L = ev[1]
            done.add(L)
            where, fn = ev[-1].split('@')[0], p.fn
            pr = presence(p.facts, L)
            dels = [x for x in p.log if x[0] == 'del' and x[1] is L]
            puts = [x for x in p.log if x[0] == 'put' and x[1] is L]
            kids = [x[1] for x in p.log if x[0] == 'push' and x[1] is not L]
            for x in p.log:
                if x[0] == 'recurse':
                    kids += [y for y in x[2:-1] if isinstance(y, T) and y.op == 'bf']
            flat = []
            for k in kids:
                flat += [a for a in k.args if isinstance(a, T)] if k.op in ('tup', 'seq') else [k]
            kids = [k for k in flat if loc_kind(k) or k.op == 'bf']
            ident = (run.name, p.fn, L, pr, len(dels), len(puts), tuple(k.id for k in kids))
            if pr == 'None':
                v = 'bad' if dels or puts else 'ok'
                R.check('C04', 'absent-untouched', ident, v, where, 'an absent node is left alone', fn)
                continue
            if pr != 'Some':
                if dels or puts:
                    R.check('C04', 'presence-known', ident, 'unknown', where, 'presence not resolved', fn)
                continue
            rt = None
            for k in p.facts:
                if isinstance(k, tuple) and k[0] == 'b':
                    for a in subterms(k[1]):
                        if a.op == 'refs' and a.args[0] is L:
                            rt = a
            for x in puts:
                if x[2].op == 'nodeval':
                    for a in subterms(x[2].args[1]):
                        if a.op == 'refs' and a.args[0] is L:
                            rt = rt or a
            var = fact_variant(p.facts, mk('nvar', L))
            lo, hi = (0, None) if rt is None else run.bounds(p, rt)
            last = hi is not None and hi <= 1
            shared = lo is not None and lo >= 2
            want = {'Branch': ('zero', 'one'), 'Leaf': ('data',), 'Data': ()}.get(var)
            if dels:
                v = 'ok' if last else 'unknown' if rt is None and murky(L) else 'bad'
                R.check('C04', 'delete-only-last', ident, v, where, 'node deleted when its count is in [%s, %s]' % (lo, hi), fn)
                R.check('C04', 'delete-once', ident, 'ok' if len(dels) == 1 and not puts else 'bad', where, 'deleted once and not written back', fn)
                if want is None:
                    R.check('C04', 'children-released', ident, 'unknown', where, 'node kind not resolved', fn)
                else:
                    exp = sorted(mk('bf', var, f, L).id for f in want)
                    got = sorted(k.id for k in kids)
                    v = 'ok' if exp == got else 'unknown' if any(murky(k) for k in kids) and not set(got) <= set(exp) else 'bad'
                    R.check('C04', 'children-released', ident, v, where, 'deleting a %s releases %s' % (var, [show(k, 3) for k in kids]), fn)
            elif puts:
                d, b = delta_of(run, p, L, puts[-1][2].args[1]) if puts[-1][2].op == 'nodeval' else (None, '?')
                v = ('bad' if puts[-1][2].op == 'nodeval' and narrowed(puts[-1][2].args[1]) else 'unknown') if d is None else 'ok' if d == -1 and isinstance(b, tuple) and len(puts) == 1 else 'bad'
                R.check('C04', 'shared-loses-one', ident, v, where, 'count written back changes by %s' % d, fn)
                R.check('C04', 'shared-kept', ident, 'ok' if shared else 'bad', where, 'a node is kept only while other references remain (count in [%s, %s])' % (lo, hi), fn)
                R.check('C04', 'shared-keeps-children', ident, 'ok' if not kids else 'bad', where, 'children of a kept node are not released', fn)
            else:
                R.check('C04', 'every-node-settled', ident, 'bad' if not murky(L) else 'unknown', where, 'a stored %s node is visited but neither deleted nor given one reference less' % var, fn)


def c05(R, run):
    if run.name not in READ_ENTRIES:
        return
    n = 0
    for e in run.events:
        if e.kind in ('get', 'decode', 'encode', 'hash'):
            n += 1
            R.check('C05', 'no-write-on-read-path', (run.name, e.span, e.kind), 'ok', e.span, '%s on the %s path' % (e.kind, run.name), short(e.fn))
        if e.kind in ('put', 'del', 'flush'):
            R.check('C05', 'no-write-on-read-path', (run.name, e.span, e.kind), 'bad', e.span, '%s reaches Database::%s' % (run.name, {'put': 'insert', 'del': 'remove', 'flush': 'batch_write'}[e.kind]), short(e.fn))
    fn = run.it.fn(run.key)
    if run.name != 'verify_inclusion_proof':
        ty = fn.dump.types[fn.b['locals'][1]]
        R.check('C05', 'shared-receiver', (run.name,), 'bad' if ty.get('m') else 'ok', fn.b.get('span', ''), '%s takes self by %s reference' % (run.name, 'mutable' if ty.get('m') else 'shared'), run.name)


def c06(R, run):
    if run.name not in MUT_ENTRIES:
        return
    for v, s in run.outs:
        if v.op == 'adt' and v.args[1] == 'Err':
            continue
        d = s.ghost.get('u_dirty') or EMPTY
        where = run.it.fn(run.key).b.get('span', '')
        for w in sorted(d) or [None]:
            R.check('C06', 'flushed-before-ok', (run.name, v, w), 'bad' if w else 'ok', w.split('@')[0] if w else where,
                    ('%s can return Ok with the write at %s still unflushed' % (run.name, w)) if w else 'no unflushed write when %s returns Ok' % run.name, w.split('@')[-1] if w else run.name)


RESEV = {'get': 2, 'put': 3, 'del': 2, 'flush': 1, 'encode': 2, 'decode': 2}
NAMES = {'get': 'Database::get_node', 'put': 'Database::insert', 'del': 'Database::remove', 'flush': 'Database::batch_write', 'encode': 'Encode::encode', 'decode': 'Decode::decode'}


def c07(R, run):
    for p in run.paths:
        if p.kind == 'err':
            continue
        for ev in p.log:
            ix = RESEV.get(ev[0])
            if ix is None:
                continue
            r = ev[ix]
            f = p.facts.get(('v', r))
            where, fn = ev[-1].split('@')[0], ev[-1].split('@')[-1]
            if f == 'Ok':
                v = 'ok'
            elif f == 'Err':
                v = 'bad'
            elif p.value is not None and contains(p.value, r):
                v = 'ok'
            elif any(x is r or (x.born or True) and isinstance(x, T) and contains(x, r) for x in p.mem.values()):
                v = 'unknown'
            else:
                v = 'bad'
            R.check('C07', 'error-propagated', (run.name, where, ev[0], f), v, where,
                    'the result of %s is %s' % (NAMES[ev[0]], 'checked' if v == 'ok' else 'dropped' if f is None else 'an error that does not stop the operation'), fn)


def c08(R, run):
    if run.name != 'verify_inclusion_proof':
        return
    it = run.it
    root, key, val, proof = [sym(('arg', i)) for i in (1, 2, 3, 4)]
    body = it.fn(run.key)
    where = body.b.get('span', '')
    Hd = mk('H', mk('bytes', (ord('d'),)), key, mk('enc', val))
    Hl = mk('H', mk('bytes', (ord('l'),)), key, Hd)
    p0 = mk('fld', mk('at', proof, I(0)), 0, '')
    p1 = mk('fld', mk('at', proof, I(1)), 0, '')
    oks = [p for p in run.paths if p.kind == 'ok']
    R.check('C08', 'anchors', (run.name,), 'ok' if oks else 'bad', where, 'verification can succeed', run.name)
    lost = run.it.unknown_calls
    for p in oks:
        walks, ends_early = [], []

        def need(rule, a, b, what):
            if a is b or p.facts.get(mkeq(a, b)) is True:
                v = 'ok'
            else:
                cand = [k for k, x in p.facts.items() if isinstance(k, T) and k.op == 'eq' and x is True and (a in k.args or b in k.args)]
                odd = [k for k in cand if murky(k) or not known_entry(k)]
                v = 'unknown' if odd or lost or any(murky(k) for k in p.facts if isinstance(k, T) and k.op not in ('eq',)) else 'bad'
            R.check('C08', rule, (run.name, a, b), v, where, what, run.name)
        need('data-checked', Hd, p0, 'Ok requires proof[0] == H(d, key, value)')
        need('leaf-checked', Hl, p1, 'Ok requires proof[1] == H(l, key, data hash)')
        lo, hi = run.bounds(p, mk('len', proof))
        R.check('C08', 'length-checked', (run.name,), 'ok' if lo is not None and lo >= 2 else 'bad' if not lost else 'unknown', where, 'Ok requires at least two proof entries', run.name)
        cands = [[y for y in k.args if y is not root][0] for k, x in p.facts.items() if isinstance(k, T) and k.op == 'eq' and x is True and root in k.args]
        if not cands:
            R.check('C08', 'root-checked', (run.name,), 'unknown' if lost else 'bad', where, 'Ok requires the recomputed hash to equal the root', run.name)
            continue
        for c in cands:
            R.check('C08', 'root-checked', (run.name, c), 'ok', where, 'Ok requires the recomputed hash to equal the root', run.name)
            if c.op != 'phi':
                v = 'ok' if (c is Hl or c is p1) and hi is not None and hi <= 2 else 'unknown' if murky(c) or hash_list(p) else 'bad'
                if v == 'ok':
                    ends_early.append(c)
                R.check('C08', 'chain-folded', (run.name, c), v, where, 'the value compared with the root is %s, not the fold over the whole proof' % show(c, 4), run.name)
                continue
            work, seen = [c], set()
            steps = []
            while work:
                q = work.pop()
                if q in seen:
                    continue
                seen.add(q)
                for x in it.phi_init.get(q, ()):
                    if x.op == 'phi':
                        work.append(x)
                        continue
                    v = 'ok' if x is Hl or x is p1 else 'unknown' if murky(x) or any(y.op in ('coll', 'seq') or y.op == 'phi' and y not in seen for y in subterms(x)) else 'bad'
                    R.check('C08', 'chain-starts-at-leaf', (run.name, x), v, where, 'the chain starts at %s' % show(x, 4), run.name)
                steps += [(q, x, f) for x, f in it.phis.get(q, ()) if x not in it.phi_init.get(q, ())]
            for q, x, f in steps:
                tag, ps = hparts(x) if x.op == 'H' else (None, ())
                st = State()
                st.facts = f
                if x is q and few_only(it, st):
                    continue
                if tag != 'Branch' or len(ps) != 2:
                    v = 'unknown' if murky(x) or x.op == 'H' and any(y.op in ('coll', 'seq') for y in ps) or any(y.op == 'phi' and y not in seen for y in subterms(x)) else 'bad'
                    R.check('C08', 'chain-step', (run.name, x), v, where, 'one step of the chain yields %s' % show(x, 4), run.name)
                    continue
                cur = [i for i, y in enumerate(ps) if y in seen]
                sib = [y for y in ps if y not in seen]
                walk = proof_walk(it, sib[0].args[0], proof) if sib and sib[0].op == 'fld' and sib[0].args[1] == 0 else None
                if walk and len(cur) == 1:
                    walks.append(walk)
                elif len(cur) != 1 or sib[0].op != 'fld' or sib[0].args[1] != 0 or sib[0].args[0].op != 'at' or sib[0].args[0].args[0] is not proof:
                    v = 'unknown' if any(murky(y) or not known_entry(y) or any(z.op == 'chunk' for z in subterms(y)) for y in sib) or (sib and sib[0].op not in ('fld', 'bytes', 'sym', 'H')) else 'bad'
                    R.check('C08', 'chain-step', (run.name, x), v, where, 'a step hashes %s instead of the running hash and the proof entry' % show(x, 4), run.name)
                    continue
                item = sib[0].args[0]
                flag = mk('fld', item, 1, '')
                t = it.truth(st, flag)
                v = 'unknown' if t is None and lost else 'bad' if t is None or (cur[0] == 0) != t else 'ok'
                R.check('C08', 'chain-step', (run.name, x, t), v, where, 'with flag %s the running hash is the %s child' % (t, ('zero', 'one')[cur[0]]), run.name)
                ixlo, _ = it.bounds(st, item.args[1])
                plainix = item.args[1].op in ('lin', 'sym') and not any(y.op == 'phi' and (it.bounds(st, y)[0] or 0) >= 1 for k in f if isinstance(k, T) and k.op == 'le0' or isinstance(k, tuple) and k[0] == 'b' for y in subterms(k if isinstance(k, T) else k[1]))
                if walk:
                    ixlo, plainix = walk[0].args[0] if walk[0].op == 'int' else None, True
                    d = walk[1]
                    R.check('C08', 'no-entry-skipped', (run.name, x, d), 'ok' if d is I(1) else 'bad' if d.op == 'int' else 'unknown', where, 'the walk over the proof moves by %s' % show(d, 3), run.name)
                R.check('C08', 'chain-from-third', (run.name, x, ixlo), 'ok' if ixlo == 2 else 'bad' if plainix and ixlo is not None else 'unknown', where, 'the chain consumes proof entries from index %s' % ixlo, run.name)
        ends = [ev for ev in p.log if ev[0] == 'iterend' and contains(ev[1], proof)]
        if ends_early and len(ends_early) == len(cands):
            continue
        if walks:
            over = {walk_over(run, p, w, proof) for w in walks}
            R.check('C08', 'whole-proof-consumed', (run.name, tuple(sorted(over))), 'bad' if 'left' in over and not lost else 'ok' if over == {'over'} else 'unknown', where, 'Ok is reached only when every proof entry was consumed', run.name)
            continue
        R.check('C08', 'whole-proof-consumed', (run.name,), 'ok' if ends else 'unknown' if not any(e.kind == 'iterend' and contains(e.data[0], proof) for e in run.events) else 'bad', where, 'Ok is reached only when every proof entry was consumed', run.name)
        for ev in ends:
            cut = [x for x in subterms(ev[1]) if x.op == 'iter' and x.args[0] in ('take', 'step')]
            R.check('C08', 'no-entry-skipped', (run.name, ev[1]), 'bad' if cut else 'ok', where, 'the proof iteration covers every entry', run.name)


def known_entry(t):
    """Does this value name nothing but arguments and positions in them?"""
    for x in subterms(t):
        if x.op == 'sym':
            n = x.args[0]
            if not (isinstance(n, tuple) and n and n[0] in ('arg', 'idx')):
                return False
    return True


def few_only(it, st):
    """Is this turn of a loop over the proof about one of its first two entries?"""
    for k in st.facts:
        t = k[1] if isinstance(k, tuple) and k[0] == 'b' else k
        for x in subterms(t) if isinstance(t, T) else ():
            if x.op == 'sym' and isinstance(x.args[0], tuple) and x.args[0] and x.args[0][0] == 'idx' or x.op == 'phi':
                hi = it.bounds(st, x)[1]
                if hi is not None and hi <= 1:
                    return True
    return False


def proof_walk(it, item, proof):
    """(first position, step, position, rest or None) for an entry reached with a counter or through the rest of the proof."""
    if item.op != 'at':
        return None
    base, e, rest = item.args[0], item.args[1], None
    if base.op == 'phi':
        ins = it.phi_init.get(base, ())
        outs = [x for x, _ in it.phis.get(base, ())]
        ok = lambda x, b: x.op == 'sub' and x.args[0] is b and x.args[1].op == 'range' and x.args[1].args[1] is mk('len', b)
        ins = [I(0) if x is proof else x.args[1].args[0] if ok(x, proof) else None for x in ins]
        outs = [I(0) if x is base else x.args[1].args[0] if ok(x, base) else None for x in outs if x not in it.phi_init.get(base, ())]
        if None in ins + outs or len(set(ins)) != 1 or len(set(outs)) != 1 or e.op != 'int':
            return None
        return add(ins[0], e), outs[0], e, base
    if base is not proof:
        return None
    qs = [x for x in lin_parts(e)[1] if x.op == 'phi']
    if len(qs) != 1:
        return None
    q, a = qs[0], lin_parts(e)[1][qs[0]]
    ins = {add(add(e, scale(q, a), -1), scale(x, a)) for x in it.phi_init.get(q, ())}
    outs = {scale(add(x, q, -1), a) for x, _ in it.phis.get(q, ()) if x not in it.phi_init.get(q, ())}
    return (ins.pop(), outs.pop(), e, None) if len(ins) == 1 and len(outs) == 1 else None


def walk_over(run, p, walk, proof):
    start, step, e, rest = walk
    lo, hi = run.bounds(p, add(e, mk('len', rest if rest is not None else proof), -1))
    if lo is not None and lo >= 0:
        return 'over'
    if hi is not None and hi < 0 or lo is not None and step is I(1):
        return 'left'
    return 'over' if any(isinstance(k, tuple) and k[0] == 'v' and k[1].op == 'opt' and x == 'None' and k[1].args[0].op == 'key' and k[1].args[0].args[0] == 'get' and k[1].args[0].args[1] is (rest if rest is not None else proof) and k[1].args[0].args[2] is e for k, x in p.facts.items()) else ''


def c09(R, run):
    for e in run.events:
        fn, where = short(e.fn), e.span
        if e.kind == 'push':
            x = e.data[0]
            if x.op == 'bf' and x.args[1] in ('zero', 'one') and run.name in ('get_one', 'generate_inclusion_proof'):
                L, side = x.args[2], x.args[1]
                b = mk('bf', 'Branch', 'split_index', L)
                z = [(k, v) for k, v in e.facts.items() if isinstance(k, T) and k.op == 'boolapp' and k.args[0] == 'zero' and k.args[2] is b]
                v = 'unknown'
                keyarg = sym(('arg', 3))
                if z:
                    v = 'ok' if all(tv == (side == 'zero') and k.args[1] is keyarg for k, tv in z) else 'bad'
                elif any(isinstance(k, T) and k.op == 'boolapp' and k.args[0] == 'zero' and not murky(k) for k in e.facts):
                    v = 'bad'
                elif run.it.unknown_calls:
                    v = 'unknown'
                else:
                    v = 'bad'
                R.check('C09', 'descend-by-bit', (run.name, where, x), v, where, 'descent into %s when the key bit at its split index says %s' % (side, [('zero' if tv else 'one') for _, tv in z] or 'nothing'), fn)
            if run.name == 'generate_inclusion_proof' and x.op == 'tup' and len(x.args) == 2 and x.args[0].op == 'bf' and x.args[0].args[1] in ('zero', 'one'):
                L, side = x.args[0].args[2], x.args[0].args[1]
                b = mk('bf', 'Branch', 'split_index', L)
                z = [tv for k, tv in e.facts.items() if isinstance(k, T) and k.op == 'boolapp' and k.args[0] == 'zero' and k.args[2] is b]
                fl = run.it.truth(_st(e.facts), x.args[1])
                if z and fl is not None:
                    v = 'ok' if all(tv == (side == 'one') for tv in z) and fl == (side == 'one') else 'bad'
                elif z and not murky(x.args[1]) and not run.it.unknown_calls and not contains(x.args[1], sym(('arg', 3))):
                    v = 'bad'
                else:
                    v = 'unknown'
                R.check('C09', 'proof-sibling', (run.name, where, x, fl), v, where, 'proof entry holds the %s child with flag %s while the path takes %s' % (side, fl, ['zero' if t else 'one' for t in z]), fn)
        elif e.kind == 'treecell':
            loc, keys = e.data[0], e.data[1]
            if loc.op == 'bf' and loc.args[1] in ('zero', 'one'):
                L, side = loc.args[2], loc.args[1]
                b = mk('bf', 'Branch', 'split_index', L)
                if keys.op == 'sub' and keys.args[1].op in ('zeros', 'ones'):
                    v = 'ok' if keys.args[1].op == side + 's' and keys.args[1].args[0] is b else 'bad'
                elif keys.op == 'seq' and len(keys.args) == 2 and e.facts.get(mk('boolapp', 'zero', keys.args[1], b)) is not None:
                    v = 'ok' if e.facts[mk('boolapp', 'zero', keys.args[1], b)] == (side == 'zero') else 'bad'
                elif keys.op == 'sub' or murky(keys):
                    v = 'unknown'
                else:
                    v = 'bad' if not murky(keys) and keys.op in ('sorted', 'sym') else 'unknown'
                R.check('C09', 'keys-follow-side', (run.name, where, loc, keys), v, where, 'the %s child is searched for %s' % (side, show(keys, 3)), fn)
        elif e.kind == 'check_descendants':
            l, bsi, bkey, msi = e.data
            if bsi.op == 'bf' and bkey.op == 'bf':
                v = 'ok' if bsi.args[2] is bkey.args[2] and bsi.args[1] == 'split_index' and bkey.args[1] == 'key' else 'bad'
                if v == 'ok' and msi.op == 'msi' and msi.args[1] is not bkey:
                    v = 'bad'
            else:
                v = 'bad' if bsi.op in ('msi', 'int') or bsi.op == 'lin' and any(t.op == 'bf' for t in lin_parts(bsi)[1]) and not any(murky(t) for t in lin_parts(bsi)[1]) else 'unknown'
            R.check('C09', 'descendants-of-branch', (run.name, where, l, bsi, bkey, msi), v, where, 'descendants are selected with the branch\'s own key and split index', fn)
        elif e.kind == 'split_pairs':
            l, b = e.data
            v = 'ok' if b.op == 'bf' and b.args[1] == 'split_index' else 'unknown'
            if v == 'ok':
                L = b.args[2]
                d = [x for x in subterms(l) if x.op == 'desc' and x.args[1] is b]
                seqfact = [k for k in e.facts if isinstance(k, T) and k.op == 'boolapp' and k.args[0] == 'below' and k.args[2].op == 'bf' and k.args[2].args[2] is L]
                if not d and not seqfact:
                    base = l
                    msi = [a for k in e.facts if isinstance(k, tuple) and k[0] == 'b' for a in lin_parts(k[1])[1] if a.op == 'msi' and a.args[1] is mk('bf', 'Branch', 'key', L)]
                    if msi:
                        lo, hi = run.it.bounds(_st(e.facts), add(b, msi[0], -1))
                        v = 'ok' if hi is not None and hi <= 0 else 'bad'
                    else:
                        v = 'unknown' if murky(l) or run.it.unknown_calls else 'bad'
            R.check('C09', 'only-descendants-split', (run.name, where, l, b), v, where, 'only keys that share the branch\'s prefix are split at it', fn)


def _st(facts):
    s = State()
    s.facts = facts
    return s


def c10(R, run):
    if run.name in ('get_one', 'generate_inclusion_proof'):
        keyarg = sym(('arg', 3))
        for e in run.events:
            if e.kind == 'push' and e.data[0].op == 'bf' and e.data[0].args[:2] == ('Leaf', 'data'):
                L = e.data[0].args[2]
                f = e.facts.get(mkeq(mk('bf', 'Leaf', 'key', L), keyarg))
                R.check('C10', 'exact-key', (run.name, e.span, L), 'ok' if f is True else 'unknown' if run.it.unknown_calls else 'bad', e.span,
                        'the data of a leaf is used only when the leaf\'s key equals the requested key', short(e.fn))
    if run.name == 'get_one':
        for p in run.paths:
            if p.kind == 'ok' and p.value.args[2].op == 'adt' and p.value.args[2].args[1] == 'Some':
                x = p.value.args[2].args[2]
                v = 'ok' if x.op == 'dec' and x.args[0].op == 'bf' and x.args[0].args[:2] == ('Data', 'value') and loc_kind(x.args[0].args[2]) == 'data' else 'unknown' if murky(x) or x.op == 'dec' and x.args[0].op == 'bf' and x.args[0].args[2].op in ('phi', 'bv') else 'bad'
                R.check('C10', 'value-of-own-data', (run.name, x), v, p.where, 'get_one returns %s' % show(x, 4), run.name)
    if run.name == 'get':
        for e in run.events:
            if e.kind != 'mapinsert':
                continue
            k, x = e.data
            if not (x.op == 'adt' and x.args[1] == 'Some'):
                continue
            y = x.args[2]
            if not (y.op == 'dec' and y.args[0].op == 'bf' and y.args[0].args[1] == 'value'):
                R.check('C10', 'value-of-own-data', (run.name, e.span, k, y), 'unknown' if murky(y) else 'bad', e.span, 'get stores %s' % show(y, 4), short(e.fn))
                continue
            dl = y.args[0].args[2]
            if dl.op == 'bf' and dl.args[1] == 'data':
                L = dl.args[2]
                want = mk('bf', 'Leaf', 'key', L)
                v = 'ok' if k is want or e.facts.get(mkeq(k, want)) is True else 'unknown' if murky(k) else 'bad'
                R.check('C10', 'value-of-own-data', (run.name, e.span, k, y), v, e.span, 'the value of the leaf at %s is returned under %s' % (show(L, 3), show(k, 3)), short(e.fn))
                if k is want:
                    kf = [f for f in e.facts if contains(f[1] if isinstance(f, tuple) else f, want)]
                    R.check('C10', 'exact-key', (run.name, e.span, L), 'ok' if kf else 'bad', e.span, 'a leaf is returned only if its key is one of the requested keys', short(e.fn))
            else:
                R.check('C10', 'value-of-own-data', (run.name, e.span, k, y), 'unknown', e.span, 'data location not resolved', short(e.fn))


def cell_loc(x):
    """The location a work item stands for."""
    if x.op == 'adt':
        xs = [a.args[0].args[0] for a in x.args[2:] if isinstance(a, T) and a.op == 'nodeval' and a.args[0].op == 'nvar']
        return xs[0] if len(xs) == 1 else None
    return x


def shed(R, run, prop, p, what, of):
    """Work items a step of the walk takes out of its list without looking at them."""
    mine = [(i, ev) for i, ev in enumerate(p.log) if ev[0] == 'pop' and (of is None or ev[1].op == 'adt' and ev[1].args[0].endswith(of))]
    if not mine:
        return
    counted = any(isinstance(k, tuple) and k[0] == 'b' and k[1].op != 'len' and 'phi' in show(k[1], 3) or isinstance(k, T) and (murky(k) or k.op == 'boolapp' and 'phi' in show(k, 3)) for k in p.facts)
    for i, ev in enumerate(p.log):
        if ev[0] != 'shed' or ev[2] not in [e[2] for _, e in mine]:
            continue
        empty = run.bounds(p, mk('len', ev[3]))[1] == 0
        cut = ev[1] == 'clear' or ev[1] == 'truncate' and ev[4] is not None and ev[4].op == 'int'
        R.check(prop, 'walk-completed', (run.name, 'shed', ev[-1], ev[1]), 'ok' if empty else 'bad' if cut and not counted else 'unknown', str(ev[-1]).split('@')[0], what, str(ev[-1]).split('@')[-1])
    for i, ev in mine if len(mine) > 1 else []:
        loc = cell_loc(ev[1])
        if loc is None or any(cell_loc(e[1]) is loc for j, e in mine if j != i):
            continue
        node = mk('nvar', loc)
        seen = ('v', node) in p.facts or any(e[0] not in ('pop', 'shed') and any(isinstance(x, T) and (x is loc or x is ev[1] or contains(x, node) or contains(x, ev[1])) for x in e[1:]) for e in p.log)
        if not seen:
            R.check(prop, 'walk-completed', (run.name, 'unread', ev[-1]), 'unknown' if counted else 'bad', str(ev[-1]).split('@')[0], 'a queued subtree is taken from the work list and dropped: ' + what, str(ev[-1]).split('@')[-1])


def drained(R, run, prop, what, of=None):
    """A success returned in the middle of a walk must not leave queued work behind, nor may a step of the walk throw some away."""
    for p in run.paths:
        if p.kind == 'iter':
            shed(R, run, prop, p, what, of)
    for p in run.paths:
        if p.kind != 'ok':
            continue
        pops = [ev for ev in p.log if ev[0] == 'pop' and (of is None or ev[1].op == 'adt' and ev[1].args[0].endswith(of))]
        if not pops:
            R.check(prop, 'walk-completed', (run.name, 'end'), 'ok', p.where, 'success is reported once the work list is empty', run.name)
            continue
        left = [(k[1], b) for k, b in p.facts.items() if isinstance(k, tuple) and k[0] == 'b' and k[1].op == 'len' and show(k[1].args[0], 1).startswith('pop.')]
        if any(b == (0, 0) for _, b in left):
            v = 'ok'
        elif any(isinstance(k, tuple) and k[0] == 'b' and k[1].op != 'len' and 'phi' in show(k[1], 3) for k in p.facts):
            v = 'unknown'
        else:
            v = 'bad'
        R.check(prop, 'walk-completed', (run.name, pops[-1][-1], v), v, str(pops[-1][-1]), what, str(pops[-1][-1]).split('@')[-1])


def c11(R, run):
    if run.name != 'get':
        return
    drained(R, run, 'C11', 'the lookup can end with subtrees still queued, whose requested keys are then reported absent')
    keys = sym(('arg', 3))
    for p in run.paths:
        if p.kind != 'ok':
            continue
        m = p.value.args[2]
        lo, hi = run.bounds(p, mk('len', keys))
        if hi == 0:
            R.check('C11', 'entry-per-key', (run.name, m), 'ok', p.where, 'no keys, empty map', run.name)
            continue
        if m.op == 'coll' and m.args[0] in ('hmap', 'bmap'):
            full = [e for e in m.args[3] if e.op == 'tup' and e.args[0].op == 'at' and (e.args[0].args[0] is keys or (e.args[0].args[0].op == 'sorted' and e.args[0].args[0].args[0] is keys)) and e.args[0].args[1].op == 'bvidx']
            v = 'bad' if 'filtered' in m.args[2] else 'ok' if full else 'unknown'
            walks = [whole_iter(ev[1]) for ev in p.log if ev[0] == 'iterend' and isinstance(ev[1], T) and contains(ev[1], keys)]
            if v == 'ok' and walks and 'ok' not in walks:
                v = 'bad' if set(walks) == {'bad'} else 'unknown'
        elif m.op == 'seq' and len(m.args) == 1:
            v = 'bad'
        else:
            v = 'unknown'
        R.check('C11', 'entry-per-key', (run.name, m), v, p.where, 'the returned map %s an entry for every requested key' % ('has' if v == 'ok' else 'may lack'), run.name)
    for e in run.events:
        if e.kind == 'mapinsert' and e.data[1].op == 'adt' and e.data[1].args[1] == 'None' and e.data[0].op == 'at':
            src = e.data[0].args[1]
            whole = src.op == 'sym'
            R.check('C11', 'seeded-with-none', (run.name, e.span), 'ok' if whole else 'bad' if src.op == 'lin' else 'unknown', e.span, 'every key gets a None entry first', short(e.fn))
    for p in run.paths:
        if p.kind != 'iter':
            continue
        for k, v in p.facts.items():
            if not (isinstance(k, tuple) and k[0] == 'v' and k[1].op == 'nvar'):
                continue
            L = k[1].args[0]
            if v == 'Branch' and loc_kind(L) != 'data' and any(ev[0] in ('check_descendants', 'split_pairs') and contains(ev[2], L) for ev in p.log):
                sp = [ev for ev in p.log if ev[0] == 'split_pairs' and ev[2] is mk('bf', 'Branch', 'split_index', L)]
                if not sp:
                    d = [x for x in p.facts if isinstance(x, tuple) and x[0] == 'b' and x[1].op == 'len' and x[1].args[0].op == 'sub' and p.facts[x] == (0, 0)]
                    loose = any(isinstance(x, tuple) and x[0] == 'b' and x[1].op == 'len' and b == (0, 0) for x, b in p.facts.items()) \
                        or any(isinstance(x, T) and (x.op == 'boolapp' or murky(x)) for x in p.facts) or run.it.unknown_calls or presence(p.facts, mk('bf', 'Branch', 'zero', L)) == 'None'
                    R.check('C11', 'branch-explored', (run.name, p.fn, L, 'none', bool(d), bool(loose)), 'ok' if d else 'unknown' if loose else 'bad', p.where, 'a branch is left only when no requested key lies below it', p.fn)
                    continue
                for side in ('zero', 'one'):
                    c = mk('bf', 'Branch', side, L)
                    pushed = any(ev[0] == 'treecell' and ev[1] is c for ev in p.log) and any(ev[0] == 'push' and contains(ev[1], c) for ev in p.log)
                    empty = mk('sub', sp[0][1], mk(side + 's', sp[0][2]))
                    lo, hi = run.bounds(p, mk('len', empty))
                    if pushed:
                        vv = 'ok'
                    elif hi == 0 or presence(p.facts, c) == 'None':
                        vv = 'ok'
                    elif any(murky(x) for x in p.facts if isinstance(x, T)):
                        vv = 'unknown'
                    else:
                        vv = 'bad'
                    R.check('C11', 'branch-explored', (run.name, p.fn, c, vv), vv, p.where, 'the %s side is searched unless no requested key lies in it' % side, p.fn)
            if v == 'Leaf':
                want = mk('bf', 'Leaf', 'key', L)
                hit = [x for x, y in p.facts.items() if isinstance(x, tuple) and x[0] == 'v' and x[1].op == 'res' and x[1].args[0] == 'bsearch' and y == 'Ok' and contains(x[1], want)]
                if hit:
                    ins = any(ev[0] == 'mapinsert' for ev in p.log)
                    R.check('C11', 'found-leaf-returned', (run.name, p.fn, L), 'ok' if ins else 'bad', p.where, 'a leaf whose key was requested is put in the result', p.fn)


def c12(R, run):
    keys, vals = sym(('arg', 3)), sym(('arg', 4))
    for e in run.events:
        fn, where = short(e.fn), e.span
        if e.kind in ('split_pairs', 'check_descendants', 'bsearch') and run.name in ('insert', 'get', 'insert_one', 'get_one', 'generate_inclusion_proof'):
            l = e.data[0]
            R.check('C12', 'sorted-where-needed', (run.name, where, e.kind, l), sorted_verdict(l), where, '%s receives keys in order' % e.kind, fn)
        if e.kind == 'queue':
            R.check('C12', 'sorted-where-needed', (run.name, where, e.kind), sorted_verdict(e.data[0]), where, 'tree references are in key order', fn)
        if run.name == 'insert' and e.kind == 'hash':
            tag, ps = hparts(e.data[0])
            if tag == 'Data' and len(ps) == 2 and ps[1].op == 'enc':
                k, v = ps[0], ps[1].args[0]
                R.check('C12', 'value-paired-with-key', (run.name, where, e.data[0]), pair_verdict(k, v, keys, vals), where, 'value %s is stored under key %s' % (show(v, 4), show(k, 4)), fn)
        if run.name in ('insert', 'insert_one') and e.kind == 'treeref':
            k, loc = e.data[0], e.data[1]
            if loc.op == 'H':
                tag, ps = hparts(loc)
                if tag == 'Leaf' and ps:
                    v = 'ok' if ps[0] is k else 'unknown' if murky(k) or murky(ps[0]) else 'bad'
                    R.check('C12', 'leaf-paired-with-key', (run.name, where, k, loc), v, where, 'leaf of key %s is referenced under %s' % (show(ps[0], 4), show(k, 4)), fn)
            elif loc.op == 'corr':
                pass
        if run.name in ('insert', 'insert_one') and e.kind == 'mapinsert':
            k, loc = e.data
            if loc.op == 'H' and hparts(loc)[0] == 'Leaf':
                ps = hparts(loc)[1]
                v = 'ok' if ps[0] is k else 'unknown' if murky(k) or murky(ps[0]) else 'bad'
                R.check('C12', 'leaf-paired-with-key', (run.name, where, k, loc), v, where, 'leaf of key %s is recorded under %s' % (show(ps[0], 4), show(k, 4)), fn)


def pair_verdict(k, v, keys, vals):
    if v.op == 'corr' and len(v.args) == 3:
        vt, kt, key = v.args
        if key is not k:
            return 'unknown' if murky(k) or murky(key) else 'bad'
        if vt.op == 'at' and kt.op == 'at' and vt.args[0] is vals and kt.args[0] is keys:
            return 'ok' if vt.args[1] is kt.args[1] else 'bad'
        if vt.op == 'at' and kt.op == 'at' and (vt.args[0] is vals) and contains(kt.args[0], keys) and kt.args[0].op in ('sorted', 'perm'):
            return 'bad'
        return 'unknown'
    if v.op == 'at' and v.args[0] is vals and k.op == 'at':
        if k.args[0] is keys:
            return 'ok' if v.args[1] is k.args[1] else 'bad'
        if k.args[0].op in ('sorted', 'perm'):
            return 'bad'
    return 'unknown'


def sorted_verdict(l):
    if static_sorted(l):
        return 'ok'
    o = l.op
    if o == 'sub':
        return sorted_verdict(l.args[0])
    if o == 'sym' and isinstance(l.args[0], tuple) and l.args[0][0] == 'arg':
        return 'bad'
    if o == 'perm':
        return 'unknown' if 'sort?' in str(l.args[1].args[0]) else 'bad'
    if o == 'coll' and not murky(l) and not l.args[2] & {'sorted', 'sorted?'}:
        return 'bad' if l.args[3] and not l.args[4] else 'unknown'
    return 'unknown'


def c16(R, run):
    """Iteration in hash order must not reach hashes, storage or results."""
    loops = set()
    for e in run.events:
        if e.kind == 'uiter':
            if e.loops:
                loops.add(e.loops[-1])
            R.check('C16', 'unordered-iteration', (run.name, e.span), 'ok', e.span, 'hash-order iteration examined', short(e.fn))
    ends = {}
    for e in run.events:
        if e.kind in ('hash', 'put', 'push', 'treeref', 'flush'):
            hit = [l for l in e.loops if l in loops]
            R.check('C16', 'order-insensitive', (run.name, e.span, e.kind, bool(hit)), 'bad' if hit and e.kind != 'push' else 'ok', e.span, '%s happens %s' % (e.kind, 'once per element in hash-map order' if hit else 'in a deterministic order'), short(e.fn))
        if e.kind in ('hash', 'put') and any(isinstance(d, T) and unordered_at(d) for d in e.data):
            R.check('C16', 'order-insensitive', (run.name, e.span, 'value'), 'bad', e.span, 'a value picked by hash-map order reaches %s' % e.kind, short(e.fn))


def unordered_at(t):
    return any(x.op == 'at' and isinstance(x.args[0], T) and x.args[0].op == 'coll' and 'unordered' in x.args[0].args[2] for x in subterms(t))


def c18(R, run):
    if run.name == 'remove' or run.name == 'verify_inclusion_proof' or run.depth_ix is None:
        return
    D = mk('fld', sym(('arg', 1)), run.depth_ix, '')
    it = run.it
    if run.name in ('insert', 'get', 'insert_one'):
        for e in run.events:
            if e.kind == 'treecell':
                loc, keys, node, depth = e.data
                if is_root(loc):
                    R.check('C18', 'root-at-zero', (run.name, e.span, depth), 'ok' if depth is I(0) else 'unknown' if murky(depth) else 'bad', e.span, 'the root is at depth %s' % show(depth), short(e.fn))
    for p in run.paths:
        if p.kind == 'err':
            continue
        branches = [k[1].args[0] for k, v in p.facts.items() if isinstance(k, tuple) and k[0] == 'v' and k[1].op == 'nvar' and v == 'Branch' and loc_kind(k[1].args[0]) != 'data']
        work = [ev for ev in p.log if ev[0] in ('check_descendants', 'split_pairs') or (ev[0] == 'push' and ev[1].op == 'bf')]
        if p.kind != 'iter' or not branches or not work:
            continue
        L = None
        for b in branches:
            if any(contains(a, b) for ev in work for a in ev[1:-1] if isinstance(a, T)):
                L = b
                break
        if L is None:
            continue
        los = []
        for k, v in p.facts.items():
            if isinstance(k, tuple) and k[0] == 'b':
                c, d = lin_parts(k[1])
                if D in d and len(d) == 2:
                    o = [a for a in d if a is not D][0]
                    if d[o] == -d[D] and abs(d[D]) == 1:
                        lo, hi = it.bounds(p.state, add(D, o, -1))
                        los.append((o, -1 if hi is not None and hi < 0 else lo))
        popped = [ev[1] for ev in p.log if ev[0] == 'pop']
        own = None
        for x in popped:
            if x.op == 'adt' and x.args[0].endswith('TreeCell') and run.tc['depth'] is not None:
                own = x.args[2 + run.tc['depth']]
        ident = (run.name, p.fn, L)
        if own is not None and own.op == 'int':
            lo, _ = it.bounds(p.state, add(D, own, -1))
            has = own.args[0] == 0 or lo is not None and lo > -own.args[0]
            v = 'ok' if lo == 0 else 'bad'
            R.check('C18', 'limit-exact', ident + (own,), v, p.where, 'a node at depth %s is processed when depth limit - depth >= %s' % (show(own), lo), p.fn)
        elif los:
            good = [lo for o, lo in los if lo is not None]
            v = 'ok' if 0 in good else 'unknown' if not good else 'bad'
            R.check('C18', 'limit-exact', ident + tuple(x.id for x, _ in los), v, p.where, 'a branch is processed when limit - depth >= %s' % good, p.fn)
        else:
            related = any(contains(k[1] if isinstance(k, tuple) else k, D) for k in p.facts)
            R.check('C18', 'limit-exact', ident, 'unknown' if related or it.unknown_calls else 'bad', p.where, 'a branch is processed without comparing its depth with the limit', p.fn)
        # one level deeper per step
        for ev in p.log:
            if ev[0] == 'treecell' and ev[1].op == 'bf' and ev[1].args[2] is L and own is not None:
                d = add(ev[4], own, -1)
                near, far = it.bounds(p.state, d)
                v = 'ok' if d is I(1) or near == far == 1 else 'bad' if d.op == 'int' or far is not None and far < 1 or near is not None and near > 1 else 'unknown'
                R.check('C18', 'child-one-deeper', ident + (ev[4],), v, ev[-1].split('@')[0], 'a child is queued at depth %s under a node at depth %s' % (show(ev[4]), show(own)), ev[-1].split('@')[-1])
        for o, lo in los:
            if o.op != 'phi':
                continue
            for x in it.phi_init.get(o, ()):
                if x.op == 'int':
                    R.check('C18', 'root-at-zero', (run.name, o, x), 'ok' if x is I(0) else 'unknown', p.where, 'depth counting starts at %s' % show(x), p.fn)
    if run.name in ('get_one', 'generate_inclusion_proof'):
        for p in run.paths:
            if p.kind == 'iter':
                kids = [ev for ev in p.log if ev[0] == 'push' and ev[1].op == 'bf' and ev[1].args[1] in ('zero', 'one')]
                if not kids:
                    continue
                cs = [k for k in p.facts if isinstance(k, tuple) and k[0] == 'b' and D in lin_parts(k[1])[1]]
                for k in cs:
                    for o in lin_parts(k[1])[1]:
                        if o.op == 'phi':
                            nxt = [v for c, v in p.mem.items() if isinstance(v, T) and o in lin_parts(v)[1]]
                            if nxt:
                                inc = [add(v, o, -1) for v in nxt]
                                R.check('C18', 'child-one-deeper', (run.name, p.fn, o, tuple(i.id for i in inc)), 'ok' if any(i is I(1) for i in inc) else 'bad', p.where, 'the depth counter grows by %s per level' % [show(i) for i in inc], p.fn)
    if run.name in ('generate_inclusion_proof', 'get_one'):
        # the data node below a leaf is no tree level: reading it may not be refused for its depth
        def limited(facts):
            got = {}
            for k, f in facts:
                if not isinstance(k, tuple) or k[0] != 'b':
                    continue
                c, d = lin_parts(k[1])
                rest = [a for a in d if a is not D]
                if D in d and len(rest) == 1 and rest[0].op == 'phi' and abs(d[D]) == 1 and d[rest[0]] == -d[D]:
                    lo = f[0] - c if d[D] == 1 and f[0] is not None else c - f[1] if d[D] == -1 and f[1] is not None else None
                    if lo is not None and lo >= 0:
                        got[str(rest[0].args[0])] = lo
            return got

        def grown(q, name):
            for x in q.mem.values():
                c, d = lin_parts(x) if isinstance(x, T) else (0, {})
                if len(d) == 1 and all(o.op == 'phi' and str(o.args[0]) == name and a == 1 for o, a in d.items()):
                    return c
            return None
        leaf, limits, where = [], [], ''
        for p in run.paths:
            vs = {v for k, v in p.facts.items() if isinstance(k, tuple) and k[0] == 'v' and k[1].op == 'nvar'}
            if vs == {'Leaf'} and p.kind == 'iter':
                leaf.append(p)
            elif vs == {'Data'} and p.kind in ('iter', 'ok'):
                where = p.where
                limits += [limited(list(p.facts.items()) + list(w)) for w in p.why or [()]]
        if limits and leaf:
            deeper = [o for o in set.intersection(*(set(g) for g in limits)) if all((grown(q, o) or 0) > min(g[o] for g in limits) for q in leaf)]
            R.check('C18', 'data-no-level', (run.name, len(deeper)), 'ok' if not deeper else 'unknown' if it.unknown_calls else 'bad', where, 'the data node of a leaf is %s' % ('refused when it lies below the depth limit, although its leaf does not' if deeper else 'read at any depth'), run.name)


def c19(R, run):
    """No stored entry is lost by an insert."""
    if run.name not in ('insert', 'insert_one'):
        return
    drained(R, run, 'C19', 'the walk over the previous root can end with subtrees still queued, which the new root then lacks', 'TreeCell')
    if run.tr['location'] is not None:
        pieces_joined(R, run, 'C19', 'pieces-joined')
    queues = {k: any(ev[0] == 'push' and isinstance(ev[1], T) and any(t.op == 'adt' and t.args[0].endswith(w) for t in subterms(ev[1])) for p in run.paths for ev in p.log) for k, w in (('ref', 'TreeRef'), ('cell', 'TreeCell'))}
    for p in run.paths:
        if p.kind != 'iter':
            continue
        popped = [ev for ev in p.log if ev[0] == 'pop' and ev[1].op == 'adt' and ev[1].args[0].endswith('TreeCell')]
        if len(popped) != 1 or run.tc['location'] is None:
            continue
        L = popped[0][1].args[2 + run.tc['location']]
        node = popped[0][1].args[2 + run.tc['node']]
        if node.op != 'nodeval' or node.args[0].op != 'nvar':
            R.check('C19', 'carried-over', (run.name, p.fn, L), 'unknown', p.where, 'node not resolved', p.fn)
            continue
        var = fact_variant(p.facts, node.args[0])
        hand = {}
        for ev in p.log:
            if ev[0] == 'treeref':
                hand.setdefault(ev[2], []).append(('ref', ev))
            elif ev[0] == 'treecell':
                hand.setdefault(ev[1], []).append(('cell', ev))
        ident = (run.name, p.fn, L, tuple(sorted(x.id for x in hand)))
        lost = run.it.unknown_calls
        if var == 'Branch':
            z, o = mk('bf', 'Branch', 'zero', L), mk('bf', 'Branch', 'one', L)
            if L in hand:
                v = 'ok' if z not in hand and o not in hand and len(hand[L]) == 1 else 'bad'
                # the whole branch may only be kept when no inserted key lies below it
                e = [x for x in p.facts if isinstance(x, tuple) and x[0] == 'b' and x[1].op == 'len' and p.facts[x] == (0, 0) and x[1].args[0].op == 'sub' and any(y.op == 'desc' for y in subterms(x[1]))]
                e2 = [x for x, t in p.facts.items() if isinstance(x, T) and x.op == 'boolapp' and x.args[0] == 'below' and t is False]
                e3 = [x for x in p.facts if isinstance(x, tuple) and x[0] == 'b' and x[1].op == 'len' and p.facts[x] == (0, 0) and x[1].args[0].op in ('fld', 'at', 'phi', 'sym')]
                R.check('C19', 'kept-only-if-untouched', ident, 'ok' if e or e2 else 'unknown' if lost or e3 else 'bad', p.where, 'a branch is kept whole only when no inserted key lies below it', p.fn)
            else:
                v = 'ok' if len(hand.get(z, ())) == 1 and len(hand.get(o, ())) == 1 else 'unknown' if lost or pushed_somewhere(p, z) and pushed_somewhere(p, o) else 'bad'
            R.check('C19', 'carried-over', ident, v, p.where, 'a visited branch is carried over by %s' % [show(x, 3) for x in hand], p.fn)
        elif var == 'Leaf':
            key = mk('bf', 'Leaf', 'key', L)
            look = [(k[1], v) for k, v in p.facts.items() if isinstance(k, tuple) and k[0] == 'v' and k[1].op == 'opt' and k[1].args[0].op == 'key' and k[1].args[0].args[0] == 'mapget' and contains(k[1], key)]
            look += [(k, 'Some' if v else 'None') for k, v in p.facts.items() if isinstance(k, T) and k.op == 'boolapp' and k.args[0] == 'contains' and contains(k.args[-1], key)]
            look += [(k, 'Some' if v else 'None') for k, v in p.facts.items() if isinstance(k, T) and k.op == 'eq' and key in k.args and any(contains(x, sym(('arg', 3))) for x in k.args)]
            st = {v for _, v in look}
            if L in hand:
                v = 'ok' if st == {'None'} and len(hand[L]) == 1 else 'unknown' if lost or not look else 'bad'
            else:
                v = 'ok' if st == {'Some'} else 'unknown' if lost or (not look and any(murky(k) for k in p.facts if isinstance(k, T))) else 'bad'
            R.check('C19', 'leaf-kept-or-replaced', ident + (tuple(sorted(map(str, st))),), v, p.where, 'a visited leaf is %s when its key is %s among the inserted keys' % ('kept' if L in hand else 'dropped', {'Some': '', 'None': 'not'}.get(next(iter(st), ''), 'unknown')), p.fn)
        for c, hs in hand.items():
            if murky(c):
                continue
            for kind, ev in hs:
                kept = ref_kept(p, c, 'TreeRef' if kind == 'ref' else 'TreeCell')
                held = any(t.op == 'adt' and t.args[0].endswith(('TreeCell', 'TreeRef')) and contains(t, c) for m in p.mem.values() if m.op not in ('coll', 'seq') for t in subterms(m))
                v = 'ok' if kept == 'ok' or any(x[0] == 'recurse' for x in p.log) else 'unknown' if lost or kept == 'unknown' or held or not queues[kind] else 'bad'
                R.check('C19', 'piece-handed-on', (run.name, p.fn, c, kind, v), v, p.where, 'the %s for %s is %s' % ({'ref': 'reference', 'cell': 'queue entry'}[kind], show(c, 3), 'handed on' if v == 'ok' else 'made and then dropped'), p.fn)
    for e in run.events:
        if e.kind == 'treecell' and e.data[0].op == 'bf':
            keys = e.data[1]
            lo, hi = run.it.bounds(_st(e.facts), mk('len', keys)) if keys.op != 'seq' else (len(keys.args) - 1, None)
            R.check('C19', 'descend-only-with-keys', (run.name, e.span, e.data[0]), 'ok' if lo and lo >= 1 else 'unknown', e.span, 'a child is opened only when keys go into it', short(e.fn))


def is_len(t, *of):
    if t.op != 'len':
        return False
    b = t.args[0]
    while b.op in ('sorted', 'perm'):
        b = b.args[0]
    return b in of


def worse(a, b):
    return 'bad' if 'bad' in (a, b) else 'unknown' if 'unknown' in (a, b) else 'ok'


def span_of(run, itr):
    """(first index, [upper bounds, the least counts]) an iterator's position variable takes, or None."""
    k = itr.args[0]
    if k in ('src', 'enum') and isinstance(itr.args[1], T):
        return span_of(run, itr.args[1]) if itr.args[1].op == 'iter' else (I(0), [run.it.length(itr.args[1])])
    if k == 'windows':
        return I(0), [add(add(run.it.length(itr.args[1]), itr.args[2], -1), I(1))]
    if k == 'chunks':
        return I(0), [mk('app', 'chunks', itr.args[1])]
    if k == 'skip':
        r = span_of(run, itr.args[1])
        return r and (r[0], [add(h, itr.args[2], -1) for h in r[1]])
    if k == 'take':
        r = span_of(run, itr.args[1])
        return r and (r[0], r[1] + [add(r[0], itr.args[2])])
    if k == 'zip':
        a, b = span_of(run, itr.args[1]), span_of(run, itr.args[2])
        return (I(0), a[1] + b[1]) if a and b and a[0] is b[0] is I(0) else None
    if k == 'range' and itr.args[2].op != 'infinity':
        return itr.args[1], [itr.args[2]]
    return None


def neighbour_scan(run, keys, a, b, facts):
    """(iterator, verdict, reason) of one comparison of two elements of the key list."""
    if not (key_slot(a) and key_slot(b)):
        return None, 'unknown', ''
    srt = [x.args[0].op == 'sorted' for x in (a, b)]
    d = add(b.args[1], a.args[1], -1)
    if d.op != 'int':
        return None, 'unknown', ''
    lo = a.args[1] if d.args[0] > 0 else b.args[1]
    if not all(srt):
        return None, 'bad', 'only neighbouring keys are compared, in a list that is not sorted'
    if abs(d.args[0]) != 1:
        return None, 'bad' if d.args[0] else 'unknown', 'the keys compared are not neighbours'
    c, atoms = lin_parts(lo)
    if not atoms:
        return None, 'bad', 'only the keys at fixed positions are compared'
    if len(atoms) != 1:
        return None, 'unknown', ''
    ix = next(iter(atoms))
    if ix.op == 'stepix' and ix.args[1].op == 'int' and ix.args[1].args[0] > 1:
        return None, 'bad', 'the scan for repeated keys leaves out a pair of neighbours'
    itr = run.listener.nexts.get(ix)
    r = itr is not None and span_of(run, itr)
    if not r or atoms[ix] != 1:
        return None, 'unknown', ''
    first = add(r[0], I(c))
    n = mk('len', keys)
    left = [add(add(h, I(c)), add(n, I(1), -1), -1) for h in r[1]]
    if any(x.op == 'lin' and lin_parts(x)[1] == {n: -1} and run.it.bounds(_st(facts), x)[0] is None for x in left):
        return itr, 'bad', 'the scan for repeated keys stops after a fixed number of keys'
    if first.op != 'int' or any(x.op != 'int' for x in left):
        return itr, 'unknown', ''
    if first.args[0] > 0 or min(x.args[0] for x in left) < 0:
        return itr, 'bad', 'the scan for repeated keys leaves out a pair of neighbours'
    return itr, 'ok', ''


def c23(R, run):
    if run.name not in ('insert', 'insert_one'):
        return
    keys, vals, root = sym(('arg', 3)), sym(('arg', 4)), sym(('arg', 2))
    puts = [e for e in run.events if e.kind in ('put', 'del', 'flush')]
    scans = {}          # iterator -> 'ok' | 'bad' | 'unknown', for loops that refuse a repeated key
    misses = []
    loose = False       # evidence of a duplicate check of a shape that is not followed
    dupat = {}
    for e in run.events if run.name == 'insert' else ():
        if e.kind == 'dupput':
            dupat[e.span] = e
        if any(ev[0] in ('put', 'del') for ev in e.log):
            continue
        if e.kind == 'dupcmp' and e.data[0] is not e.data[1]:
            itr, v, why = neighbour_scan(run, keys, *e.data, e.facts)
            if v == 'bad':
                misses.append((e, why))
            if itr is not None:
                scans[itr] = worse(scans.get(itr, 'ok'), v)
            elif v != 'bad':
                loose = True
        elif e.kind == 'dupfound':
            for k in e.data:
                itr = run.listener.nexts.get(next(iter(lin_parts(k.args[1])[1]), None))
                if itr is not None and span_of(run, itr) is not None and any(lo is I(0) and all(is_len(h, keys, vals) for h in his) for lo, his in [span_of(run, itr)]) and k.args[1] in run.listener.nexts:
                    scans[itr] = worse(scans.get(itr, 'ok'), 'ok')
                else:
                    loose = True
    for e in dupat.values():
        R.check('C23', 'duplicates-checked-first', (run.name, e.span, 'found'), 'bad', e.span, 'a write happens although two equal keys were found', short(e.fn))

    def plain(k):
        if isinstance(k, tuple) and k[0] == 'b':
            return all(is_len(x, keys, vals) for x in lin_parts(k[1])[1])
        if isinstance(k, tuple) and k[0] == 'v':
            return k[1] is root or k[1].op == 'res' or k[1].op == 'opt' and k[1].args[0].op == 'key'
        return k.op == 'eq' and not any(contains(a, keys) for a in k.args)

    def duplicates(e):
        for k, v in e.facts.items():
            if isinstance(k, tuple) and k[0] == 'b' and v != (None, None):
                c, a = lin_parts(k[1])
                own = [x for x in a if is_len(x, keys)]
                if len(a) == 2 and c == 0 and len(own) == 1 and not any(is_len(x, vals) for x in a) and (v[1] if a[own[0]] > 0 else None if v[0] is None else -v[0]) == 0:
                    return 'ok', 'the collection of the keys has as many entries as there are keys'
        done = [scans[ev[1]] for ev in e.log if ev[0] == 'iterend' and ev[1] in scans]
        if 'ok' in done:
            return 'ok', 'a completed scan refuses repeated keys'
        if loose or 'unknown' in done or not all(plain(k) for k in e.facts):
            return 'unknown', 'a check of another shape'
        if misses:
            return 'bad', misses[0][1]
        return 'bad', 'the write is reached without a check for repeated keys'
    odd = run.it.unknown_calls
    for e in puts:
        fn = short(e.fn)
        st = _st(e.facts)
        it = run.it
        ident = (run.name, e.span, e.kind)
        if run.name == 'insert':
            lo, hi = it.bounds(st, add(mk('len', keys), mk('len', vals), -1))
            R.check('C23', 'lengths-checked-first', ident, 'ok' if lo == hi == 0 else 'bad', e.span, 'keys and values have equal length when the first write happens', fn)
            lo, hi = it.bounds(st, mk('len', keys))
            lo2, _ = it.bounds(st, mk('len', vals))
            R.check('C23', 'nonempty-checked-first', ident, 'ok' if (lo or 0) >= 1 or (lo2 or 0) >= 1 else 'bad', e.span, 'the key list is not empty when the first write happens', fn)
            v, why = duplicates(e)
            R.check('C23', 'duplicates-checked-first', ident, 'unknown' if odd and v == 'bad' else v, e.span, 'duplicate keys are refused before the first write: %s' % why, fn)
        var = e.facts.get(('v', root))
        if var == 'None':
            continue
        pr = presence(e.facts, mk('fld', root, 0, 'Some'))
        R.check('C23', 'root-checked-first', ident + (var,), 'ok' if pr == 'Some' else 'unknown' if odd else 'bad', e.span, 'the previous root is known to exist when the first write happens', fn)


def c25(R, run):
    if run.name != 'verify_inclusion_proof':
        return
    for (where, fn, what, tv, *why) in run.listener.asserts:
        if 'PointerDereference' in what or 'InvalidEnumConstruction' in what:
            tv = True               # the compiler's own checks on what std does inside; there is no unsafe code here (C17)
        if what.startswith('panic') and any(murky(k) for k in why[0][1] if isinstance(k, T)):
            tv = 'unknown'
        if tv is None and why:
            tv = by_disequality(run, *why[0])
            if tv is None and any(x.op == 'len' and x.args[0].op != 'sym' for x in subterms(why[0][0])):
                tv = 'unknown'
        R.check('C25', 'no-panic', (run.name, where, what), 'ok' if tv is True else 'unknown' if tv == 'unknown' or tv is None and what.startswith(('no overflow', 'in bounds', 'panic')) else 'bad', where, 'checked operation: %s' % what, fn)
    d = run.it.dump
    for key in sorted(run.it.inlined):
        b = d.bodies.get(key)
        if not b:
            continue
        for bl in b['blocks']:
            if bl['cl']:
                continue
            t = bl['t']
            if t[0] == 'call' and t[1][0] == 'k' and 'fn' in t[1][1]:
                n = norm(t[1][1]['fn']['path'])
                R.check('C25', 'no-panicking-call', (key, bl['sp'], n), 'unknown' if n in PANICKY else 'ok', bl['sp'], 'call of %s' % n, short(key))


def by_disequality(run, c, facts, want):
    """A counter that starts at most at a limit, goes up by one and is not at the limit here is below it."""
    while c.op == 'not':
        c, want = c.args[0], not want
    if c.op != 'le0' or not want:
        return None
    e = c.args[0]
    known, near = False, False
    for k, v in facts.items():
        if isinstance(k, T) and k.op == 'eq0' and v is False:
            near = near or any(x.op == 'phi' and contains(e, x) for x in subterms(k))
            known = known or any(add(add(e, I(-1)), scale(k.args[0], s)) is I(0) for s in (1, -1))
    qs = [x for x in lin_parts(e)[1] if x.op == 'phi']
    if known and len(qs) == 1:
        q, a = qs[0], lin_parts(e)[1][qs[0]]
        st = State()
        st.facts = facts
        rest = add(e, scale(q, a), -1)
        ins = [run.it.bounds(st, add(rest, scale(x, a)))[1] for x in run.it.phi_init.get(q, ())]
        outs = [scale(add(x, q, -1), a) for x, _ in run.it.phis.get(q, ()) if x not in run.it.phi_init.get(q, ())]
        if any(d.op == 'int' and d.args[0] > 1 for d in outs):
            return None
        if ins and all(x is not None and x <= 1 for x in ins) and all(d.op == 'int' and d.args[0] <= 1 for d in outs):
            return True
    return 'unknown' if near else None


PANICKY = {'Result::unwrap_err', 'slice::copy_from_slice', 'RefCell::borrow_mut'}      # not followed; the others are: see on_need and on_panic


def c26(R, run):
    if run.name not in ('insert', 'insert_one'):
        return
    il, ic, ik = run.tr['location'], run.tr['node_count'], run.tr['key']
    for p in run.paths:
        if p.kind != 'iter' or il is None:
            continue
        made = [(ev, stored_parts(ev[2].args[0])) for ev in p.log if ev[0] == 'put' and ev[1].op == 'H' and ev[2].op == 'nodeval']
        made = [(ev[1], part[2], ev[-1]) for ev, part in made if part[0] == 'new' and part[1] == 'Branch']
        if len(made) != 1:
            continue
        (loc, f, where) = made[0]
        fn = str(where).split('@')[-1]
        z, o = f['zero'], f['one']
        if not (z.op == 'fld' and o.op == 'fld' and z.args[1] == il and o.args[1] == il):
            continue
        seen = 0
        for cell, m in p.mem.items():
            if not (m.op == 'coll' and m.args[0] in ('vec', 'deque')):
                continue
            for slot in m.args[4]:
                ref = slot[1] if isinstance(slot, tuple) else slot.args[1]
                L = run.it.field(p.state, ref, il)
                if L is not loc:
                    if ref.op == 'upd' and not murky(L):
                        R.check('C26', 'merged-reference', (run.name, where, 'location', L), 'unknown', where, 'a reference is updated to another address', fn)
                    continue
                seen += 1
                c, k = run.it.field(p.state, ref, ic), run.it.field(p.state, ref, ik)
                v = 'ok' if c is f['count'] else 'unknown' if murky(c) or murky(f['count']) else 'bad'
                R.check('C26', 'merged-reference', (run.name, where, 'count', c), v, where, 'the reference to a new branch counts %s leaves, the branch %s' % (show(c, 3)[:80], show(f['count'], 3)[:80]), fn)
                v = 'ok' if k in (f['key'],) or k in (mk('fld', z.args[0], ik, z.args[2]), mk('fld', o.args[0], ik, o.args[2])) else 'unknown' if murky(k) else 'bad'
                R.check('C26', 'merged-reference', (run.name, where, 'key', k), v, where, 'the reference to a new branch carries the key of a leaf below it', fn)
    for e in run.events:
        fn, where = short(e.fn), e.span
        if e.kind == 'put' and e.data[0].op == 'H' and e.data[1].op == 'nodeval':
            part = stored_parts(e.data[1].args[0])
            if part[0] == 'new' and part[1] == 'Branch' and il is not None:
                z, o, c, k = [part[2][f] for f in ('zero', 'one', 'count', 'key')]
                if z.op == 'fld' and o.op == 'fld' and z.args[1] == il and o.args[1] == il:
                    a, b = z.args[0], o.args[0]
                    want = add(mk('fld', a, ic, z.args[2]), mk('fld', b, ic, o.args[2]))
                    v = 'ok' if c is want else 'unknown' if murky(c) else 'bad'
                    R.check('C26', 'branch-count-is-sum', (run.name, where, c), v, where, 'branch count is %s' % show(c, 3)[:120], fn)
                    kv = 'ok' if k in (mk('fld', a, ik, z.args[2]), mk('fld', b, ik, o.args[2])) else 'unknown' if murky(k) else 'bad'
                    R.check('C26', 'branch-key-from-below', (run.name, where, k), kv, where, 'branch key is the key of one of its subtrees', fn)
                    R.check('C26', 'two-distinct-children', (run.name, where, z, o), 'ok' if z is not o else 'bad', where, 'the two children come from two references', fn)
                else:
                    R.check('C26', 'branch-count-is-sum', (run.name, where, c), 'unknown', where, 'children not resolved', fn)
        if e.kind == 'treeref':
            k, L, nc, c = e.data
            if murky(L) or L.op == 'fld' and not is_root(L):
                continue
            var = fact_variant(e.facts, mk('nvar', L))
            if L.op == 'H':
                tag, ps = hparts(L)
                if tag != 'Leaf':
                    continue
                want = I(1)
            elif var == 'Branch':
                want = mk('bf', 'Branch', 'count', L)
            elif var == 'Leaf':
                want = I(1)
            else:
                continue
            v = 'ok' if nc is want else 'unknown' if murky(nc) else 'bad'
            R.check('C26', 'reference-carries-count', (run.name, where, L, nc), v, where, 'a reference to a %s counts %s leaves' % (var or 'new leaf', show(nc, 3)), fn)
            R.check('C26', 'reference-is-single', (run.name, where, L, c), 'ok' if c is I(1) else 'unknown' if c.op != 'int' else 'bad', where, 'a fresh reference spans one slot', fn)
            if var in ('Branch', 'Leaf'):
                wk = mk('bf', var, 'key', L)
                v = 'ok' if k is wk else 'unknown' if murky(k) else 'bad'
                R.check('C26', 'reference-carries-own-key', (run.name, where, L, k), v, where, 'a reference to %s carries key %s' % (show(L, 3), show(k, 3)), fn)


def c27(R, run):
    if run.name in ('remove', 'verify_inclusion_proof'):
        return
    for p in run.paths:
        if p.kind == 'err':
            continue
        for k, v in p.facts.items():
            if not (isinstance(k, tuple) and k[0] == 'v'):
                continue
            if k[1].op == 'nvar' and isinstance(v, str):
                L = k[1].args[0]
                lk = 'tree' if is_root(L) else loc_kind(L)
                if lk is None:
                    continue
                good = (v == 'Data') == (lk == 'data')
                R.check('C27', 'kind-matches-place', (run.name, p.kind, p.fn, L, v), 'ok' if good else 'bad', p.where, 'a %s node found %s is %s' % (v, 'under a leaf' if lk == 'data' else 'inside the tree', 'used' if good else 'accepted without an error'), p.fn)
            if k[1].op == 'opt' and k[1].args[0].op == 'key' and k[1].args[0].args[0] == 'db' and v == 'None':
                L = k[1].args[0].args[1]
                lk = 'tree' if is_root(L) else loc_kind(L)
                if lk is None or not any(ev[0] == 'get' and ev[1] is L for ev in p.log):
                    continue
                if run.name in ('insert', 'insert_one', 'generate_inclusion_proof') or (run.name == 'get' and lk == 'data'):
                    R.check('C27', 'missing-node-reported', (run.name, p.kind, p.fn, L), 'bad', p.where, 'a node the tree refers to (%s) is missing and %s goes on without an error' % (show(L, 3), run.name), p.fn)
    for p in run.paths:
        if p.kind == 'err':
            for ev in p.log:
                if ev[0] == 'get':
                    L = ev[1]
                    pr = presence(p.facts, L)
                    if pr == 'None':
                        R.check('C27', 'missing-node-reported', (run.name, p.kind, p.fn, L), 'ok', p.where, 'a missing node makes %s fail' % run.name, p.fn)


def new_leaf(t):
    return t.op == 'H' and hparts(t)[0] == 'Leaf'


def whole_iter(itr, depth=0):
    """Does this iterator run over its whole source?  'ok', 'bad' (certainly cut) or 'unknown'."""
    if itr.op != 'iter' or depth > 6:
        return 'unknown'
    k = itr.args[0]
    if k == 'src':
        x = itr.args[1]
        if x.op == 'sub':
            return 'bad' if partial(x) else 'unknown'
        if x.op in ('sorted', 'perm') or x.op == 'sym' and isinstance(x.args[0], tuple) and x.args[0][0] == 'arg' or x.op == 'seq':
            return 'ok'
        if x.op == 'coll':
            return 'bad' if 'filtered' in x.args[2] else 'ok'
        return 'unknown'
    if k in ('enum', 'rev'):
        return whole_iter(itr.args[1], depth + 1)
    if k == 'zip':
        return worse(whole_iter(itr.args[1], depth + 1), whole_iter(itr.args[2], depth + 1))
    if k == 'range':
        lo, hi = itr.args[1], itr.args[2]
        if lo.op == 'int' and lo.args[0] > 0:
            return 'bad'
        if hi.op == 'len':
            return 'ok' if lo is I(0) else 'unknown'
        if hi.op == 'lin' and lin_parts(hi)[0] < 0:
            return 'bad'
        return 'unknown'
    if k in ('take', 'skip', 'step'):
        n = itr.args[2]
        if k == 'take' and n.op == 'lin':
            c0, d = lin_parts(n)
            if len(d) == 1 and show(next(iter(d)), 2) == 'const N' and next(iter(d.values())) * 64 + c0 < 8 * 64:
                return 'bad'        # fewer than there are bits in a key
        if k == 'take' and (n.op == 'len' or murky(n)):
            return 'unknown'
        if k == 'skip' and n is I(0) or k == 'step' and n is I(1):
            return whole_iter(itr.args[1], depth + 1)
        return 'bad' if n.op in ('int', 'lin', 'min') else 'unknown'
    return 'unknown'


def ref_kept(p, x, what='TreeRef'):
    """Is a reference to (or cell of) x handed on: pushed, or held by a collection at the end of the step?"""
    def isref(t):
        return t.op == 'adt' and t.args[0].endswith(what) and contains(t, x)
    v = 'bad'
    for ev in p.log:
        if ev[0] in ('push', 'mapinsert'):
            for y in ev[1:]:
                if isinstance(y, T) and contains(y, x):
                    if any(isref(t) for t in subterms(y)):
                        return 'ok'
                    if ev[0] == 'push':
                        v = 'unknown'
    if any(m.op in ('coll', 'seq') and any(isref(t) for t in subterms(m)) for m in p.mem.values()):
        return 'ok'
    return v


def recorded(p):
    """Does the step hand on the address of a new leaf?"""
    return any(ev[0] in ('push', 'mapinsert', 'treeref') and any(isinstance(y, T) and any(new_leaf(t) for t in subterms(y)) for y in ev[1:]) for ev in p.log)


def pieces_joined(R, run, P, rule):
    """The list that is joined holds the new leaves and everything carried over."""
    il = run.tr['location']
    lost = run.it.unknown_calls
    zero_lens = lambda e: {k[1] for k, b in e.facts.items() if isinstance(k, tuple) and k[0] == 'b' and k[1].op == 'len' and b == (0, 0)}
    full = [e for e in run.events if e.kind == 'queue' and any(t.op == 'adt' and t.args[0].endswith('TreeRef') and not new_leaf(t.args[2 + il]) for t in subterms(e.data[0]))]
    worklists = set.intersection(*map(zero_lens, full)) if full else set()      # lists that are empty although pieces were carried over
    for e in run.events:
        if e.kind != 'queue':
            continue
        l = e.data[0]
        while l.op in ('sorted', 'perm'):
            l = l.args[0]
        fn, where = short(e.fn), e.span
        if l.op == 'seq':
            elems, flags, extra = list(l.args[1:]), (), False
        elif l.op == 'coll':
            elems, flags, extra = list(l.args[3]) + [(x[1] if isinstance(x, tuple) else x.args[1]) for x in l.args[4]], l.args[2], 'base' in l.args[2]
        else:
            R.check(P, rule, (run.name, where, l), 'unknown', where, 'the list of pieces is not resolved', fn)
            continue
        locs = []
        for x in elems:
            if x.op == 'adt' and x.args[0].endswith('TreeRef'):
                locs.append(x.args[2 + il])
            else:
                extra = True
        opq = extra or lost or any(y.op == 'bv' and not loc_kind(y) for y in locs)
        if P == 'C24':
            R.check(P, 'pieces-in-key-order', (run.name, where), sorted_verdict(e.data[0]), where, 'the pieces are in key order when neighbours are looked for', fn)
        if 'filtered' in flags:
            R.check(P, rule, (run.name, where, 'filtered'), 'bad', where, 'pieces are taken out of the list before it is joined', fn)
        have = any(new_leaf(y) for y in locs)
        R.check(P, rule, (run.name, where, 'new', have), 'ok' if have else 'unknown' if opq else 'bad', where, 'the pieces joined %s the new leaves' % ('include' if have else 'lack'), fn)
        root = sym(('arg', 2))
        if fact_variant(e.facts, root) == 'Some':
            have = any(not new_leaf(y) for y in locs)
            empty = zero_lens(e) - worklists
            v = 'ok' if have else 'unknown' if opq or empty else 'bad'
            R.check(P, rule, (run.name, where, 'carried', v), v, where, 'the pieces joined %s those carried over from the previous root' % ('include' if have else 'lack'), fn)


def c24(R, run):
    """Every given pair becomes a leaf, and the new root joins exactly those leaves and the carried subtrees."""
    if run.name not in ('insert', 'insert_one'):
        return
    P = 'C24'
    il, ic, ik, isp = run.tr['location'], run.tr['node_count'], run.tr['key'], run.tr['count']
    if il is None or isp is None:
        return
    lost = run.it.unknown_calls
    # a leaf names the data node stored along with it
    for p in run.paths:
        if p.kind == 'err':
            continue
        put = [(ev[1], stored_parts(ev[2].args[0]), ev[-1]) for ev in p.log if ev[0] == 'put' and ev[2].op == 'nodeval']
        datas = [loc for loc, part, _ in put if part[0] == 'new' and part[1] == 'Data']
        for loc, part, where in put:
            if part[0] != 'new' or part[1] != 'Leaf':
                continue
            d, k = part[2]['data'], part[2]['key']
            v = 'ok' if d in datas else 'unknown' if murky(d) or any(murky(x) for x in datas) else 'bad'
            R.check(P, 'leaf-names-its-data', (run.name, where, d, tuple(datas)), v, str(where).split('@')[0], 'the leaf of %s names data at %s' % (show(k, 3), show(d, 3)), str(where).split('@')[-1])
    # loops that store leaves, or make references to them, do so for every key and run to the end
    mine = {}
    for p in run.paths:
        if p.kind == 'iter':
            mine.setdefault(p.lid, []).append(p)
    oks = [p for p in run.paths if p.kind == 'ok']
    for lid, ps in mine.items():
        for what, has in (('stores the leaf', lambda p: any(ev[0] == 'put' and new_leaf(ev[1]) for ev in p.log)),
                          ('makes a reference to the leaf', lambda p: any(ev[0] == 'treeref' and new_leaf(ev[2]) for ev in p.log)),
                          ('hands on the address of the leaf', recorded)):
            if not any(has(p) for p in ps) or has is recorded and not any(ev[0] == 'put' and new_leaf(ev[1]) for p in ps for ev in p.log):
                continue
            for n, p in enumerate(ps):
                v = 'ok' if has(p) else 'unknown' if lost or any(isinstance(k, T) and murky(k) for k in p.facts) else 'bad'
                R.check(P, 'every-key-handled', (run.name, p.fn, lid, what, v), v, p.where, 'a step of the loop that %s of a key %s' % (what, 'does' if v == 'ok' else 'may skip it'), p.fn)
            ends = {ev[1] for e in run.events if e.kind == 'leave' and e.extra[0] == lid for ev in e.log}
            ends = {e for e in ends if e.op == 'iter'}
            mark = {e for e in ends if any(ev[0] == 'iterend' and ev[1] is e for q in oks for ev in q.log)}
            for e in mark:
                v = whole_iter(e)
                R.check(P, 'every-key-handled', (run.name, ps[0].fn, lid, what, e), v, ps[0].where, 'the loop that %s runs over %s' % (what, show(e, 3)), ps[0].fn)
            if mark:
                for n, q in enumerate(oks):
                    done = any(ev[0] == 'iterend' and ev[1] in mark for ev in q.log)
                    v = 'ok' if done else 'unknown' if lost or not any(ev[0] in ('queue', 'flush') for ev in q.log) else 'bad'
                    R.check(P, 'every-key-handled', (run.name, 'end', lid, what, v), v, ps[0].where, 'success is reported only after the loop that %s has seen every key' % what, ps[0].fn)
        # references made on the way are kept
        for p in ps:
            for ev in p.log:
                if ev[0] != 'treeref':
                    continue
                L = ev[2]
                where, fn = str(ev[-1]).split('@')[0], str(ev[-1]).split('@')[-1]
                v = ref_kept(p, L)
                v = v if v == 'ok' else 'unknown' if lost or murky(L) else v
                R.check(P, 'reference-kept', (run.name, fn, where, L, v), v, where, 'the reference to %s is %s' % (show(L, 3), 'added to the pieces' if v == 'ok' else 'made but not added to the pieces of the new tree'), fn)
                if not new_leaf(L) and not any(x[0] == 'put' and x[1] is L for x in p.log):
                    v = 'ok' if is_root(L) or loc_kind(L) == 'tree' else 'unknown' if murky(L) or L.op in ('fld', 'corr', 'at', 'phi') or lost else 'bad'
                    R.check(P, 'reference-to-stored-node', (run.name, fn, where, L), v, where, 'a carried piece is referred to by %s' % show(L, 3), fn)
    pieces_joined(R, run, P, 'all-pieces-joined')
    # without joining, there was only one piece
    for p in oks:
        if any(ev[0] == 'queue' for ev in p.log) or lost:
            continue
        n = [b for k, b in p.facts.items() if isinstance(k, tuple) and k[0] == 'b' and k[1].op == 'len' and not is_len(k[1], sym(('arg', 3)), sym(('arg', 4)))]
        x = p.value.args[2]
        if any(b == (1, 1) for b in n):
            v = 'ok'
        elif any(b[1] is not None and b[1] > 1 and (b[0] or 0) <= b[1] for b in n):
            v = 'bad'
        else:
            v = 'unknown' if n or run.name == 'insert' else 'ok'
        R.check(P, 'single-piece-is-the-root', (run.name, x, v), v, p.where, 'a piece is returned as the root without joining only when it is the only one', run.name)
    # levels are joined from the deepest split upwards
    for p in oks:
        at = [i for i, ev in enumerate(p.log) if ev[0] == 'queue']
        if not at:
            continue
        v, seen = 'unknown', None
        for ev in p.log[at[-1]:]:
            if ev[0] != 'iterend' or ev[1].op != 'iter':
                continue
            t, rev = ev[1], False
            cut = False
            while t.op == 'iter' and t.args[0] in ('rev', 'enum', 'skip', 'take', 'step'):
                rev ^= t.args[0] == 'rev'
                cut |= t.args[0] in ('skip', 'take', 'step') and whole_iter(t) == 'bad'
                t = t.args[1]
            if t.op != 'iter' or t.args[0] != 'src' or t.args[1].op != 'coll':
                continue
            seen = ev[1]
            f = t.args[1].args[2]
            if cut or 'filtered' in f or 'sieved' in f and not any(x.op in ('tup', 'adt') for x in t.args[1].args[3]):
                v = 'bad'
            elif 'sorted' in f:
                v = 'ok' if rev else 'bad'
            else:
                v = 'bad' if 'unordered' in f else 'unknown'
        R.check(P, 'deepest-split-first', (run.name, seen, v), v, p.where, 'the splits are worked through %s' % (show(seen, 3) if seen is not None else 'in an order that is not resolved'), 'create_tree')
    # every join queued on a level is made before the next level
    joins = {p.lid for p in run.paths if p.kind == 'iter' and any(ev[0] == 'put' and ev[2].op == 'nodeval' and stored_parts(ev[2].args[0])[:2] == ('new', 'Branch') for ev in p.log)}
    for lid in joins:
        lv = [e for e in run.events if e.kind == 'leave' and e.extra[0] == lid and len(e.loops) > 1]
        mark = {ev[1] for e in lv for ev in e.log if ev[1].op == 'iter'}
        if not mark:
            continue
        up = {e.loops[-2] for e in lv}
        for t in mark:
            v = whole_iter(t)
            if v == 'bad':
                R.check(P, 'level-worked-through', (run.name, lid, t), v, lv[0].span, 'the joins of a level are worked through %s' % show(t, 3), short(lv[0].fn))
        for q in run.paths:
            if q.kind != 'iter' or q.lid not in up:
                continue
            if any(ev[0] == 'iterend' and ev[1] in mark for ev in q.log):
                v = 'ok'
            elif lost or any(isinstance(k, T) and murky(k) or isinstance(k, tuple) and k[0] == 'b' and k[1].op == 'len' and b == (0, 0) for k, b in q.facts.items()):
                v = 'unknown'
            else:
                v = 'bad'
            R.check(P, 'level-worked-through', (run.name, lid, v, q.fn), v, lv[0].span, 'a level is left %s its joins are made' % ('once all' if v == 'ok' else 'before all'), short(lv[0].fn))
    # each join
    for p in run.paths:
        if p.kind != 'iter':
            continue
        made = [(ev, stored_parts(ev[2].args[0])) for ev in p.log if ev[0] == 'put' and ev[1].op == 'H' and ev[2].op == 'nodeval']
        made = [(ev[1], part[2], ev[-1]) for ev, part in made if part[0] == 'new' and part[1] == 'Branch']
        if len(made) != 1:
            continue
        loc, f, sp = made[0]
        where, fn = str(sp).split('@')[0], str(sp).split('@')[-1]
        z, o, S = f['zero'], f['one'], f['split_index']
        if not (z.op == 'fld' and o.op == 'fld' and z.args[1] == il and o.args[1] == il and z.args[0].op == 'at' and o.args[0].op == 'at' and z.args[0].args[0] is o.args[0].args[0]):
            R.check(P, 'join', (run.name, fn, z, o), 'unknown', where, 'children not resolved', fn)
            continue
        lst, a, b = z.args[0].args[0], z.args[0].args[1], o.args[0].args[1]
        # the split is the one queued with this position
        tups = [t for m in p.mem.values() for t in subterms(m) if t.op == 'tup' and len(t.args) == 3]
        same = lambda u, w: u.op == w.op == 'fld' and u.args[0] is w.args[0] and u.args[1] != w.args[1]
        own = [t for t in tups if a in t.args]
        if same(a, S) or any(S in t.args for t in own):
            v = 'ok'
        else:
            v = 'unknown' if murky(S) or murky(a) or not own and a.op != 'fld' else 'bad'
        R.check(P, 'split-of-this-join', (run.name, fn, S, a), v, where, 'the branch over positions %s and %s records split %s' % (show(a, 2), show(b, 2), show(S, 3)), fn)
        # afterwards both places name the branch
        slots = {}
        for m in p.mem.values():
            if m.op == 'coll' and m.args[0] in ('vec', 'deque', 'slice') and m.args[4]:
                for s in m.args[4]:
                    ixt, ref = s if isinstance(s, tuple) else s.args[:2]
                    slots[ixt] = ref
        if not slots:
            R.check(P, 'both-places-updated', (run.name, fn, 'none'), 'unknown', where, 'the list after the join is not resolved', fn)
            continue
        for side, ixt in (('left', a), ('right', b)):
            ref = slots.get(ixt)
            if ref is None:
                v = 'unknown' if murky(ixt) and any(murky(x) for x in slots) and len(slots) > 1 else 'bad'
                got = 'its old piece'
            else:
                L = run.it.field(p.state, ref, il)
                v = 'ok' if L is loc else 'unknown' if murky(L) else 'bad'
                got = show(L, 3)
            R.check(P, 'both-places-updated', (run.name, fn, side, ixt, v), v, where, 'after the join the %s position holds %s' % (side, 'the branch' if v == 'ok' else got), fn)
        # how far the joined piece reaches
        ca, cb = mk('fld', z.args[0], isp, z.args[2]), mk('fld', o.args[0], isp, o.args[2])
        if b in slots:
            c = run.it.field(p.state, slots[b], isp)
            c0, d = lin_parts(c)
            for y, k in d.items():      # the other place was written in between: it is a different one
                if y.op == 'fld' and y.args[0].op == 'at' and y.args[0].args[0].op == 'coll' and y.args[0].args[1] in (a, b) and y.args[0].args[0].args[:4] == lst.args[:4]:
                    if any((s[0] if isinstance(s, tuple) else s.args[0]) is y.args[0].args[1] for s in y.args[0].args[0].args[4]):
                        continue
                    c = add(add(c, y, -k), mk('fld', mk('at', lst, y.args[0].args[1]), *y.args[1:]), k)
            if c is add(ca, cb):
                v = 'ok'
            elif any(y.op in ('phi', 'bv') for y in lin_parts(c)[1]) or murky(c):
                v = 'unknown'
            else:
                v = 'bad'
                lo, hi = run.bounds(p, cb)
                if lo is not None and lo == hi and c is add(ca, I(lo)):
                    v = 'ok'
            R.check(P, 'span-is-sum', (run.name, fn, c), v, where, 'the joined piece spans %s places' % show(c, 3), fn)
        c0, d = lin_parts(add(b, a, -1))
        if b.op == 'phi' or any(y.op in ('phi', 'bv') for y in d):
            v = 'unknown'
        elif not d and c0 == 1 or any(b is t.args[-1] for t in own) or same(a, b):
            lo, hi = run.bounds(p, cb)
            v = 'ok' if hi is not None and hi <= 1 else 'bad'
        else:
            lo, hi = run.bounds(p, add(cb, add(b, a, -1), -1))
            v = 'ok' if hi is not None and hi <= 0 else 'bad' if not murky(b) else 'unknown'
        R.check(P, 'right-edge', (run.name, fn, b, v), v, where, 'the right piece is taken from the right edge of what was already joined there', fn)


CORE_RULES = {'C01': c01_c02, 'C02': c01_c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10,
              'C11': c11, 'C12': c12, 'C16': c16, 'C18': c18, 'C19': c19, 'C23': c23, 'C24': c24, 'C25': c25, 'C26': c26, 'C27': c27}


def core_runs(dump, models, cfg, names=ENTRIES):
    runs = {}
    for k, b in dump.bodies.items():
        if '::merkle_bit::' in k and b.get('name') in names and '{closure' not in k:
            runs[b['name']] = Run(dump, models, k, b['name'], cfg)
    return runs
