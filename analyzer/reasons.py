"""Rules over why an operation refuses or answers absent, registered with the core rules (C32 to C34)."""
from rules import *

KEYS, VALS, PROOF = sym(('arg', 3)), sym(('arg', 4)), sym(('arg', 4))
ARG = {'insert': (3, 4), 'get': (3,), 'verify_inclusion_proof': (4,)}
LISTED = {'insert': 'the keys and values are invalid, ', 'insert_one': '', 'verify_inclusion_proof': 'the proof does not fit, '}
WHY = 'a failing call, the depth limit, a missing or wrong node, or a key that is not there'


def variants(f):
    """(kinds a fact allows) of a node's variant fact."""
    return {f} if isinstance(f, str) else {'Branch', 'Leaf', 'Data'} - set(f)


def depth_field(run, t):
    return t.op == 'fld' and t.args[1] == run.depth_ix and is_root(t)


def base(t):
    while t.op in ('sorted', 'perm', 'sub'):
        t = t.args[0]
    return t


def left_over(t):
    """Is t the number of entries left on a work list?"""
    n = t.args[0].args[0] if t.op == 'len' and t.args[0].op == 'sym' else None
    return isinstance(n, tuple) and bool(n) and n[0] == 'pop'


def only_len(t, *bases):
    """Is t the length of one of these arguments?"""
    if t.op != 'len':
        return False
    b = t.args[0]
    while b.op in ('sorted', 'perm', 'sub'):
        if b.op == 'sub':
            return False
        b = b.args[0]
    return b in bases


def cause(run, k, v, last=True):
    """Is this path fact a stated reason for refusing, or for answering absent?"""
    name = run.name
    if isinstance(k, tuple) and k[0] == 'b':
        c, a = lin_parts(k[1])
        if any(left_over(x) for x in a):
            return None
        if any(depth_field(run, x) and n > 0 for x, n in a.items()) and v[1] is not None and v[1] <= 0:
            return 'depth limit'
        if any(depth_field(run, x) and n < 0 for x, n in a.items()) and v[0] is not None and v[0] >= 0:
            return 'depth limit'
        if name == 'insert':
            if len(a) == 1 and only_len(k[1], KEYS, VALS) and v[1] == 0:
                return 'no keys'
            if len(a) == 2 and all(is_len(x, KEYS, VALS) for x in a) and (v[0] is not None and v[0] > 0 or v[1] is not None and v[1] < 0):
                return 'lengths differ'
        if name == 'verify_inclusion_proof' and only_len(k[1], PROOF) and v[1] is not None and v[1] <= 1:
            return 'proof too short'
        if k[1].op == 'len' and v == (0, 0) and any(y.op == 'desc' for y in subterms(k[1])):
            return 'no key below the branch'
        return None
    if isinstance(k, tuple) and k[0] == 'v':
        t = k[1]
        if t.op == 'nvar':
            L = t.args[0]
            kind = loc_kind(L)
            ks = variants(v)
            if kind == 'data':
                return 'wrong kind of node' if 'Data' not in ks else None
            return 'wrong kind of node' if ks == {'Data'} or kind is None and murky(L) else None
        if t.op == 'opt' and t.args[0].op == 'key' and t.args[0].args[0] == 'db':
            L = t.args[0].args[1]
            return 'missing node' if v == 'None' and L.op != 'H' else None
        if t.op == 'opt' and v == 'None' and not is_root(t):
            return 'nothing where something is needed' if last or not (t.args[0].op == 'key' and t.args[0].args[0] == 'mapget') else None
        if t.op == 'opt' and v == 'Some' and name == 'insert' and t.args[0].op == 'key' and t.args[0].args[0] == 'oldval':
            return 'a repeated key'
        if t.op == 'res' and v == 'Err':
            return 'a failing call'
        return None
    if isinstance(k, T) and k.op in ('eq', 'eq0', 'boolapp'):
        if k.op == 'eq0' and v is False and name == 'insert':
            a = lin_parts(k.args[0])[1]
            return 'lengths differ' if len(a) == 2 and all(is_len(x, KEYS, VALS) for x in a) else None
        if k.op == 'eq':
            if v is True and any(key_slot(x) for x in k.args) and name == 'insert':
                return 'a repeated key'
            if v is False and name in ('get_one', 'generate_inclusion_proof') and KEYS in k.args and any(x.op == 'bf' and x.args[:2] == ('Leaf', 'key') or murky(x) for x in k.args):
                return 'the leaf of another key'
            if v is False and name == 'verify_inclusion_proof':
                x, y = k.args
                for x, y in ((x, y), (y, x)):
                    if x.op == 'H' and y.op == 'fld' and y.args[1] == 0 and y.args[0].op == 'at' and y.args[0].args[0] is PROOF:
                        return 'proof does not fit'
                    if x is sym(('arg', 1)) and (y.op in ('phi', 'H') or murky(y)):
                        return 'proof does not fit'
        if k.op == 'boolapp':
            if k.args[0] == 'below' and v is False:
                return 'no key below the branch'
            if name == 'insert' and (k.args[0] == 'newly' and v is False or k.args[0] == 'contains' and v is True and base(k.args[1]) is not KEYS):
                return 'a repeated key'
    return None


def understood(run, k, v):
    """A fact whose meaning is known, so that it can be said not to be a stated reason."""
    if isinstance(k, tuple) and k[0] == 'b':
        c, a = lin_parts(k[1])
        if any(depth_field(run, x) for x in a) and len(a) <= 2:
            return True
        if len(a) == 2 and all(is_len(x, KEYS, VALS) for x in a):
            return True
        return len(a) == 1 and plain_number(next(iter(a))) or proof_span(run, k, v) is not None
    if isinstance(k, tuple) and k[0] == 'v':
        t = k[1]
        return t.op in ('nvar', 'opt', 'res') or is_root(t)
    if isinstance(k, T):
        if k.op == 'boolapp':
            return k.args[0] in ('below', 'bit') or k.args[0] == 'contains' and base(k.args[1]) in (KEYS, VALS)
        return k.op in ('eq', 'eq0', 'fld', 'at') and not murky(k)
    return False


def proof_span(run, k, v):
    """For a fact that compares the length of the proof with that of the key: does it hold of genuine proofs?"""
    if run.name != 'verify_inclusion_proof':
        return None
    a = lin_parts(k[1])[1]
    by = next((x for x in a if x.op == 'sym' and x.args[0] == 'const N'), None)
    ln = next((x for x in a if only_len(x, PROOF)), None)
    if len(a) != 2 or by is None or ln is None or a[by] * a[ln] >= 0:
        return None
    lo, hi = v if a[ln] > 0 else (None if v[1] is None else -v[1], None if v[0] is None else -v[0])
    bits = abs(a[by])
    # a branch for each bit of the key, the leaf and the data
    return lo is not None and abs(a[ln]) == 1 and (bits < 8 or bits == 8 and lo <= 2)


def plain_number(t):
    return t.op in ('len', 'bf', 'refs', 'phi', 'sym', 'fld', 'at', 'trunc')


def narrow(run, k, v):
    """Does this fact single out some of the inputs or stored nodes by a number, a flag or a comparison?"""
    if isinstance(k, tuple) and k[0] == 'b':
        c, a = lin_parts(k[1])
        if len(a) != 1:
            return bool(proof_span(run, k, v)) or len(a) == 2 and any(depth_field(run, x) for x in a) and any(left_over(x) for x in a)
        t = next(iter(a))
        if t.op == 'len' and t.args[0].op in ('bf', 'enc'):
            return True
        if t.op == 'len':
            m = 8 if run.name in ('insert', 'insert_one') else 2
            return v[0] is not None and v[0] > m or v[1] is not None and v[1] >= m
        return t.op in ('bf', 'refs') or run.name not in ('insert', 'insert_one')
    if isinstance(k, T) and k.op == 'boolapp' and k.args[0] == 'contains' and base(k.args[1]) in (KEYS, VALS):
        return True
    if isinstance(k, T) and run.name not in ('insert', 'insert_one'):
        return k.op in ('eq', 'eq0', 'fld', 'at') or k.op == 'boolapp' and k.args[0] == 'bit'
    return False


def why(run, facts):
    facts = list(facts)
    for i, (k, v) in enumerate(facts):
        c = cause(run, k, v, i == len(facts) - 1)
        if c:
            return c
    return None


def reasons(run, facts, alternatives):
    """(reason or None, everything understood) for each way to get to a place."""
    known = list(facts.items())
    c = why(run, known)
    if c:
        return [(c, True)]
    plain = all(understood(run, k, v) for k, v in known)
    apart = any(narrow(run, k, v) for k, v in known)
    out = {}
    for alt in alternatives:
        c = why(run, alt)
        out[c] = out.get(c, False) or c is None and plain and (apart or any(narrow(run, k, v) for k, v in alt)) and all(understood(run, k, v) for k, v in alt)
    return [(c, p) for c, p in out.items()]


HELPERS = {'choose_zero', 'split_pairs', 'check_descendants', 'calc_min_split_index'}


def helper_runs(run):
    """The key helpers, each on its own."""
    if not hasattr(run, 'helpers'):
        dump = run.it.dump
        run.helpers = [Run(dump, run.it.models, key, b['name'], run.cfg) for key, b in sorted(dump.bodies.items())
                       if '::tree_utils::' in key and b.get('name') in HELPERS and '{closure' not in key]
    return run.helpers


def helper_reasons(R, P, run):
    """The key helpers fail only for an empty list, a position beyond the key or a failing call."""
    for h in helper_runs(run):
        if h.error:
            R.check(P, 'refused-for-a-reason', (h.name, 'gave up'), 'unknown', h.key, str(h.error), h.name)
            continue
        for e in h.events:
            if e.kind != 'raise':
                continue
            c, apart = None, False
            for k, v in e.facts.items():
                if isinstance(k, tuple) and k[0] == 'v' and (k[1].op == 'opt' and v == 'None' or k[1].op == 'res' and v == 'Err'):
                    c = 'nothing where something is needed'
                elif isinstance(k, tuple) and k[0] == 'b':
                    a = lin_parts(k[1])[1]
                    t = next(iter(a)) if len(a) == 1 else None
                    if t is not None and t.op == 'len' and v[1] == 0:
                        c = 'an empty list'
                    elif t is not None and (t.op == 'sym' or t.op == 'len' and t.args[0].op == 'sym' or t.op == 'arith' and t.args[0] in ('Shr', 'Div') and t.args[1].op == 'sym' and t.args[2].op == 'int') and v[0] is not None and v[0] > 8:
                        apart = True
            R.check(P, 'refused-for-a-reason', (h.name, e.span, c or ident(e.facts)), 'ok' if c else 'bad' if apart and not h.it.unknown_calls else 'unknown', e.span,
                    'an error %s is returned %s' % (show(e.data[0], 3), 'because of: ' + c if c else 'for some inputs although nothing is missing'), short(e.fn))


def too_narrow(e):
    """Is the error that of a conversion into eight or sixteen bits of a count, a length or a number of references?"""
    if not any(x.op == 'adt' and x.args[0].endswith('TryFromIntError') for x in subterms(e.data[0])):
        return False
    for k, v in e.facts.items():
        if isinstance(k, tuple) and k[0] == 'b' and v[0] is not None and 127 < v[0] <= 1 << 16 and v[1] is None:
            t = k[1]
            if t.op == 'refs' or t.op == 'bf' and t.args[1] == 'count' or t.op == 'len' and t.args[0].op in ('phi', 'coll') or t.op == 'fld' and t.args[0].op in ('at', 'bv'):
                return True
    return False


def c32(R, run):
    """An operation refuses, or answers absent, only for a reason it states."""
    P = 'C32'
    if run.name == 'get':
        helper_reasons(R, P, run)
    lost = run.it.unknown_calls
    for e in run.events:
        if e.kind != 'raise':
            continue
        for c, plain in [('a repeated key', True)] if e.ghost.get('dup') and run.name == 'insert' else reasons(run, e.facts, e.extra):
            v = 'ok' if c else 'bad' if too_narrow(e) else 'unknown' if lost or not plain else 'bad'
            R.check(P, 'refused-for-a-reason', (run.name, e.span, show(e.data[0], 3), c or ident(e.facts)), v, e.span,
                    'an error %s is returned %s' % (show(e.data[0], 3), 'because of: ' + c if c else 'although none of these holds: ' + LISTED.get(run.name, '') + WHY), short(e.fn))
    if run.name == 'get_one':
        for p in run.paths:
            if p.kind != 'ok' or fact_variant(p.facts, p.value.args[2]) != 'None':
                continue
            rs = reasons(run, p.facts, p.why)
            if any(isinstance(k, tuple) and k[0] == 'b' and k[1].op == 'len' and k[1].args[0].op not in ('bf', 'enc', 'arg', 'sym') and x == (0, 0) for k, x in p.facts.items()):
                rs = [('nothing is left to search', True)]
            for c, plain in rs:
                v = 'ok' if c else 'unknown' if lost or not plain else 'bad'
                R.check(P, 'absent-for-a-reason', (run.name, c or ident(p.facts)), v, p.where, 'a key is reported absent %s' % ('because of: ' + c if c else 'although nothing that was read says so'), run.name)
        for p in run.paths:
            if p.kind != 'iter':
                continue
            for k, x in p.facts.items():
                if not (isinstance(k, tuple) and k[0] == 'v' and k[1].op == 'nvar' and x in ('Branch', 'Leaf')) or loc_kind(k[1].args[0]) == 'data':
                    continue
                L = k[1].args[0]
                kids = [mk('bf', x, f, L) for f in (('zero', 'one') if x == 'Branch' else ('data',))]
                on = any(ev[0] == 'push' and any(contains(ev[1], c) for c in kids) for ev in p.log) or any(contains(m, c) for m in p.mem.values() for c in kids)
                if on:
                    R.check(P, 'absent-for-a-reason', (run.name, p.fn, L, x), 'ok', p.where, 'the search goes on below a %s' % x.lower(), p.fn)
                    continue
                for c, plain in reasons(run, p.facts, p.why):
                    v = 'ok' if c else 'unknown' if lost or not plain else 'bad'
                    R.check(P, 'absent-for-a-reason', (run.name, p.fn, L, x, c or ident(p.facts)), v, p.where, 'the search ends at a %s %s' % (x.lower(), 'because of: ' + c if c else 'although nothing that was read says that the key is not below it'), p.fn)


def pair(x):
    return isinstance(x, T) and x.op == 'tup' and len(x.args) == 2


def pair_list(x):
    return isinstance(x, T) and any(y.op == 'coll' and any(pair(e) for e in y.args[3]) for y in subterms(x))


def kept(p, x):
    """Where x is still held when the step ends."""
    return {l for l, m in p.mem.items() if contains(m, x)}


def c33(R, run):
    """A generated proof is complete and in the order in which it is verified."""
    P = 'C33'
    if run.name != 'generate_inclusion_proof':
        return
    lost = run.it.unknown_calls
    gather, restack = [], []
    for p in run.paths:
        if p.kind == 'iter':
            (gather if any(ev[0] == 'get' for ev in p.log) else restack).append(p)
    makers = {p.lid for p in gather if any(ev[0] == 'push' and pair(ev[1]) for ev in p.log)}
    sides, kinds = set(), {}
    for p in gather:
        nodes = [k[1].args[0] for k, x in p.facts.items() if isinstance(k, tuple) and k[0] == 'v' and k[1].op == 'nvar' and x in ('Branch', 'Leaf', 'Data')]
        if p.lid not in makers or len(nodes) != 1 or sum(ev[0] == 'get' for ev in p.log) != 1:
            continue
        L = nodes[0]
        kind = p.facts[('v', mk('nvar', L))]
        pushed = [ev for ev in p.log if ev[0] == 'push' and pair(ev[1])]
        turned = [ev[1] for ev in p.log if ev[0] in ('front', 'permute')]
        if pushed:
            sides.add('unknown' if 'at' in turned or len(turned) > len(pushed) or any('::' in t for t in turned) else 'front' if turned else 'back')
            kinds.setdefault(kind, set()).add('front' if turned else 'back')
        site = (run.name, p.fn, L, kind, tuple(ev[1] for ev in pushed))
        what = 'the step at a %s adds %d entries to the proof' % (kind.lower(), len(pushed))
        cut = [ev for ev in p.log if ev[0] in ('shed', 'pop') and any(pair_list(x) or pair(x) for x in ev[1:])]
        if cut:
            R.check(P, 'an-entry-a-step', site + (cut[0][-1],), 'bad' if cut[0][0] == 'shed' and cut[0][1] == 'clear' and not lost else 'unknown', cut[0][-1].split('@')[0], 'entries already gathered are taken out of the proof again', p.fn)
        elif len(pushed) == 1:
            x = pushed[0][1].args[0]
            v = 'ok'
            if kind == 'Branch':
                v = 'ok' if x.op == 'bf' and x.args[:2] in (('Branch', 'zero'), ('Branch', 'one')) and x.args[2] is L else 'unknown' if murky(x) else 'bad'
            elif x.op == 'H':
                tag, ps = hparts(x)
                body = mk('bf', 'Leaf', 'data', L) if kind == 'Leaf' else mk('bf', 'Data', 'value', L)
                v = 'ok' if tag == kind and len(ps) == 2 and ps[1] is body else 'unknown' if murky(x) else 'bad'
            elif x is not L:
                v = 'unknown'
            R.check(P, 'an-entry-a-step', site, v, pushed[0][-1].split('@')[0], 'the step at a %s adds %s' % (kind.lower(), show(x, 3)), p.fn)
        elif not pushed:
            held = [mk('bf', 'Branch', f, L) for f in ('zero', 'one')] if kind == 'Branch' else [ev[1] for ev in p.log if ev[0] == 'hash'] + [L]
            deep = [ev[1] for ev in p.log if ev[0] == 'push']
            on = kind == 'Data' or any(x.op == 'bf' and x.args[2] is L for x in deep)
            full = [q for q in gather if q.lid == p.lid and q.facts.get(('v', mk('nvar', L))) == kind and any(ev[0] == 'push' and pair(ev[1]) for ev in q.log)]
            waits = any(x not in deep and not any(kept(p, x) <= kept(q, x) for q in full) and kept(p, x) for x in held) or any(any(h is not L and contains(x, h) for h in held) and x not in held for x in deep)
            R.check(P, 'an-entry-a-step', site, 'unknown' if lost or waits or not on else 'bad', p.where, what, p.fn)
        else:
            same_twice = len({ev[1] for ev in pushed}) < len(pushed)
            R.check(P, 'an-entry-a-step', site, 'bad' if same_twice and not lost else 'unknown', pushed[-1][-1].split('@')[0], what, p.fn)
    if len(kinds.get('Branch', ())) > 1:
        R.check(P, 'entries-in-order', (run.name, 'mixed'), 'bad' if not lost else 'unknown', run.key, 'some branches add their entry at the front of the proof and others at its end', run.name)
    moving = {}
    for p in restack:
        moving.setdefault(p.lid, []).append(p)
    for lid, ps in moving.items():
        moves = [any(ev[0] == 'push' and pair(ev[1]) for ev in p.log) for p in ps]
        if any(moves):
            for p, m in zip(ps, moves):
                gone = not m and any(ev[0] == 'pop' and pair(ev[1]) for ev in p.log)
                R.check(P, 'no-entry-dropped', (run.name, lid, m, ident(p.facts)), 'ok' if m else 'bad' if gone and not lost else 'unknown', p.where, 'entries of the proof are left out when it is put together', p.fn)
    turns = any(ev[0] == 'permute' for p in run.paths if p.kind == 'iter' for ev in p.log)
    for p in run.paths:
        if p.kind != 'ok':
            continue
        x = p.value.args[2]
        v, what = 'ok', 'nothing is taken out of the gathered proof'
        for ev in p.log:
            if ev[0] == 'shed' and any(pair_list(y) for y in ev[2:]):
                lo, hi = run.bounds(p, mk('len', ev[3]))
                if ev[1] in ('truncate', 'dedup_by_key', 'dedup_by', 'clear', 'drain', 'retain') and hi != 0:
                    fn = ev[4] if len(ev) > 5 else None
                    plain = ev[1] == 'retain' and isinstance(fn, T) and fn.op == 'clo' and len(fn.args) < 2
                    v, what = 'unknown' if plain or ev[1] == 'drain' else 'bad', 'entries are taken out of the gathered proof with %s at %s' % (ev[1], ev[-1].split('@')[0])
            if ev[0] == 'pop' and pair(ev[1]):
                v, what = 'bad', 'an entry is taken out of the gathered proof at %s' % ev[-1].split('@')[0]
                if any(e[0] == 'push' and contains(e[1], ev[1]) for e in p.log):
                    v = 'unknown'
            if ev[0] == 'iterend' and pair_list(ev[1]):
                names = iter_names(ev[1])
                if 'take' in names or 'skip' in names or ev[-1].endswith('Filter_next'):
                    v, what = 'bad', 'entries of the gathered proof are left out by %s' % ('take or skip' if 'take' in names or 'skip' in names else 'a filter')
                elif names - {'rev', 'src', 'copied', 'cloned', 'iter'}:
                    v = 'unknown'
        if v == 'ok' and (x.op != 'coll' or 'filtered' in x.args[2]):
            v = 'unknown'
        R.check(P, 'no-entry-dropped', (run.name, 'end', what, ident(p.facts)), 'unknown' if lost else v, p.where, what, run.name)
        # the order: verification starts at the data node, the walk at the root
        ends = [ev for ev in p.log if ev[0] == 'iterend' and pair_list(ev[1])]
        perms = [ev for ev in p.log if ev[0] == 'permute']
        shortest = lambda n: any(isinstance(k, tuple) and k[0] == 'b' and k[1].op == 'len' and f[1] is not None and f[1] <= n and (f[1] > 0 or x.op == 'coll' and k[1].args[0] is x.args[1]) for k, f in p.facts.items())
        if x.op != 'coll' or 'sorted' in x.args[2] and not any('sort' in ev[1] for ev in perms) or sides not in ({'back'}, {'front'}) or turns or lost:
            v = 'unknown'
        elif any(ev[1] != 'slice::reverse' for ev in perms):
            v = 'unknown' if shortest(16) or ends or restack else 'bad'
        else:
            n = len(perms) + ('back' in sides)
            known = True
            for ev in ends:
                names = iter_list(ev[1])
                known = known and not set(names) - {'rev', 'src', 'copied', 'cloned', 'iter'}
                n += names.count('rev')
            if restack and (len(moving) != 1 or len(ends) != 1) or ends and not restack:
                known = False
            known = known and not any(ev[0] in ('pop', 'front') for q in restack for ev in q.log)
            v = 'unknown' if not known or shortest(1) and n % 2 else 'bad' if n % 2 else 'ok'
        R.check(P, 'entries-in-order', (run.name, 'end', len(perms), ident(p.facts)), v, p.where, 'the proof is returned %s' % ('data node first' if v == 'ok' else 'from the root down, or in another order than it is verified in'), run.name)


def iter_list(t):
    out = []
    while isinstance(t, T) and t.op == 'iter':
        out.append(str(t.args[0].args[0] if isinstance(t.args[0], T) else t.args[0]))
        t = next((y for y in t.args[1:] if isinstance(y, T) and y.op in ('iter', 'coll', 'perm', 'sub')), None)
    return out


def iter_names(t):
    return set(iter_list(t))


def ident(facts):
    return tuple(sorted(str(k[1].id if isinstance(k, tuple) else k.id) for k in facts))


CORE_RULES.update({'C32': c32, 'C33': c33})
