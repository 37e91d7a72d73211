"""Rules over the passes of loops (C34): every operation comes to an end."""
from rules import *
import reasons

# what a pass can do without changing anything that the next pass sees
QUIET = {'get', 'iterend', 'check_descendants', 'hash', 'treecell', 'treeref', 'dupcmp', 'bsearch', 'split_pairs', 'encode', 'decode', 'loop', 'step', 'uiter'}


def spot(x):
    """The location of a work-list entry."""
    if x.op == 'adt' and x.args[0].split('::')[-1] == 'TreeCell':
        return next((y for y in x.args[2:] if is_loc(y)), None)
    if x.op == 'tup':
        return next((y for y in x.args if is_loc(y)), None)
    return x


def is_loc(x):
    return x.op == 'bf' and x.args[1] in ('zero', 'one', 'data') or x.op in ('arg', 'H') or x.op == 'sym' and ('treeloc' in x.args[2] or 'dataloc' in x.args[2]) or is_root(x)


def below(x, L):
    """Is x the location of a child of the node at L, or of a node below one?"""
    while x.op == 'bf' and x.args[1] in ('zero', 'one', 'data'):
        x = x.args[2]
        if x is L:
            return True
    return False


NUMBER = ('phi', 'lin', 'len', 'int', 'sym', 'refs', 'at', 'fld')


def moved(run, p, a, b):
    """Which way a number moved in a pass: +1, -1 or 0 when that is unknown."""
    if b.op == 'satsub' and b.args[0] is a:
        return -1
    if a.op not in NUMBER or b.op not in NUMBER:
        return 0
    lo, hi = run.bounds(p, add(b, a, -1))
    return 1 if lo is not None and lo > 0 else -1 if hi is not None and hi < 0 else 0


def advance(run, p):
    """('ok' | 'bad' | 'unknown', what it shows) for one pass of a loop."""
    changed = {c for c, v in p.start.items() if p.mem.get(c) is not v}
    steps = [e for e in p.log if e[0] == 'step']
    if any(e[1] in p.start and not e[2] for e in steps):
        return 'ok', 'it steps through a sequence'
    pops = [e for e in p.log if e[0] == 'pop' and e[2].op == 'mref' and e[2].args[0] in p.start]
    pushes = [e for e in p.log if e[0] == 'push']
    if pops:
        lists = {e[2].args[0] for e in pops}
        taken = [spot(e[1]) for e in pops]
        on = [e for e in pushes if lists & changed or any(contains(p.mem[c], e[1]) for c in lists if c in p.mem)]
        again = [e for e in on if spot(e[1]) is not None and any(spot(e[1]) is t for t in taken if t is not None) and type_of(e[1]) == type_of(pops[0][1])]
        if again:
            same = any(e[1] is q[1] for e in again for q in pops)
            rest = changed - lists
            v = 'bad' if not rest and (same or unmoved(again, pops)) and len(pops) == 1 and not [e for e in p.log if e[0] not in QUIET | {'pop', 'push'}] else 'unknown'
            return v, 'the entry for the same node is put back on the work list as it was taken off'
        if all(any(below(spot(e[1]), t) for t in taken if t is not None) or type_of(e[1]) != type_of(pops[0][1]) for e in on if spot(e[1]) is not None) and not any(spot(e[1]) is None for e in on):
            return 'ok', 'it takes an entry off the work list and adds only nodes below it'
        return 'unknown', 'what goes on the work list'
    for c in sorted(changed, key=str):
        n = moved(run, p, p.start[c], p.mem[c]) if c in p.mem else 0
        if n and any(contains(k[1] if isinstance(k, tuple) else k, p.start[c]) for k in p.facts):
            return 'ok', 'a counter goes %s' % ('up' if n > 0 else 'down')
    for c in changed:
        x = p.mem.get(c)
        if x is not None and x.op == 'sub' and x.args[0] is p.start[c] and x.args[1].op == 'range' and len(x.args[1].args) == 2:
            lo, hi = x.args[1].args
            if lo.op == 'int' and lo.args[0] > 0 or (run.bounds(p, add(mk('len', p.start[c]), hi, -1))[0] or 0) > 0:
                return 'ok', 'the rest of a list gets shorter'
    if not changed and not [e for e in p.log if e[0] not in QUIET] and not any(e[1] is None or e[1] in p.start and not e[2] for e in steps):
        return 'bad', 'it changes nothing that decides whether there is another pass'
    return 'unknown', 'how the loop gets nearer its end'


def type_of(x):
    return x.args[0].split('::')[-1] if x.op == 'adt' else x.op if x.op == 'tup' else ''


def unmoved(again, pops):
    """Are the entries the same in all their fields?"""
    return all(e[1] is q[1] for e in again for q in pops)


def c34(R, run):
    """Every operation comes to an end: each pass of each loop gets nearer the end of the loop."""
    P = 'C34'
    todo = [(run, p) for p in run.paths]
    if run.name == 'get':
        todo += [(h, p) for h in reasons.helper_runs(run) if not h.error for p in h.paths]
    done = [(r, p) + advance(r, p) for r, p in todo if p.kind == 'iter']
    ways = {}
    for r, p, v, what in done:
        ways.setdefault((r.name, p.lid), set()).add(what)
    for r, p, v, what in done:
        if 'a counter goes' in what and {'a counter goes up', 'a counter goes down'} <= ways[(r.name, p.lid)]:
            v = 'unknown'
        if v == 'bad' and r.it.unknown_calls:
            v = 'unknown'
        R.check(P, 'each-pass-advances', (r.name, p.fn, p.where, what), v, p.where, 'a pass of the loop: ' + what, p.fn)


CORE_RULES.update({'C34': c34})
