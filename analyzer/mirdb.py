"""Loads a MIR dump and gives readable access to it."""
import json


class Dump:
    def __init__(self, path):
        self.path = path
        with open(path) as f:
            d = json.load(f)
        self.raw = d
        self.types = d['types']
        self.adts = d['adts']
        self.impls = d['impls']
        self.cfg = d['cfg']
        self.bodies = {b['key']: b for b in d['bodies']}
        self.by_path = {}
        for b in d['bodies']:
            self.by_path.setdefault(b['path'], b)

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]['s']


def pplace(p):
    s = '_%d' % p[0]
    for e in p[1]:
        if e == '*':
            s = '(*%s)' % s
        elif e[0] == 'f':
            s += '.%d' % e[1]
        elif e[0] == 'd':
            s = '(%s as %s)' % (s, e[2])
        elif e[0] == 'i':
            s += '[_%d]' % e[1]
        else:
            s += str(e)
    return s


def pop_(o):
    if o[0] == 'k':
        k = o[1]
        if 'fn' in k:
            return 'fn<%s>' % k['fn']['path']
        for f in ('int', 'str', 'bytes', 'cty', 'promoted', 'uneval'):
            if f in k:
                return 'const %s=%s' % (f, k[f])
        return 'const ?'
    if o[0] == '?':
        return '??' + o[1]
    return ('' if o[0] == 'c' else 'move ') + pplace(o[1])


def prv(r):
    k = r[0]
    if k == 'use':
        return pop_(r[1])
    if k == 'ref':
        return '&%s%s' % ('mut ' if r[1] else '', pplace(r[2]))
    if k == 'agg':
        return '%s(%s)' % (r[1], ', '.join(map(pop_, r[2])))
    if k == 'bin':
        return '%s(%s, %s)' % (r[1], pop_(r[2]), pop_(r[3]))
    if k == 'un':
        return '%s(%s)' % (r[1], pop_(r[2]))
    if k == 'cast':
        return 'cast[%s] %s' % (r[1], pop_(r[2]))
    if k == 'discr':
        return 'discr(%s)' % pplace(r[1])
    return str(r)


def show(b, d=None):
    out = ['%s argc=%d %s' % (b.get('path', '?'), b['argc'], b.get('span', ''))]
    if d:
        for i, l in enumerate(b['locals']):
            out.append('   _%d: %s' % (i, d.tys(l)))
    for i, bl in enumerate(b['blocks']):
        if bl['cl']:
            continue
        out.append(' bb%d: %s' % (i, bl['sp']))
        for s in bl['s']:
            if s[0] == '=':
                out.append('    %s = %s' % (pplace(s[1]), prv(s[2])))
            else:
                out.append('    %s' % s)
        t = bl['t']
        if t[0] == 'call':
            out.append('    %s = call %s(%s) -> bb%d' % (pplace(t[3]), pop_(t[1]), ', '.join(map(pop_, t[2])), t[4]))
        elif t[0] == 'switch':
            out.append('    switch %s %s else bb%d' % (pop_(t[1]), ' '.join('%s:bb%d' % (a, b2) for a, b2 in t[2]), t[3]))
        else:
            out.append('    %s' % t)
    return '\n'.join(out)


if __name__ == '__main__':
    import sys
    d = Dump(sys.argv[1])
    for k, b in d.bodies.items():
        if sys.argv[2] in k:
            print(show(b, d))
            for i, p in enumerate(b['promoted']):
                print('  promoted', i)
                print(show(p, d))
