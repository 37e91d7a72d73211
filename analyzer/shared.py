"""Rules stated for one property that another property's statement rests on as well.

C09 says that all operations send a key to the side its bit selects; that the bit is selected rightly is decided by
the rules of C21.  Such a rule is run again for the second property, under that property's own name.
"""
import units
import bits     # registers the rules of C21


class As:
    """A report that keeps the chosen obligations of one property and files them under another."""

    def __init__(self, report, source, target, keep):
        self.report, self.source, self.target, self.keep = report, source, target, keep
        self.cfg = getattr(report, 'cfg', None)

    def check(self, prop, rule, ident, verdict, where, what, fn=''):
        if prop == self.source and self.keep(rule, str(ident)):
            self.report.check(self.target, rule, (self.source,) + (ident if isinstance(ident, tuple) else (ident,)), verdict, where, what, fn)
        return verdict


def rules(*names):
    return lambda rule, ident: rule in names


def of(names, *modules):
    return lambda rule, ident: rule in names and any('::%s::' % m in ident for m in modules)


SIDES = rules('bit-test', 'halves', 'below-branch', 'divergence', 'ends', 'highest-bit')
SHARED = {
    # the test of the bit, the split of a key list and the test for descendants are what the walks agree on
    'C09': ((['default'], ['default', 'bincode', 'default+release']), [('C21', SIDES)]),
    'C11': ((['default'], ['default', 'bincode', 'default+release']), [('C21', rules('halves', 'below-branch', 'divergence', 'ends', 'highest-bit'))]),
    # neighbouring pieces are the ones that are joined, and references are put in key order for that
    'C24': ((['default', 'bincode'], ['default', 'bincode', 'default+release', 'hashbrown']), [('C21', rules('neighbours', 'highest-bit')), ('C22', of(('references-order', 'constructor'), 'tree_ref'))]),
    # keys are compared, ordered and looked up through the newtype around their bytes
    'C12': ((['default', 'bincode'], ['default', 'bincode', 'json', 'hashbrown']), [('C22', rules('references-order', 'array-transparent'))]),
    'C10': ((['bincode'], ['bincode', 'json', 'ron']), [('C22', rules('array-transparent'))]),
    'C08': ((['bincode'], ['bincode', 'json', 'ron']), [('C22', rules('array-transparent'))]),
    # counts are kept in the node record
    'C03': ((['default'], ['default', 'bincode']), [('C22', of(('set-then-get', 'new-node'), 'tree_node'))]),
    'C04': ((['default'], ['default', 'bincode']), [('C22', of(('set-then-get', 'new-node'), 'tree_node'))]),
    # a record is written again from the parts that were read, and holds what was hashed
    'C02': ((['default'], ['default', 'bincode']), [('C22', of(('set-then-get', 'set-only-that', 'decompose-order', 'new-node'), 'tree_branch', 'tree_leaf', 'tree_data', 'tree_node'))]),
    'C01': ((['default'], ['default', 'bincode']), [('C22', of(('set-then-get', 'set-only-that'), 'tree_branch', 'tree_leaf', 'tree_data'))]),
    # the limit that counts is the one the tree was opened with
    'C18': ((['default', 'rocksdb'], ['default', 'rocksdb', 'bincode']), [('C20', lambda rule, ident: rule == 'opens' and "'depth'" in ident)]),
    'C26': ((['default'], ['default', 'bincode']), [('C22', of(('set-then-get', 'decompose-order'), 'tree_branch')), ('C22', of(('constructor',), 'tree_ref'))]),
    # failures inside the bundled stores and codecs
    'C07': ((['rocksdb', 'bincode'], ['rocksdb', 'bincode', 'json', 'cbor', 'yaml', 'pickle', 'ron']), [('C13', rules('errors-kept')), ('C14', rules('failures-kept'))]),
    'C06': ((['rocksdb', 'default'], ['rocksdb', 'rocksdb+release', 'default', 'hashbrown']), [('C13', rules('flush-writes'))]),
}


def runner(target, sources):
    def run(R, D, M, cfg, stats, notes, analysed):
        for source, keep in sources:
            units.RULES[source](As(R, source, target, keep), D, M, cfg, stats, notes, analysed)
    return run


for _p, (_cfgs, _src) in SHARED.items():
    assert _p not in units.RULES
    units.CONFIGS[_p] = _cfgs
    units.RULES[_p] = runner(_p, _src)
