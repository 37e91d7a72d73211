"""Decides one property on /repo's current source.

usage: check.py <property> [--thorough]
exit 0: no violation; exit 1: VIOLATION line printed; exit 2: the check itself could not run.
"""
import collections, json, os, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import frontend
from frontend import ROOT, BUILD, CONFIGS
from mirdb import Dump
from rules import Report, CORE_RULES, core_runs, ENTRIES
import units
import bits
import shared
import reasons, passes

EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known-findings.txt')

CORE_CFG = (['default', 'bincode', 'default+release'], ['default', 'bincode', 'default+release', 'bincode+release', 'hashbrown', 'rocksdb', 'json', 'cbor', 'yaml', 'pickle', 'ron', 'sha2'])


def configs_of(prop, tier):
    """Feature sets to analyse, for the core rules and for the unit rules."""
    i = 1 if tier == 'thorough' else 0
    core = CORE_CFG[i] if prop in CORE_RULES else []
    unit = units.CONFIGS[prop][i] if prop in units.CONFIGS else []
    return core, unit


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                k, _, what = rest.partition(' ')
                out[k.split('=', 1)[1]] = what
    return out


def attempt(notes, what, f, *args):
    """A rule that meets a shape it was not written for leaves that unit undecided; it is not an answer about the code."""
    try:
        f(*args)
    except (frontend.BuildError, KeyboardInterrupt):
        raise
    except Exception as e:
        notes.append('%s: not decided (%s: %s)' % (what, type(e).__name__, e))


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.time()
    core, unit = configs_of(prop, tier)
    if not core and not unit:
        print('unknown property', prop)
        return 2
    R = Report()
    models = Dump(os.path.join(BUILD, 'models.json'))
    notes, analysed, stats = [], {}, collections.Counter()
    sr = frontend.sysroot()
    with tempfile.TemporaryDirectory(prefix='dump-', dir=BUILD) as tmp:
        for cfg in dict.fromkeys(core + unit):
            out = os.path.join(tmp, cfg + '.json')
            frontend.dump(cfg, out, sr)
            D = Dump(out)
            os.unlink(out)
            stats['feature_sets'] += 1
            if cfg in core:
                runs = core_runs(D, models, cfg)
                missing = [n for n in ENTRIES if n not in runs]
                if missing:
                    print('cannot find the public operations', missing, 'in feature set', cfg)
                    return 2
                for n, r in runs.items():
                    if r.error:
                        notes.append('%s [%s]: not decided (%s)' % (n, cfg, r.error))
                        stats['operations_not_decided'] += 1
                        continue
                    stats['operations'] += 1
                    stats['paths'] += len(r.paths)
                    stats['events'] += len(r.events)
                    stats['loops_solved'] += len(r.it.loops_solved)
                    stats['abstract_steps'] += r.it.steps
                    for u in sorted(r.it.unknown_calls):
                        notes.append('%s [%s]: call without a model: %s' % (n, cfg, u))
                    analysed.setdefault('operations', set()).add(n)
                    R.cfg = cfg
                    attempt(notes, '%s [%s]' % (n, cfg), CORE_RULES[prop], R, r)
            if cfg in unit:
                R.cfg = cfg
                attempt(notes, cfg, units.RULES[prop], R, D, models, cfg, stats, notes, analysed)
        if prop in units.SOURCE_RULES:
            attempt(notes, 'source', units.SOURCE_RULES[prop], R, stats, notes, analysed, tmp, sr)
    obl = {k: v for k, v in R.obl.items() if k[0] == prop}
    bad = {k: v for k, v in R.bad.items() if k[0] == prop}
    unk = {k: v for k, v in R.unk.items() if k[0] == prop}
    by_rule = {}
    for (p, rule, _), v in obl.items():
        by_rule.setdefault(rule, collections.Counter())[v] += 1
    kn = known(prop)
    new = []
    for (p, vk), (where, what) in sorted(bad.items()):
        if vk in kn:
            print('KNOWN-FINDING: property=%s %s (%s: %s)' % (prop, vk, where, what))
        else:
            new.append((vk, where, what))
    os.makedirs(EVID, exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the MIR that rustc produced on this run from %s/src, feature sets %s. Each obligation is one rule applied to one construct (a path, loop iteration, store effect, call site or body); it is discharged when the rule follows for every concrete execution the abstract one stands for, violated when a recognised construct breaks it, and undecided when the construct is not recognised. No code of the repository was run.' % (frontend.REPO, ', '.join(dict.fromkeys(core + unit)) or '-'),
            'obligations_total': len(obl), 'obligations_discharged': sum(1 for v in obl.values() if v == 'ok'),
            'obligations_undecided': sum(1 for v in obl.values() if v == 'unknown'),
            'rules': {r: dict(c) for r, c in sorted(by_rule.items())},
            'analysed': {k: sorted(v) for k, v in analysed.items()},
            'counts': dict(stats),
            'samples': ['%s: %s' % (r, s) for (p, r), ss in sorted(R.samples.items()) if p == prop for s in ss][:40],
            'undecided': ['%s: %s: %s' % (r, w, x) for (p, r), (w, x) in sorted(unk.items())] + notes,
        },
        'assumptions': ['rustc\'s MIR for the analysed feature sets is what is compiled', 'std, collection and external crate calls behave as modelled'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d obligations, %d discharged, %d undecided, %d violations, %.1f s' % (prop, tier, len(obl), ev['coverage']['obligations_discharged'], ev['coverage']['obligations_undecided'], len(new), time.time() - t0))
    for n in notes:
        print('note:', n)
    if not new:
        return 0
    rp = os.path.join(EVID, prop + '.violation.txt')
    with open(rp, 'w') as f:
        for vk, where, what in new:
            f.write('rule and function: %s\nconstruct: %s\nwhat: %s\n\n' % (vk, where, what))
        f.write('replay: python3 analyzer/check.py %s%s   (in /verif, against the same /repo tree)\n' % (prop, ' --thorough' if tier == 'thorough' else ''))
    for vk, where, what in new:
        print('  %s at %s: %s' % (vk, where, what))
    print('VIOLATION property=%s replay=%s' % (prop, rp))
    return 1


if __name__ == '__main__':
    try:
        sys.exit(main())
    except frontend.BuildError as e:
        print('the source does not build:', e)
        sys.exit(2)
