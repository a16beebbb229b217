"""Which specifications, models and drivers decide which property."""
import json
import os


def traces(driver, module, ops, quick, thorough, chunk=400, batch=1200, **kw):
    """Random histories of the real code, checked against a trace specification."""
    def stage(r, tier, seed):
        n = quick if tier == 'quick' else thorough
        k = 0
        while n > 0 and len(r.violations) < 5:
            c = min(n, batch)
            path = r.drive(driver, seed * 1000 + k, c, **kw)
            if path is None:
                return
            r.validate(path, module, ops, chunk)
            n -= c
            k += 1
    return stage


def whole(driver, module, ops, quick, thorough, chunk=400):
    """One run of a driver that enumerates: its argument selects the bounds."""
    def stage(r, tier, seed):
        path = r.drive(driver, seed, quick if tier == 'quick' else thorough)
        if path is not None:
            r.validate(path, module, ops, chunk)
    return stage


def catalog(prop, ops, quick=250, thorough=6000):
    return traces(prop, 'CatalogTrace', ops, quick, thorough)


LOCKS = """SPECIFICATION Spec
CONSTANT Kinds = {"read", "readn", "setn", "write", "resolver"}
INVARIANT Exclusive
INVARIANT Plan
PROPERTY Returns
"""


def planned(driver, module, cfg, quick, thorough):
    """The model says where the concurrent calls meet; the driver makes them meet there."""
    def stage(r, tier, seed):
        text = cfg if isinstance(cfg, str) else cfg[tier != 'quick']
        plans = sorted(set(json.dumps(x, sort_keys=True) for x in r.model(module, text, ['PLAN'])['PLAN']))
        path = os.path.join(r.dir, driver + '.plans')
        open(path, 'w').write('\n'.join(plans) + '\n')
        path = r.drive(driver, seed, quick if tier == 'quick' else thorough, extra=[path])
        if path is not None:
            r.linear(path)
    return stage


LOADS = ["""SPECIFICATION Spec
CONSTANT N = %d
CONSTANT Kinds = {"reload", "fresh", "ensure", "attach", "look"}
CONSTANT FirstKinds = {"reload", "ensure"}
INVARIANT NotOlder
INVARIANT Attached
INVARIANT Served
INVARIANT Plan
PROPERTY OnlyMissing
PROPERTY Returns
""" % n for n in (3, 4)]


def explored(module, driver, quick, thorough, invariants=(), extra=(), chunk=2500, properties=(), tv='CatalogTrace', ops=None, **kw):
    """A bounded model: TLC explores it and checks the invariants on all its histories (check: constants for that), and prints
    a shortest history through each transition between its states (export: constants for that), which the driver makes
    the real code go through."""
    def stage(r, tier, seed):
        c = quick if tier == 'quick' else thorough
        cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
        const = lambda d: ''.join('CONSTANT %s = %s\n' % x for x in d.items())
        if c.get('check'):
            inv = ''.join('INVARIANT %s\n' % i for i in invariants) + ''.join('PROPERTY %s\n' % i for i in properties)
            r.model(module, cfg + const(dict(c['check'], Export='FALSE')) + inv, [])
        if c.get('export'):
            got = r.model(module, cfg + 'VIEW View\n' + const(dict(c['export'], Export='TRUE')), ['OPS', 'SCENARIO'], workers=1)
            plan = os.path.join(r.dir, module + '.plan')
            with open(plan, 'w') as f:
                f.write('\n'.join(json.dumps(x) for x in got['OPS'][:1] + sorted(got['SCENARIO'])) + '\n')
            path = r.drive(driver, seed, 1, extra=[plan] + list(extra), **kw)
            if path is not None:
                r.validate(path, tv, ops, chunk)
    return stage


def concurrent(driver, quick, thorough):
    """Random concurrent histories of the real code: each must be linearizable in the specification."""
    def stage(r, tier, seed):
        n, k = (quick if tier == 'quick' else thorough), 0
        while n > 0 and len(r.violations) < 5:
            path = r.drive(driver, seed * 1000 + k, min(n, quick))
            if path is None:
                return
            r.linear(path)
            n -= quick
            k += 1
    return stage


def alive(driver, quick, thorough, race=False):
    """The driver only has to come to its end: no data race, no call that never returns."""
    def stage(r, tier, seed):
        path = r.drive(driver, seed, quick if tier == 'quick' else thorough, race=race, timeout=600 if tier == 'quick' else 3600)
        if path is not None:
            r.opcount[driver] = quick if tier == 'quick' else thorough
    return stage


CT = 'CatalogTrace'
LOOK = {'get', 'getn', 'append', 'appendn', 'istr', 'istrn'}

ALL = '{"set", "clear", "setn", "parse", "drop", "setrefs", "res"}'


SNAPS = '{"set", "clear", "setn", "parse", "drop", "setrefs"}'
PAIRS = '{"set", "parse", "drop", "bin", "res", "setrefs"}'


def mc_catalog(look, invariants, properties=(), kinds=ALL, objs='{"o"}', depth=(3, 4), export=(3, 5)):
    """Histories of catalogues over a small alphabet, all of them."""
    def consts(d):
        return {'Depth': d, 'Kinds': kinds, 'Objs': objs}
    return explored('MCCatalog', 'mc-catalog', {'check': consts(depth[0]), 'export': consts(export[0])},
                    {'check': consts(depth[1]), 'export': consts(export[1])}, invariants, [look], properties=properties)


MC_PO = explored('MCPo', 'mc-po', {'check': {'Depth': 3}, 'export': {'Depth': 4}}, {'check': {'Depth': 4}, 'export': {'Depth': 5}},
                 ['EntryAfter', 'EntryBefore', 'NoInventions'], properties=['Layout'], chunk=40)

MC_LOCALE = explored('MCLocale', 'mc-locale', {'check': {'Depth': 2}, 'export': {'Depth': 2}}, {'check': {'Depth': 3}, 'export': {'Depth': 3}},
                     ['DomainText', 'DefaultDomain'], properties=['Isolated'])

MC_PACKAGE = explored('MCPackage', 'mc-package', {'check': {'Depth': 2}, 'export': {'Depth': 2}}, {'check': {'Depth': 3}, 'export': {'Depth': 3}},
                      ['AsTold', 'Rebuilt', 'Together'], properties=['Stable'])


TECHNIQUE = 'TLA+ specification; TLC validates histories recorded from the real code against it'
NOTE = ('Every recorded call of seeded random histories of the real code is compared with the TLA+ specification by TLC; '
        'nothing is proved about histories that were not drawn.  Trusts TLC, the driver and its rendering of results.')
XT = 'ExtractTrace'
XNOTE = ('Every run of xgotext on seeded random Go programs (all of which compile) is compared with the TLA+ model of Go scoping, '
         'typing and extraction by TLC; nothing is proved about programs that were not drawn.  Trusts TLC, the generator and the '
         'driver\'s lexing of POT files.')

PROPS = {
    'C01': {'stages': [mc_catalog('g', ['LastStored'], ['Local']), catalog('C01', {'get', 'append'})]},
    'C02': {'stages': [mc_catalog('n', ['FormOfRule'], ['Local']), catalog('C02', {'getn', 'appendn'})]},
    'C03': {'stages': [mc_catalog('gni', ['TruthOfIs']), catalog('C03', {'istr', 'istrn', 'get', 'getn'}),
                       traces('C12', CT, {'istr', 'istrn'}, 120, 3000)]},
    'C04': {'stages': [catalog('C04', None, 500, 12000), whole('C04x', CT, None, 1, 1)]},
    'C05': {'stages': [MC_PO, catalog('C05', {'get', 'getn', 'getrefs', 'snap', 'reads'})]},
    'C06': {'stages': [catalog('C06', None, 100, 2400)]},
    'C07': {'stages': [MC_PO, traces('C07p', CT, None, 200, 5000), traces('C07m', CT, None, 200, 5000),
                       traces('C07b', CT, None, 80, 2000), traces('C07g', CT, None, 200, 5000),
                       traces('C07r', CT, None, 80, 2000), traces('C07s', CT, None, 100, 3000)]},
    'C08': {'stages': [mc_catalog('t', [], export=(3, 4)), catalog('C08', {'text'})]},
    'C09': {'stages': [mc_catalog('gnirsth', ['SnapshotSays'], kinds=PAIRS, objs='{"o", "p"}', depth=(2, 3), export=(2, 3)), catalog('C09', None), traces('C09l', CT, None, 150, 4000)]},
    'C10': {'stages': [catalog('C10', {'get', 'append', 'getn', 'appendn', 'fmt', 'nfmt'}),
                       traces('C10l', CT, {'get', 'getn'}, 120, 3000), traces('C10p', CT, {'get', 'getn'}, 60, 1500)]},
    'C11': {'stages': [MC_LOCALE, whole('C11x', CT, None, 0, 0), catalog('C11', None, 250, 6000)]},
    'C12': {'stages': [MC_LOCALE, catalog('C12', None)]},
    'C13': {'stages': [MC_PACKAGE, catalog('C13', None)]},
    'C14': {'stages': [MC_PACKAGE, catalog('C14', None)]},
    'C15': {'stages': [planned('C15g', 'Locks', LOCKS, 30, 600), concurrent('C15', 60, 2400),
                       traces('C15c', CT, None, 120, 4000, batch=240, timeout=600),
                       alive('C15race', 2, 40, race=True), alive('C15hammer', 100, 3000)]},
    'C16': {'stages': [planned('C16g', 'Loads', LOADS, 2, 4), concurrent('C16h', 200, 6000), concurrent('C16hp', 100, 3000), concurrent('C16l', 30, 900),
                       concurrent('C16p', 40, 900),
                       traces('C16c', CT, None, 80, 2000, batch=240, timeout=600), traces('C16cp', CT, None, 40, 1200, batch=240, timeout=600),
                       alive('C16race', 3, 60, race=True), alive('C16hammer', 200, 4000)]},
    'C17': {'stages': [mc_catalog('s', ['SnapshotSays'], kinds=SNAPS), catalog('C17', None)]},
    'C18': {'stages': [mc_catalog('rs', ['Staleness']), catalog('C18', {'getrefs', 'snap', 'get'})]},
    'C19': {'stages': [traces('C19', XT, None, 80, 4000, batch=200, cli=True, timeout=600)], 'note': XNOTE},
    'C20': {'stages': [traces('C20', XT, None, 800, 20000, batch=800),
                       traces('C19', XT, None, 15, 400, batch=200, cli=True, timeout=600)], 'note': XNOTE},
    'C21': {'stages': [traces('C21', XT, None, 35, 1500, batch=100, cli=True, timeout=600)], 'note': XNOTE},
    'C22': {'stages': [catalog('C22', {'headers', 'hget', 'hvals', 'getn'})]},
    'C23': {'stages': [whole('C23x', CT, None, 1, 1), catalog('C23', None, 400, 10000)]},
    'C24': {'stages': [MC_PACKAGE, catalog('C24', None)]},
}

UNCLAIMED = {}
