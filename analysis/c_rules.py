"""C01/C02: every rule function of the table against the shipped CLDR rules."""
import time
import numpy as np
import common, cells
from engine import *
from rt import *


def compare(rep, rt, prt, loc, spec, inst, dev, cache):
    """spec: {category: ors}; dev: None or ordered [(category, ors)] of the recorded deviation"""
    root, E = rt.select_dag(inst)
    sp = tuple(sorted((c, repr(o)) for c, o in spec.items()))
    nodes = dag_nodes(root)
    atoms = []
    for n in nodes:
        if not n.is_leaf and n.atom not in atoms: atoms.append(n.atom)
    bad = [n for n in nodes if n.is_leaf and n.kind == 'undecided']
    sig = (sp, repr(dev), dag_sig(root))
    if sig in cache: return cache[sig]
    need = cells.Need()
    for a in atoms: cells.needs(a, need)
    for o in spec.values(): cells.rule_needs(o, need)
    for _, o in dev or (): cells.rule_needs(o, need)
    truths = []
    for a in atoms:
        def tr(env, a=a):
            try: return cells.ev_bool(a, env)
            except cells.NotExact: return np.zeros(1, bool)
        truths.append(tr)
    for o in list(spec.values()) + [o for _, o in dev or ()]:
        for ands in o:
            for rel in ands: truths.append(lambda env, r=rel: cells.ev_rule([[r]], env))
    g = cells.Grid(need, truths)
    out = eval_dag3(root, g.env, g.shape)
    sat = {c: np.broadcast_to(np.asarray(cells.ev_rule(o, g.env)), g.shape) if o else np.zeros(g.shape, bool) for c, o in spec.items() if c != 'other'}
    anysat = np.zeros(g.shape, bool)
    for s in sat.values(): anysat = anysat | s
    devcat = None
    if dev is not None:
        devcat = np.full(g.shape, 'other', dtype=object)
        for c, o in reversed(dev): devcat[np.broadcast_to(np.asarray(cells.ev_rule(o, g.env)), g.shape)] = c
    res = {'cells': int(g.shape[0] * g.shape[1]), 'exact': g.exact, 'notes': g.notes, 'viol': [], 'known': None, 'und': None, 'atoms': len(atoms), 'nodes': len(nodes)}
    maybe = out.pop('maybe', None)
    und = np.zeros(g.shape, bool) if maybe is None else maybe
    for leaf, cellset in out.items():
        if not cellset.any(): continue
        if leaf.kind == 'undecided': und = und | cellset; res['und'] = str(leaf.val); continue
        if leaf.kind == 'unreachable': continue
        v = leaf.val
        cat = None
        if leaf.kind == 'ret' and v[0] == 'A' and v[2] == 'Ok' and v[3][0][0] == 'A': cat = v[3][0][2].lower()
        elif leaf.kind == 'ret' and is_sym(v): und = und | cellset; res['und'] = 'result ' + show(v); continue
        elif leaf.kind == 'ret' and v[0] == 'A' and v[2] == 'Ok': und = und | cellset; res['und'] = 'result ' + show(v); continue
        if cat is None:
            good = np.zeros(g.shape, bool)
        else:
            good = (~anysat) if cat == 'other' else sat.get(cat, np.zeros(g.shape, bool))
        wrong = cellset & ~good & ~und
        if not wrong.any(): continue
        if devcat is not None and cat is not None:
            k = wrong & (devcat == cat)
            if k.any():
                a, b = np.argwhere(k)[0]
                res['known'] = (g.number(a, b), cat, exp_cat(sat, a, b))
            wrong = wrong & ~k
        if wrong.any():
            ws = np.argwhere(wrong)
            a, b = ws[0]
            res['viol'].append((g.number(a, b), cat if cat else '%s %s' % (leaf.kind, show(v) if isinstance(v, tuple) else v), exp_cat(sat, a, b), int(len(ws))))
    cache[sig] = res
    return res


def exp_cat(sat, a, b):
    return '/'.join(c for c in cells.CATS if c in sat and sat[c][a, b]) or 'other'


def dag_sig(root):
    memo = {}

    def go(n):
        if id(n) in memo: return memo[id(n)]
        r = ('L', n.kind, n.val) if n.is_leaf else (n.atom, go(n.t), go(n.f))
        r = hash(r); memo[id(n)] = r
        return r
    return go(root)


def eval_dag3(root, env, shape):
    """like cells.eval_dag; where an atom cannot be evaluated both branches are taken and the cells are marked 'maybe'"""
    order = []; seen = set()

    def topo(n):
        if id(n) in seen: return
        seen.add(id(n))
        if not n.is_leaf: topo(n.t); topo(n.f)
        order.append(n)
    topo(root)
    sets = {id(root): np.ones(shape, bool)}
    out = {}; maybe = np.zeros(shape, bool)
    for n in reversed(order):
        s = sets.get(id(n))
        if s is None: continue
        if n.is_leaf: out[n] = s; continue
        try:
            tv = np.broadcast_to(np.asarray(cells.ev_bool(n.atom, env)), shape); ft, ff = s & tv, s & ~tv
        except cells.NotExact:
            ft = ff = s; maybe = maybe | s
        for c, m in ((n.t, ft), (n.f, ff)):
            sets[id(c)] = sets[id(c)] | m if id(c) in sets else m
    # a cell that reaches two different leaves is undecided
    out['maybe'] = maybe
    return out


def run(rep, prt, quick=True):
    rt = RT()
    data = rt.data(prt)
    known = {k['locale']: k for k in rep.kf if 'locale' in k}
    cache = {}; n = 0; ncells = 0; nat = 0; exact = 0
    fn_where = {}
    for loc, rules in data.items():
        if loc == 'root': continue
        if time.time() - rep.t0 > 700: rep.open('%s: time budget' % loc); continue
        idv = parse_langid(loc)
        if idv is None: rep.undecided('locale name %r of the CLDR data is not a language identifier' % loc); continue
        rs = rt.resolve(prt, idv)
        n += 1
        oks = [r for r in rs if r[0] == 'ret' and r[1][0] == 'A' and r[1][2] == 'Ok']
        errs = [r for r in rs if r not in oks]
        if not oks:
            if all(r[0] == 'undecided' for r in rs): rep.open('%s: creation: %s' % (loc, rs[0][1])); continue
            if any(r[0] == 'undecided' or (r[0] == 'ret' and is_sym(r[1])) for r in rs): rep.open('%s: creation' % loc); continue
            rep.bad(); rep.violation('no %s rule can be obtained for locale %s of the CLDR data (creation gives %s)' % (prt.lower(), loc, show_leaf(rs)), 'PluralRules::create'); continue
        if len(rs) > 1: rep.open('%s: creation is ambiguous' % loc); continue
        try: spec = {c: cells.parse_rule(t) for c, t in rules.items()}
        except cells.RuleSyntax as e: rep.open('%s: rule text: %s' % (loc, e)); continue
        spec.pop('other', None)
        dev = None
        if loc in known: dev = [(c, cells.parse_rule(t)) for c, t in known[loc]['deviant']]
        r = compare(rep, rt, prt, loc, spec, oks[0][1][3][0], dev, cache)
        ncells += r['cells']; nat += r['atoms']; exact += r['exact']
        where = rule_where(rt, oks[0][1][3][0])
        if r['known']:
            num, got, exp = r['known']
            rep.known(loc, '%s %s: %s gives %s, the CLDR rule says %s (%s)' % (prt.lower(), loc, num, got, exp, known[loc]['cause']))
        if r['viol']:
            rep.bad()
            for num, got, exp, cnt in r['viol']:
                rep.violation('%s locale %s: %s is given category %s, the shipped CLDR rule says %s (%d classes of numbers)' % (prt.lower(), loc, num, got, exp, cnt), where, locale=loc, number=num, got=got, expected=exp, rules=rules)
        elif r['und']: rep.open('%s: %s' % (loc, r['und']))
        else: rep.ok()
        if r['notes'] and not r['exact']: rep.notes.append('%s: %s' % (loc, r['notes'][:2]))
        if len(rep.samples) < 6: rep.samples.append({'locale': loc, 'rule_function': where, 'comparisons': r['atoms'], 'number_classes': r['cells'], 'exhaustive': r['exact']})
    if n == 0: raise common.CheckError('no locale in the shipped data')
    rep.cov.update({'programs': n, 'disagreements_checked': ncells, 'comparisons_in_rule_functions': nat, 'locales_exhaustive': exact,
                    'rule': 'for each locale: decision DAG of create;select in MIR against the CLDR rule text on every class of (i, fraction digits) induced by the thresholds and moduli of both',
                    'inexact_notes': rep.notes[:10]})
    return rt


def show_leaf(rs): return ', '.join('%s %s' % (r[0], show(r[1]) if isinstance(r[1], tuple) else r[1]) for r in rs[:2])


def rule_where(rt, inst):
    for s in subterms(inst):
        if s[0] in ('CL', 'FNK') and s[1] in rt.p.bodies: return rt.p.bodies[s[1]].span
    return ''
