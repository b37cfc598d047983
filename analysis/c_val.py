"""C26: equality and cloning of the public values."""
import itertools, random
import common
from engine import *
import models
from models import strip

NEED = {'intl_pluralrules': ['PluralCategory', 'PluralRuleType', 'operands::PluralOperands'],
        'cldr_pluralrules_parser': ['ast::' + x for x in ('Rule', 'Samples', 'SampleList', 'SampleRange', 'DecimalValue', 'Condition', 'AndCondition', 'Relation', 'Operator', 'Expression', 'Modulo', 'Operand', 'RangeList', 'RangeListItem', 'Range', 'Value')]}
NUM = [5, 0, 1, 2, 10, 255, 256, 65536, 1 << 32, (1 << 32) + 5, 1 << 63, (1 << 64) - 1]
FLT = [5.0, 0.0, 1.0, 1.5, 5.000000001, 0.1, 123456789.0, float(1 << 53), float((1 << 53) + 2), 1e300, 5e-324, -5.0, float('inf'), float('nan')]


class Vals:
    def __init__(self, p, sym=None): self.p = p; self.memo = {}; self.sym = sym; self.k = 0

    def of(self, tid):
        """values of a type, each differing from the first in one place; None: not constructible here"""
        if self.sym is None and tid in self.memo: return self.memo[tid]
        t = self.p.types[tid]; k = t['k']; s = t['s']
        r = None
        if s in INT_BITS or s in ('usize', 'isize'):
            if self.sym: self.k += 1; return [('V', '%s%d' % (self.sym, self.k), s)]
            lo, hi = (0, 2 ** 64 - 1) if s in ('usize', 'u64') else (None, None)
            bits = INT_BITS.get(s, 64) or 64
            if lo is None: lo, hi = (0, (1 << bits) - 1) if s[0] == 'u' else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
            r = [('I', x, s) for x in NUM if lo <= x <= hi]
        elif s == 'f64':
            if self.sym: self.k += 1; return [('V', '%s%d' % (self.sym, self.k), s)]
            r = [('F', x) for x in FLT]
        elif s == 'bool':
            if self.sym: self.k += 1; return [('V', '%s%d' % (self.sym, self.k), s)]
            r = [FALSE, TRUE]
        elif k == 'adt' and (t['path'].endswith('::vec::Vec') or t['path'].endswith('::boxed::Box') and False):
            e = self.of(t['args'][0])
            if self.sym: return [('L', (e[0], self.of(t['args'][0])[0]))]
            a, b = e[0], e[1 if len(e) > 1 else 0]
            r = [('L', (x,)) for x in e] + [('L', ()), ('L', (a, b)), ('L', (b, a)), ('L', (a, a)), ('L', (a, a, a)), ('L', (a, b, a)), ('L', (a, a, b)), ('L', (b, b))]
        elif k == 'adt' and (t.get('local') or t['path'] == OPT):
            r = []
            if t['path'] == OPT: vs = [v for v in t['variants'] if v['fields']] + [v for v in t['variants'] if not v['fields']]
            else: vs = t['variants']
            for v in vs:
                fs = [self.of(f['t']) for f in v['fields']]
                if any(not f for f in fs): return None
                mk = lambda xs: ('A', t['path'], v['name'], tuple(xs))
                base = [f[0] for f in fs]
                r.append(mk(base))
                if self.sym: continue
                for i, f in enumerate(fs):
                    for x in f[1:]: r.append(mk(base[:i] + [x] + base[i + 1:]))
                for i, j in itertools.combinations(range(len(fs)), 2):       # two places at once, also exchanged
                    if len(fs[i]) > 1 and len(fs[j]) > 1:
                        c = list(base); c[i], c[j] = fs[i][1], fs[j][1]; r.append(mk(c))
                        if fs[i] == fs[j] and len(fs[i]) > 2:
                            for u, w in ((1, 2), (2, 1)):
                                c = list(base); c[i], c[j] = fs[i][u], fs[j][w]; r.append(mk(c))
        if r is not None and self.sym is None:
            r = list(dict.fromkeys(r)); self.memo[tid] = r
        return r


def equal(a, b):
    """specification: componentwise equality"""
    if a[0] != b[0]: return False
    if a[0] == 'F': return a[1] == b[1]
    if a[0] in ('I', 'B', 'C', 'S'): return a[1] == b[1]
    if a[0] in ('L', 'T'): return len(a[1]) == len(b[1]) and all(equal(x, y) for x, y in zip(a[1], b[1]))
    if a[0] == 'A': return a[1:3] == b[1:3] and len(a[3]) == len(b[3]) and all(equal(x, y) for x, y in zip(a[3], b[3]))
    raise Undecided('value')


def same_bits(a, b):
    if a[0] == 'R': a = a[1]
    if a[0] == 'F' and b[0] == 'F': return a[1] == b[1] or a[1] != a[1] and b[1] != b[1]
    if a[0] in ('L', 'T') and a[0] == b[0]: return len(a[1]) == len(b[1]) and all(same_bits(x, y) for x, y in zip(a[1], b[1]))
    if a[0] == 'A' and b[0] == 'A': return a[1:3] == b[1:3] and len(a[3]) == len(b[3]) and all(same_bits(x, y) for x, y in zip(a[3], b[3]))
    return a[:2] == b[:2]


def text(v):
    s = show(v).replace('cldr_pluralrules_parser::ast::', '')
    return s if len(s) < 160 else s[:157] + '...'


def brief(a, b):
    while a[0] == 'A' and b[0] == 'A' and a[:3] == b[:3]:
        d = [(x, y) for x, y in zip(a[3], b[3]) if x != y]
        if len(d) != 1 or d[0][0][0] not in ('A', 'L') or d[0][0][0] != d[0][1][0]: break
        if d[0][0][0] == 'L': break
        a, b = d[0]
    return text(a), text(b)


def single(E, key, args):
    E.leaves = 0
    try: d = E.run_fn(key, args)
    except (Undecided, RuntimeError) as e: return None, str(e)
    if not d.is_leaf: return None, 'several results'
    if d.kind == 'undecided': return None, d.val
    if d.kind == 'panic': return ('panic', d.val), None
    if d.kind != 'ret': return None, d.kind
    return d.val, None


def leaf_pairs(a, b, out):
    if a[0] == 'V': out.append((a, b)); return
    if a[0] in ('L', 'T'):
        for x, y in zip(a[1], b[1]): leaf_pairs(x, y, out)
    elif a[0] == 'A':
        for x, y in zip(a[3], b[3]): leaf_pairs(x, y, out)


def symbolic(E, p, key, tid, want=True):
    """None if eq of two values of one shape is exactly 'all components equal', else a reason (not proved)"""
    A = Vals(p, 'a').of(tid); B = Vals(p, 'b').of(tid)
    n = 0
    for a, b in zip(A, B):
        try: d = E.run_fn(key, [('R', a), ('R', b)])
        except (Undecided, RuntimeError) as e: return str(e), n
        ps = []; leaf_pairs(a, b, ps)
        pairs = {frozenset((x[1], y[1])) for x, y in ps}
        for path, lf in leaves(d):
            n += 1
            if lf.kind != 'ret' or lf.val[0] not in ('B', 'X', 'V'): return '%s leaf' % lf.kind, n
            true = set(); false = False
            for at, o in list(path) + ([(lf.val, True)] if lf.val[0] != 'B' else []):
                at, o = norm(at, o)
                cs = conj(at)
                for c in cs:
                    vs = frozenset(t[1] for t in subterms(c) if t[0] == 'V')
                    if c[0] != 'X' or c[1] != 'Eq' or vs not in pairs: return 'condition %s' % show(c)[:80], n
                    if o: true.add(vs)
                if not o: false = True
            res = lf.val[1] if lf.val[0] == 'B' else True
            if res == want and (true != pairs or false): return 'not every component is compared', n
            if res != want and not false: return 'unequal without a differing component', n
            if lf.val[0] != 'B' and not want: return 'symbolic inequality', n
    return None, n


def conj(at):
    if at[0] == 'X' and at[1] == 'BitAnd': return conj(at[2][0]) + conj(at[2][1])
    return [at]


def norm(at, o):
    while at[0] == 'X' and at[1] == 'Not': at = at[2][0]; o = not o
    if at[0] == 'X' and at[1] == 'Ne': at = ('X', 'Eq') + at[2:]; o = not o
    return at, o


def run(rep):
    import c_eff
    ntypes = nsym = npairs = nclones = 0; fns = []
    for crate, need in NEED.items():
        p = c_eff.load(crate)
        E = lambda: Engine(p, models.M, None, max_steps=60000, max_leaves=400)
        impls = {}
        for f in p.fns:
            if f['impl_trait'] in ('core::cmp::PartialEq', 'core::clone::Clone') and f['name'] in ('eq', 'ne', 'clone', 'clone_from'):
                impls.setdefault(f['impl_self'], {})[f['name']] = f
        for n in need:
            if crate + '::' + n not in p.adts: raise common.CheckError('type %s::%s not found' % (crate, n))
            if 'eq' not in impls.get(crate + '::' + n, {}): raise common.CheckError('no equality found for %s::%s' % (crate, n))
        V = Vals(p)
        for name, fs in sorted(impls.items()):
            a = p.adts.get(name)
            if a is None or not a.get('pub'): continue
            short = name.rsplit('::', 1)[-1]
            vals = V.of(a['t'])
            if vals is None:
                if 'eq' in fs: rep.open('%s: values of this type are not modelled' % short)
                continue            # PluralRules (clone only): C04
            ntypes += 1
            for op in ('eq', 'ne'):
                f = fs.get(op)
                if f is None: continue
                fns.append(f['path']); where = '%s (%s)' % (f['span'], op)
                why, k = symbolic(E(), p, f['key'], a['t'], op == 'eq'); nsym += k
                bad = und = None; e = E()
                pairs = list(itertools.product(vals, repeat=2))
                if len(pairs) > 4000:
                    rnd = random.Random(short)
                    pairs = [(x, x) for x in vals] + [(vals[0], x) for x in vals] + [(x, vals[0]) for x in vals] + rnd.sample(pairs, 20000 if common.THOROUGH else 2500)
                for x, y in pairs:
                    want = equal(x, y) == (op == 'eq')
                    r, w = single(e, f['key'], [('R', x), ('R', y)]); npairs += 1
                    if r is not None and r[0] == 'panic': bad = bad or (x, y, 'panics: %s' % r[1]); continue
                    r = strip(e, None, r) if r is not None else None
                    if r is None or r[0] != 'B': und = und or (w or 'symbolic result'); continue
                    if r[1] != want and bad is None: bad = (x, y, 'gives %s' % str(r[1]).lower())
                if bad:
                    s, t = brief(bad[0], bad[1])
                    rep.violation('%s of %s values: %s and %s %s' % ('==' if op == 'eq' else '!=', short, s, t, bad[2]), where); rep.bad()
                elif und: rep.open('%s of %s: %s' % (op, short, und))
                else: rep.ok(); rep.samples.append({'type': short, 'operation': op, 'pairs': len(pairs), 'all values': 'yes' if why is None else 'samples only: ' + why})
            f = fs.get('clone')
            if f:
                fns.append(f['path']); bad = und = None; e = E()
                for x in vals:
                    r, w = single(e, f['key'], [('R', x)]); nclones += 1
                    if r is not None and r[0] == 'panic': bad = bad or (x, 'a panic: %s' % r[1]); continue
                    if r is None or is_sym(r): und = und or (w or 'symbolic result'); continue
                    if not same_bits(r, x) and bad is None: bad = (x, text(r))
                if bad: rep.violation('clone of %s gives %s' % (text(bad[0]), bad[1]), '%s (clone)' % f['span']); rep.bad()
                elif und: rep.open('clone of %s: %s' % (short, und))
                else: rep.ok()
    rep.cov.update(types=ntypes, functions=fns, symbolic_paths=nsym, pairs=npairs, clones=nclones,
                   explanation='MIR of every PartialEq and Clone implementation of a public type (derived or written by hand): equality of two values of one shape with symbolic components must hold exactly when all components are equal; pairs of values that differ in one place, in an exchange of two places, in length, order or variant are evaluated by constant propagation; clones must have identical components.')
