"""C06 (selection), C11 (no panics in the run-time library)."""
import common, math, itertools
from engine import *
from rt import *
from models import M, strip
import evalt, c_ops
from evalt import Ev, eval_dag, Unk, consts_of

FV = V('F')
CATS = ['ZERO', 'ONE', 'TWO', 'FEW', 'MANY', 'OTHER']


def instances(rt, rep):
    """(rule type, locale text, instance value) for every listed locale"""
    out = []
    for prt in ('CARDINAL', 'ORDINAL'):
        ls, why = rt.locales(prt)
        ids = ls if ls is not None else [parse_langid(l) for l in rt.data(prt) if l != 'root']
        for i in ids:
            rs = [r for r in rt.resolve(prt, i) if r[0] == 'ret' and r[1][0] == 'A' and r[1][2] == 'Ok']
            if len(rs) == 1: out.append((prt, id_str(i), rs[0][1][3][0]))
    if not out: rep.undecided('no instance could be derived from create')
    return out


def abstract_fn(rt, inst):
    """replace the rule function held by the instance with the symbol F"""
    fs = [s for s in subterms(inst) if s[0] in ('CL', 'FNK') and not any(isinstance(c, tuple) for c in children(s))]
    if len(fs) != 1: return None, fs
    return subst(inst, {fs[0]: FV}), fs


CONV = V('conversion', 'bool')


# argument types: name as type_name prints it, size and alignment
NTYPES = [(n, b // 8, b // 8) for k in 'ui' for b in (8, 16, 32, 64) for n in ('%s%d' % (k, b),)] + [('f32', 4, 4), ('f64', 8, 8), ('usize', None, None), ('isize', None, None), ('&str', -2, None), ('alloc::string::String', -3, None)]
REFLECT = ('any::type_name', 'mem::size_of', 'mem::align_of', 'mem::needs_drop')


def select_sum(rt, inst, nty=None):
    f = rt.method('intl_pluralrules::PluralRules', 'select')
    ops = rt.operands()
    w = rt.ptr // 8

    def hook(E, st, ft, args, term):
        k = norm_path(ft['path'])
        if k in REFLECT:
            ts = [E.p.types[x] for x in ft.get('args', []) if isinstance(x, int)]
            if not ts or ts[-1]['k'] != 'param': return None
            E.reflects = True
            if nty is None: return None
            n, sz, al = nty
            if k == 'any::type_name': return ('R', ('S', n))
            if k == 'mem::needs_drop': return mkbool(n.endswith('String'))
            if k == 'mem::size_of': return ('I', w if sz is None else -sz * w if sz < 0 else sz, 'usize')
            return ('I', w if al is None else al, 'usize')
        if norm_path(ft['path']) in ('TryInto::try_into', 'TryFrom::try_from') and args and args[0] == V('N'):
            return Fork(CONV, lambda s: Ok(ops), lambda s: Err(V('conversion error')))
        return None
    E = Engine(rt.p, M, hook=hook, ptr=rt.ptr)
    return E.run_fn(f['key'], [('R', inst), V('N')]), E, ops


def op_pool(root):
    """operand tuples used as witnesses: constants of the summary and extremes per operand"""
    ints = {0, 1, 2, 3, 5, 7, 10, 11, 12, 21, 99, 100, 1000, 1000000, 1 << 31, 1 << 32, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1}
    flts = {0.0, 1.0, 1.5, 2.0, 10.0, 0.5, -1.0, -0.0, 1e20, 5e-324, 1e300, math.inf, -math.inf, math.nan}
    for c in consts_of(root):
        if c[0] == 'I' and 0 <= c[1] < 1 << 64: ints |= {max(0, c[1] - 1), c[1], min((1 << 64) - 1, c[1] + 1)}; flts.add(float(c[1]))
        if c[0] == 'F': flts |= {c[1], c[1] + 1, c[1] - 1}
    ints = sorted(ints); flts = sorted(flts, key=repr)
    base = []
    for i in ints: base.append(dict(n=float(i), i=i, v=0, w=0, f=0, t=0))
    for v, w, f, t in ((1, 0, 0, 0), (1, 1, 5, 5), (2, 1, 10, 1), (2, 2, 25, 25), (3, 0, 0, 0), (20, 20, (1 << 64) - 1, (1 << 64) - 1)):
        for i in ints: base.append(dict(n=float('%d.%0*d' % (i, v, f)), i=i, v=v, w=w, f=f, t=t))
    for i in ints:
        for k in 'vwft':
            d = dict(n=1.0, i=1, v=0, w=0, f=0, t=0); d[k] = i; base.append(d)
            d = dict(n=float(i), i=i, v=i, w=i, f=i, t=i); base.append(d)
    for x in flts: base.append(dict(n=x, i=1, v=0, w=0, f=0, t=0)); base.append(dict(n=x, i=0, v=1, w=1, f=5, t=5))
    return base


class EvF(Ev):
    """the rule F gives `cat` for exactly the operands of the argument and another category for any others"""
    def __init__(self, E, inst, ops, cat):
        Ev.__init__(self, E, inst); self.cat = cat; self.want = tuple(self(x) for x in ops[3])

    def go(self, t):
        if t[0] == 'X' and t[1] == 'apply' and t[2][0] == FV:
            got = self(t[2][1])
            same = len(got) == 7 and all(a == b or (a != a and b != b) for a, b in zip(got[1:], self.want))
            return (self.cat,) if same else (CATS[(CATS.index(self.cat) + 1) % 6],)
        return Ev.go(self, t)


def judge(rt, root, E, ops, prt, loc, concrete, nty=None):
    """first operand tuple for which the summary gives a wrong result, described; None if there is none"""
    what = '%s instance for %s: ' % (prt.lower(), loc)
    for cv in (True, False):
        for d in op_pool(root) if cv else [dict(n=1.0, i=1, v=0, w=0, f=0, t=0)]:
            if rt.ptr == 32 and max(d['v'], d['w']) >= 1 << 32: continue
            if nty and cv and nty[0][0] in 'ui':
                # operands an integer of this type can have
                bits = int(nty[0][1:]) if nty[1] else rt.ptr
                if d['v'] or d['w'] or d['f'] or d['t'] or d['n'] != float(d['i']) or d['i'] >> (bits if nty[0][0] == 'u' else bits - 1): continue
            for cat in ['ONE'] if concrete else CATS:
                d2 = dict(d); d2['conversion'] = cv; d2['conversion error'] = 'e'
                try: ev = EvF(E, d2, ops, cat); leaf = eval_dag(root, ev)
                except Unk: continue
                if leaf is None or leaf.kind in ('undecided', 'unreachable'): continue
                arg = 'operands (%s)' % ', '.join('%s=%s' % x for x in d.items()) if cv else 'an argument whose conversion fails'
                if leaf.kind != 'ret': return what + 'selection on %s ends in %s %s' % (arg, leaf.kind, leaf.val)
                try: v = ev(leaf.val)
                except Unk:
                    v = leaf.val
                    if v[0] == 'A' and v[1] == RES and (v[2] == 'Ok') != cv: v = (v[2],)
                    else: continue
                if cv and v[0] == 'Err': return what + 'selection refuses %s although the conversion succeeded' % arg
                if not cv and v[0] == 'Ok': return what + 'selection gives a category for %s' % arg
                if cv and not concrete and v != ('Ok', (cat,)): return what + 'for %s the rule gives %s but selection gives %s' % (arg, cat, v[1][0] if len(v) > 1 and isinstance(v[1], tuple) else v)
    return None


def c06(rep):
    seen = {}; n = 0
    for ptr in (64, 32):
        rt = RT(ptr=ptr)
        where = rt.method('intl_pluralrules::PluralRules', 'select')['span']
        insts = instances(rt, rep)
        for prt, loc, inst in insts:
            a, fs = abstract_fn(rt, inst)
            concrete = a is None
            root, E, ops = select_sum(rt, inst if concrete else a)
            n += 1
            app = X('apply', FV, ('R', ops))
            ok = und = True; und = None
            rest = []
            for p, l in leaves(root):
                if l.kind == 'unreachable': continue
                conv = dict(p).get(CONV)
                if l.kind == 'undecided': und = str(l.val); continue
                if l.kind == 'ret' and l.val[0] == 'A' and l.val[1] == RES:
                    if conv is False and l.val[2] == 'Err': continue
                    if conv is True and l.val[2] == 'Ok' and (l.val[3][0][:3] == app[:3] or concrete): continue
                rest.append((p, l))
            if not rest and und is None: rep.ok(); continue
            sig = tuple((show_path(p), l.kind, show(l.val) if isinstance(l.val, tuple) else l.val) for p, l in rest)
            if sig in seen and not concrete:
                if seen[sig] == 'v': rep.bad()
                else: rep.ok()
                continue
            bad = judge(rt, root, E, ops, prt, loc, concrete)
            if not bad and getattr(E, 'reflects', False):
                for nty in NTYPES:
                    bad = judge(rt, *select_sum(rt, inst if concrete else a, nty), prt, loc, concrete, nty)
                    if bad: bad += ' when the argument is a %s' % nty[0]; break
            if bad: rep.bad(); rep.violation(bad + ' (%d-bit)' % ptr, where, locale=loc); seen[sig] = 'v'
            elif und or rest:
                rep.open('%s %s: %s' % (prt.lower(), loc, und or 'when %s: %s' % (show_path(rest[0][0])[:120], show(rest[0][1].val)[:120]))); seen[sig] = 'u'
            if concrete and not bad: rep.undecided('the instance does not hold its rule as a function value: which rule is applied is left to C01/C02')
    rep.cov.update({'instances': n, 'explanation': 'MIR summary of PluralRules::select with a symbolic argument whose conversion succeeds (symbolic operands) or fails, on every instance that create can return with its rule function replaced by the symbol F: every path must return Ok(F(operands)) after a successful and Err after a failed conversion.'})


# ------------------------------------------------------------------ panics
def c11(rep):
    n = 0; fns = set()
    def add(what, where, root, E, pool, und_ok=()):
        """pool: iterable of witness instantiations"""
        nonlocal n
        n += 1
        fns.update(E.visited)
        pan = []
        for nd in dag_nodes(root):
            if nd.is_leaf and nd.kind == 'panic': pan.append(nd)
            if nd.is_leaf and nd.kind == 'undecided': rep.undecided('%s: %s' % (what, nd.val))
        if not pan: rep.ok(); return
        for d in pool:
            ev = Ev(E, d)
            l = eval_dag(root, ev)
            if l is not None and l.kind == 'panic':
                rep.bad(); rep.violation('%s panics for %s: %s' % (what, ', '.join('%s=%r' % kv for kv in d.items()), l.val), where); return
        if root.is_leaf: rep.bad(); rep.violation('%s panics always: %s' % (what, root.val), where); return
        rep.open('%s: no input found for panic edge %s' % (what, pan[0].val))
    for ptr in (64, 32):
        rt = RT(ptr=ptr); b = '' if ptr == 64 else ' (32-bit)'
        cv = c_ops.convs(rt)
        # creation, for arbitrary identifiers
        for prt in ('CARDINAL', 'ORDINAL'):
            root, E = rt.create_dag(prt)
            f = rt.method('intl_pluralrules::PluralRules', 'create')
            fns.update(E.visited)
            pan = [x for x in dag_nodes(root) if x.is_leaf and x.kind == 'panic']
            for x in dag_nodes(root):
                if x.is_leaf and x.kind == 'undecided': rep.undecided('create: %s' % x.val)
            n += 1
            if pan:
                import c_table
                keys = [parse_langid(l) for l in rt.data(prt) if l != 'root']
                hit = None
                for i in keys + c_table.probes(keys):
                    if len(rt.resolve(prt, i)) == 1 and rt.resolve(prt, i)[0][0] == 'panic': hit = i; break
                if hit: rep.bad(); rep.violation('create panics for locale %s (%s): %s' % (id_str(hit), prt.lower(), pan[0].val), f['span'])
                else: rep.open('create: no locale found for panic edge %s' % pan[0].val)
            else: rep.ok()
            f = rt.method('intl_pluralrules::PluralRules', 'get_locales')
            E = Engine(rt.p, M, dom=LocDom(), ptr=ptr)
            add('get_locales(%s)%s' % (prt, b), f['span'], E.run_fn(f['key'], [adt(PRT, prt)]), E, [{}])
        # conversions
        for ty, (key, kind, span) in cv.items():
            if ty in INT_BITS or ty in ('usize', 'isize'):
                E = Engine(rt.p, M, ptr=ptr); root = E.run_fn(key, [V('x', ty)])
                lo, hi = E.rng(ty)
                pool = {lo, lo + 1, hi, hi - 1, 0, 1, -1}
                for k in range(E.bits(ty)):
                    for dd in (-1, 0, 1): pool |= {(1 << k) + dd, -(1 << k) + dd}
                for c in consts_of(root):
                    if c[0] == 'I': pool |= {c[1] + dd for dd in (-1, 0, 1)} | {-c[1] + dd for dd in (-1, 0, 1)}
                add('conversion from %s%s' % (ty, b), span, root, E, [{'x': x} for x in sorted(pool) if lo <= x <= hi])
            elif ty in ('f32', 'f64'):
                class D(c_ops.StrDom):
                    def kind(self, v):
                        if v[0] == 'X' and v[1] in ('display', 'fmtopt'): return 'ANY'
                        return c_ops.StrDom.kind(self, v)
                E = Engine(rt.p, M, dom=D({}), ptr=ptr, max_conds=40, max_steps=6000); root = E.run_fn(key, [V('x', ty)])
                pool = [evalt.f32(x) if ty == 'f32' else x for x in c_ops.F_S]
                for c in consts_of(root):
                    if c[0] == 'F': pool += [c[1], c[1] + 1, -c[1]]
                add('conversion from %s%s' % (ty, b), span, root, E, [{'x': x} for x in pool])
            elif ty == '&str' or ty == 'alloc::string::String':
                dom = c_ops.StrDom({'G': 'ANY'})
                E = Engine(rt.p, M, dom=dom, ptr=ptr, max_conds=40, max_steps=6000)
                root = E.run_fn(key, [('R', V('G', 'str')) if ty == '&str' else V('G', 'str')])
                pool = list(c_ops.ANY_S)
                for t in c_ops.extra_texts(root): pool += [t, '-' + t, t + '.5', '1.' + t, '-1.' + t]
                for c in consts_of(root):
                    if c[0] in ('S', 'C'): pool += [c[1], c[1] + '1', '1' + c[1], c[1] * 2]
                add('conversion from %s%s' % (ty.rsplit(':')[-1], b), span, root, E, [{'G': s} for s in pool])
                if any(x.is_leaf and x.kind == 'undecided' for x in dag_nodes(root)):
                    for s in dict.fromkeys(pool):
                        o = c_ops.known_text(rt, key, s, ty == '&str')
                        if o[0] == 'panic': rep.bad(); rep.violation('conversion from %s%s panics for %r: %s' % (ty.rsplit(':')[-1], b, s, o[1]), span); break
                # shapes give the segments more structure than arbitrary text
                for (nm, text, segs, fits, exp) in c_ops.shapes():
                    dom = c_ops.StrDom(segs, {})
                    E = Engine(rt.p, M, dom=dom, ptr=ptr, max_conds=40, max_steps=6000)
                    root = E.run_fn(key, [('R', text) if ty == '&str' else text])
                    add('conversion from %s of shape %s%s' % (ty.rsplit(':')[-1], nm, b), span, root, E, c_ops.insts(c_ops.seg_names(text), c_ops.extra_texts(root), {}))
            else:
                E = Engine(rt.p, M, ptr=ptr); root = E.run_fn(key, [V('x', ty)])
                add('conversion from %s%s' % (ty, b), span, root, E, [])
        # rule functions with arbitrary operands, through select
        done = {}
        for prt, loc, inst in instances(rt, rep):
            a, fs = abstract_fn(rt, inst)
            k = fs[0] if len(fs) == 1 else inst
            if k in done: continue
            root, E = rt.select_dag(inst)
            done[k] = 1
            pool = [d for d in op_pool(root) if ptr == 64 or max(d['v'], d['w']) < 1 << 32] if any(x.is_leaf and x.kind == 'panic' for x in dag_nodes(root)) else []
            add('selection (%s, %s)%s' % (prt.lower(), loc, b), c_rules_where(rt, inst), root, E, pool)
            if a is not None and 'sel' not in done:
                done['sel'] = 1
                for m, tr in (('get_locale', None), ('clone', 'core::clone::Clone')):
                    f = rt.method('intl_pluralrules::PluralRules', m, tr)
                    E = Engine(rt.p, M, ptr=ptr)
                    add(m + b, f['span'], E.run_fn(f['key'], [('R', inst)]), E, [{}])
                root, E, ops = select_sum(rt, a)
                add('select' + b, rt.method('intl_pluralrules::PluralRules', 'select')['span'], root, E, [dict(d, conversion=c) for c in (True, False) for d in op_pool(root)])
    rep.cov.update({'summaries': n, 'functions_inlined': len(fns), 'explanation': 'MIR summaries (overflow, index, division, unwrap, slice-boundary and explicit panic edges kept) of create, select, get_locale, get_locales, clone, every conversion into operands and every rule function, over symbolic arguments on 32- and 64-bit targets: no panic edge is reachable.'})


def c_rules_where(rt, inst):
    import c_rules
    return c_rules.rule_where(rt, inst)
