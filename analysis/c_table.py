"""C03, C04, C05, C13: locale tables, lookup, reporting, version."""
import common
from engine import *
from rt import *
from models import M, strip


def classify(rs):
    """'ok' (with instance) | 'err' | 'und' (with text) | 'bad' (panic...)"""
    if len(rs) != 1: return 'und', 'ambiguous: ' + '; '.join(desc(r) for r in rs[:3])
    k, v = rs[0]
    if k == 'ret' and v[0] == 'A' and v[2] == 'Ok': return 'ok', v[3][0]
    if k == 'ret' and v[0] == 'A' and v[2] == 'Err': return 'err', None
    if k in ('undecided',) or (k == 'ret' and is_sym(v)): return 'und', desc(rs[0])
    return 'bad', desc(rs[0])


def desc(r): return '%s %s' % (r[0], show(r[1])[:200] if isinstance(r[1], tuple) else r[1])


def probes(keys):
    """identifiers that stress a lookup: every key with a subtag added or removed, and unrelated ones"""
    out = []
    for k in keys:
        f = list(k[3])

        def w(i, v):
            g = list(f); g[i] = v; out.append(('A', k[1], k[2], tuple(g)))
        z = langid('en', 'Latn', 'US', ('fonipa',)); y = langid('en', 'Cyrl', 'GB', ('posix',))
        for i in (1, 2, 3): w(i, z[3][i]); w(i, y[3][i]); w(i, NONE)
        g = list(f); g[1], g[2] = z[3][1], z[3][2]; out.append(('A', k[1], k[2], tuple(g)))
        s = tiny_str(f[0][3][0][3][0]) if f[0][3][0][2] == 'Some' else ''
        if s:
            for t in (s + 'x', s[:2], s + 'q', s[:-1] + ('z' if s[-1] != 'z' else 'a')):
                if 2 <= len(t) <= 3: out.append(langid(t))
            out.append(langid(s + 'xxxxx'[:max(0, 5 - len(s))]))
    for s in ('und', 'xx', 'zz', 'aaa', 'zzz', 'und-US', 'und-PT', 'xx-PT', 'zh-Hans', 'zh-Hant-TW', 'sr-Latn', 'pt-BR', 'en-US', 'es-419', 'de-CH', 'no', 'nb', 'zh-TW', 'art-lojban'):
        x = parse_langid(s)
        if x: out.append(x)
    seen = set(); res = []
    for o in out:
        if o not in seen: seen.add(o); res.append(o)
    return res


def table_const(rt, prt):
    """the table of this rule type: constant or static slice of (LanguageIdentifier, rule function)"""
    c = []
    for name, e in list(rt.p.consts.items()) + [(k, v) for k, v in rt.p.statics.items()]:
        last = name.rsplit('::', 1)[-1]
        if prt in last.upper() and e.get('v') is not None:
            try: v = rt.p.const_value(e['v'], e['t'])
            except Exception: continue
            v = strip(rt.fold_engine, None, v)
            if v[0] == 'L' and v[1] and all(x[0] == 'T' and len(x[1]) == 2 and x[1][0][0] == 'A' and x[1][0][1] == LI for x in v[1]): c.append((name, v))
    return c[0] if len(c) == 1 else (None, None)


def fnvals(inst):
    return [s for s in subterms(inst) if s[0] in ('CL', 'FNK', 'FN')]


def c03(rep):
    rt = RT(); total = 0
    for prt in ('CARDINAL', 'ORDINAL'):
        data = rt.data(prt)
        want = {}
        for loc in data:
            if loc == 'root': continue
            i = parse_langid(loc)
            if i is None: rep.open('CLDR locale %r is not an identifier' % loc); continue
            want[i] = loc
        if not want: raise common.CheckError('no locales in the data')
        got, why = rt.locales(prt)
        where = 'PluralRules::get_locales(%s)' % prt
        if got is None: rep.open('get_locales(%s): %s' % (prt, why))
        else:
            cnt = {}
            for g in got: cnt[g] = cnt.get(g, 0) + 1
            for g, c in cnt.items():
                total += 1
                w = wellformed(g)
                if w: rep.bad(); rep.violation('listed identifier %s: %s' % (id_str(g), w), where, identifier=id_str(g)); continue
                if g not in want: rep.bad(); rep.violation('%s is listed but not in the CLDR data of this type' % id_str(g), where); continue
                if c > 1: rep.bad(); rep.violation('%s is listed %d times' % (id_str(g), c), where); continue
                rep.ok()
            for g, loc in want.items():
                if g not in cnt: rep.bad(); rep.violation('locale %s of the CLDR data is not listed' % loc, where)
        for g, loc in want.items():
            k, x = classify(rt.resolve(prt, g)); total += 1
            if k == 'ok': rep.ok()
            elif k == 'und': rep.open('lookup of %s: %s' % (loc, x))
            else: rep.bad(); rep.violation('locale %s of the CLDR data is not found by the lookup (%s): the table is not in the order the search needs, or the entry is wrong' % (loc, x or 'error'), 'PluralRules::create(%s)' % prt)
    rep.cov.update({'locales_and_lookups': total, 'explanation': 'constant evaluation of the locale tables (get_locales summarised from MIR), compared as sets with the locale keys of the shipped JSON; each key followed through the decision DAG of create, whose binary search is evaluated against the constant table order.'})


def c04(rep):
    rt = RT(); n = 0
    for prt in ('CARDINAL', 'ORDINAL'):
        name, tab = table_const(rt, prt)
        root, E = rt.create_dag(prt)
        nodes = dag_nodes(root)
        where = 'PluralRules::create(%s)' % prt
        got, why = rt.locales(prt)
        keys = [e[1][0] for e in tab[1]] if tab else (got or [])
        if not tab: rep.open('no table constant for %s' % prt)
        if not keys: rep.open('no keys for %s' % prt); continue
        first = {}
        if tab:
            for e in tab[1]: first.setdefault(e[1][0], e[1][1])
        for k in dict.fromkeys(keys):
            kind, x = classify(rt.resolve(prt, k)); n += 1
            if kind == 'ok':
                fv = fnvals(x)
                if k in first and len(fv) == 1 and fv[0] != first[k]:
                    rep.bad(); rep.violation('creation for %s binds the rule at %s instead of the one the %s table holds for it (%s)' % (id_str(k), span_of(rt, fv[0]), prt, span_of(rt, first[k])), where, locale=id_str(k)); continue
                if k in first and len(fv) != 1: rep.open('instance of %s does not hold a single rule function' % id_str(k)); continue
                c = clone_of(rt, x)
                if c is None: rep.open('clone of %s' % id_str(k)); continue
                if c != x: rep.bad(); rep.violation('clone of the instance for %s differs: %s' % (id_str(k), show(c)[:200]), 'PluralRules::clone'); continue
                rep.ok()
            elif kind == 'und': rep.open('creation for %s: %s' % (id_str(k), x))
            else: rep.bad(); rep.violation('creation for the supported locale %s gives %s' % (id_str(k), x or 'an error'), where, locale=id_str(k))
        # every locale that is not in the table
        idt = V('id', LI)
        simple = all(n_.is_leaf or eq_key(n_.atom, idt) is not None for n_ in nodes)
        ks = set(keys)
        if simple and all(n_.is_leaf or eq_key(n_.atom, idt) in ks for n_ in nodes):
            # the one remaining class: equal to no key
            x = root
            while not x.is_leaf: x = x.f
            kind, v = classify([(x.kind, x.val)])
            n += 1
            if kind == 'err': rep.ok()
            elif kind == 'und': rep.open('creation for an unknown locale: %s' % v)
            else: rep.bad(); rep.violation('creation succeeds (or aborts) for a locale the table does not hold: %s' % (desc((x.kind, x.val))), where)
        else: rep.notes.append('%s: lookup makes other tests than equality with table keys; unknown locales decided on probes' % prt)
        for g in probes(keys):
            if g in ks: continue
            kind, v = classify(rt.resolve(prt, g)); n += 1
            if kind == 'err': rep.ok()
            elif kind == 'und': rep.open('creation for the unknown locale %s: %s' % (id_str(g), v))
            else: rep.bad(); rep.violation('creation for %s, which the table does not hold, %s' % (id_str(g), 'falls back to the rule at ' + ', '.join(span_of(rt, f) for f in fnvals(v)) if kind == 'ok' else v), where, locale=id_str(g))
        rep.samples.append({'rule_type': prt, 'table': name, 'entries': len(keys), 'dag_nodes': len(nodes), 'only_equality_tests': simple})
    rep.cov.update({'locale_classes': n, 'notes': rep.notes, 'explanation': 'decision DAG of PluralRules::create over a symbolic identifier (MIR), followed for every table key, for the class of all identifiers equal to no key, and for near-miss identifiers; rule functions compared by identity with the table constant; Clone::clone summarised on the instance.'})


def eq_key(atom, idt):
    if atom[0] == 'X' and atom[1] == 'Eq' and idt in atom[2]:
        o = atom[2][0] if atom[2][1] == idt else atom[2][1]
        if is_const(o): return o
    return None


def span_of(rt, f):
    if f[0] in ('CL', 'FNK') and f[1] in rt.p.bodies: return rt.p.bodies[f[1]].span
    return show(f)


def clone_of(rt, inst):
    f = rt.method('intl_pluralrules::PluralRules', 'clone', 'core::clone::Clone')
    E = Engine(rt.p, M)
    r = E.run_fn(f['key'], [('R', inst)])
    if r.is_leaf and r.kind == 'ret' and is_const(r.val): return r.val
    return None


def c05(rep):
    rt = RT(); n = 0
    gl = rt.method('intl_pluralrules::PluralRules', 'get_locale')
    for prt in ('CARDINAL', 'ORDINAL'):
        got, why = rt.locales(prt)
        _, tab = table_const(rt, prt)
        cands = list(got or []) + ([e[1][0] for e in tab[1]] if tab else []) + [i for i in (parse_langid(l) for l in rt.data(prt) if l != 'root') if i]
        cands = list(dict.fromkeys(cands)); cands += [x for x in probes(cands) if x not in set(cands)]
        if not cands: raise common.CheckError('no candidate locales')
        if got is None: rep.open('get_locales(%s): %s' % (prt, why))
        else:
            dup = {g for g in got if got.count(g) > 1}
            for g in dup: rep.bad(); rep.violation('%s is listed more than once' % id_str(g), 'PluralRules::get_locales(%s)' % prt)
        gs = set(got or [])
        for c in cands:
            kind, x = classify(rt.resolve(prt, c)); n += 1
            if kind == 'und': rep.open('creation for %s: %s' % (id_str(c), x)); continue
            if got is not None and (kind == 'ok') != (c in gs):
                rep.bad(); rep.violation('%s is %slisted but creation %s' % (id_str(c), '' if c in gs else 'not ', 'succeeds' if kind == 'ok' else 'fails'), 'PluralRules::get_locales(%s)' % prt); continue
            if kind == 'ok':
                E = Engine(rt.p, M, dom=LocDom())
                r = E.run_fn(gl['key'], [('R', x)])
                ls = [l for _, l in leaves(r)]
                if len(ls) != 1 or ls[0].kind != 'ret' or not is_const(ls[0].val): rep.open('get_locale for %s' % id_str(c)); continue
                v = strip(E, None, ls[0].val)
                if v != c: rep.bad(); rep.violation('an instance created for %s reports the locale %s' % (id_str(c), id_str(v)), 'PluralRules::get_locale'); continue
            rep.ok()
    rep.cov.update({'locale_classes': n, 'explanation': 'get_locales evaluated as a constant list; for every listed, table, CLDR and near-miss identifier the decision DAG of create is followed and the summary of get_locale on the resulting instance must return that identifier.'})


def c13(rep):
    rt = RT()
    import os, json
    vers = {prt: rt.data_version(prt) for prt in ('CARDINAL', 'ORDINAL')}
    val = None; name = None
    cands = [(k, e) for k, e in list(rt.p.statics.items()) + list(rt.p.consts.items()) if k.rsplit('::', 1)[-1] == 'CLDR_VERSION']
    root = [c for c in cands if c[0].count('::') == 1]
    if len(root or cands) > 1: rep.open('several CLDR_VERSION definitions'); return
    for k, e in (root or cands):
        if True:
            name = k
            if 'mut' in e and (e['mut'] or not e['freeze']):
                rep.bad(); rep.violation('CLDR_VERSION is mutable, so its value is not that of the data', e.get('span', k)); return
            val = rt.p.const_value(e['v'], e['t'])
    if name is None: raise common.CheckError('no CLDR_VERSION in the run-time library')
    if val[0] not in ('I', 'S') and not (val[0] == 'R' and val[1][0] == 'S'): rep.open('CLDR_VERSION is not a plain constant: ' + show(val)); return
    s = str(val[1] if val[0] != 'R' else val[1][1])
    for prt, v in vers.items():
        if s == v: rep.ok()
        else: rep.bad(); rep.violation('CLDR_VERSION is %s but %s records version %s' % (s, FILES[prt], v), name, constant=s, data=v)
    rep.samples.append({'constant': name, 'value': s, 'data': vers})
    rep.cov['explanation'] = 'constant evaluation of the exported version static, compared with supplemental.version._cldrVersion of both data files'
