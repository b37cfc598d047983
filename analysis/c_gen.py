"""Checks of the generator: C18 relations, C19 rules, C20 tables, C21 aborts, C22 output file, C23 determinism."""
import itertools, random, os, time, multiprocessing as mp
import common, gen, gencode
from engine import *
from gencode import Odd

OPERANDS = 'nivwft'
OPERATORS = ['=', '!=', 'is', 'is not', 'in', 'not in', 'within', 'not within']
NEG = {'!=', 'is not', 'not in', 'not within'}
KINDS = [''.join(k) for n in (1, 2, 3) for k in itertools.product('vr', repeat=n)] + ['vrvrv', 'rrvv', 'vvvv', 'rrrr', 'v' * 5, 'r' * 5, 'v' * 6, 'r' * 7, 'v' * 9, 'vr' * 6, 'v' * 13, 'r' * 10]


def res(card=None, ordi=None, version='37', number=None):
    s = {'version': {'_unicodeVersion': '13.0', '_cldrVersion': version}}
    if number is not None: s['version']['_number'] = number
    if card is not None: s['plurals-type-cardinal'] = card
    if ordi is not None: s['plurals-type-ordinal'] = ordi
    return {'supplemental': s}


def rel_text(op, mod, oper, kinds):
    """rule text with symbolic literals; returns text and the literal variables"""
    k = [0]

    def nx():
        k[0] += 1
        return str(gen.BASE + k[0])
    t = op
    if mod: t += ' % ' + nx()
    its = [nx() if c == 'v' else nx() + '..' + nx() for c in kinds]
    return '%s %s %s' % (t, oper, ','.join(its)), k[0]


def items_of(mod, kinds, env):
    """(modulus, [(lo, hi)]) under an assignment"""
    k = 0
    m = None
    if mod: k = 1; m = env['a1']
    out = []
    for c in kinds:
        if c == 'v': k += 1; out.append((env['a%d' % k], env['a%d' % k]))
        else: out.append((env['a%d' % (k + 1)], env['a%d' % (k + 2)])); k += 2
    return m, out


def spec_rel(op, mod, oper, kinds, env):
    """UTS #35 meaning of a relation as a python function of (n,i,v,w,f,t)"""
    m, its = items_of(mod, kinds, env)
    ix = 'nivwft'.index(op)
    neg = oper in NEG; within = 'within' in oper

    def f(*po):
        x = po[ix]
        if m: x = x % m
        hit = any(lo <= x <= hi for lo, hi in its) and (within or x == int(x))
        return hit != neg
    return f


def legacy_rel(op, mod, oper, kinds, env):
    """what the generator is known to emit for the shapes of the known findings"""
    m, its = items_of(mod, kinds, env)
    ix = 'nivwft'.index(op); neg = oper in NEG
    if 'within' in oper:
        rs = [r for r, k in zip(its, kinds) if k == 'r']
        lo, hi = rs[0]

        def f(*po):
            x = po[1] % m if op == 'n' and m else po[ix] % m if m else po[ix]
            return (lo > x and x > hi) if neg else lo <= x <= hi
        return f

    def g(*po):
        n, i, v, w, f, t = po
        out = []
        for (lo, hi), k in zip(its, kinds):
            if op == 'n':
                if k == 'v': b = ((i % m if m else n) == lo) != neg
                elif m: b = (lo <= i <= hi) != neg
                else: b = ((lo <= i <= hi) != neg) and f == 0
            else:
                x = po[ix] % m if m else po[ix]
                b = (lo <= x <= hi) != neg
            out.append(b)
        return all(out) if neg else any(out)
    return g


def classes(op, mod, oper, kinds):
    """known-finding classes a shape belongs to"""
    out = []
    if 'within' in oper:
        if oper == 'not within': out.append('not-within')
        if kinds != 'r': out.append('within-list')
        if op == 'n' and mod: out.append('n-mod-within')
        return out
    if op == 'n' and mod and 'v' in kinds: out.append('n-mod-value')
    if op == 'n' and mod and 'r' in kinds: out.append('n-mod-range')
    if op == 'n' and not mod and oper in NEG and 'r' in kinds: out.append('n-not-range')
    return out


SMALL = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 17, 19, 20, 21, 99, 100, 101, 255, 256, 300, 1000, 65535, 65536, 65537, 1000000]
BIG = [2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 3, 2 ** 33 + 7]


def envs(op, mod, kinds, nvars, extra=()):
    rnd = random.Random('%s%s%s' % (op, mod, kinds))
    out = []
    ms = [2, 5, 7, 10, 10, 10, 100, 100, 1000, 1000000]

    def one(r, m0=None, force=None):
        env = {}; k = 0; m = None
        if mod: k = 1; m = m0 or rnd.choice(ms); env['a1'] = m
        if m: pool = [x for x in SMALL if x <= m + 1]
        elif op in 'vw': pool = [0, 1, 2, 3, 4, 5]
        else: pool = SMALL + (BIG if r % 3 == 0 else [])
        pool = pool + [x for x in extra if not m or x <= m + 1]
        for c in kinds:
            if c == 'v': k += 1; env['a%d' % k] = rnd.choice(pool)
            else:
                lo = rnd.choice(pool); hi = rnd.choice([lo, lo + 1, lo + 2, lo + rnd.randrange(9), max(lo, rnd.choice(pool))])
                if r % 7 == 6: lo, hi = hi, lo      # an empty range
                env['a%d' % (k + 1)], env['a%d' % (k + 2)] = lo, hi; k += 2
        if force is not None:
            ks = [x for x in env if not (mod and x == 'a1')]
            if ks: env[rnd.choice(ks)] = force
        if env not in out: out.append(env)
    for r in range(140 if common.THOROUGH else 28): one(r)
    if mod:
        for m in [1, 1, 3] + [x for x in extra if 0 < x < 2 ** 32][:12]: one(1, m0=m)
    for x in extra[:24]: one(1, force=x)
    return out


FR = ['', '0', '00', '5', '50', '25', '05', '10', '000', '500', '005', '00000', '1234567']


def tup(i, fr):
    v = len(fr); st_ = fr.rstrip('0')
    f = int(fr) if fr else 0; t = int(st_) if st_ else 0
    return (i + (f / 10 ** v if v else 0) if f else i, i, v, len(st_), f, t)


def tuples(op, env, mod):
    lits = sorted(set(env.values()))
    m = env.get('a1') if mod else None
    xs = {0, 1, 2, 7, 13}
    for l in lits:
        for d in (-1, 0, 1):
            x = l + d
            if x >= 0:
                xs.add(x)
                if m: xs |= {x + m, x + 10 * m}
    out = set()
    if op in 'ni':
        for x in xs:
            for fr in FR: out.add(tup(x, fr))
    elif op in 'ft':
        for x in xs:
            for fr in (str(x), str(x) + '0', '0' + str(x)):
                out.add(tup(0, fr)); out.add(tup(3, fr))
        for fr in FR: out.add(tup(1, fr))
    else:
        for x in xs:
            if x > 130: continue
            for fr in ('0' * x, '1' * x, ('1' * (x - 1) + '0') if x else '', '0' * max(0, x - 1) + '1' if x else ''): out.add(tup(1, fr))
    return sorted(out)


def leaf_for(dag, env):
    n = dag
    while not n.is_leaf: n = n.t if gencode.aev(n.atom, env) else n.f
    return n


def show_tuple(po): return 'n=%s i=%s v=%s w=%s f=%s t=%s' % po


def body_of(leaf, table='PRS_CARDINAL'):
    if leaf.val[0] != 'X' or leaf.val[1] != 'toktext': raise Odd('result is not the text of a token stream')
    tb, ver = gencode.tables(gen.toks(leaf.val[2][0]))
    if len(tb.get(table, ())) != 1: raise Odd('table %s has %d entries' % (table, len(tb.get(table, ()))))
    return tb[table][0][1]


def bodies_of(leaf, table, n):
    if leaf.val[0] != 'X' or leaf.val[1] != 'toktext': raise Odd('result is not the text of a token stream')
    tb, ver = gencode.tables(gen.toks(leaf.val[2][0]))
    if len(tb.get(table, ())) != n: raise Odd('table %s has %d entries' % (table, len(tb.get(table, ()))))
    return [e[1] for e in tb[table]]


_g = None


def consts_in(dag):
    out = set()
    for n in dag_nodes(dag):
        if not n.is_leaf:
            for s in subterms(n.atom):
                if s[0] == 'I': out |= {s[1], s[1] + 1, max(0, s[1] - 1)}
    return sorted(x for x in out if x < 2 ** 34)


def do_shape(shape):
    """one relation shape: (shape, status, detail)"""
    global _g
    if _g is None: _g = gen.Gen()
    op, mod, oper, kinds = shape
    txt, nv = rel_text(op, mod, oper, kinds)
    pretty = txt
    for k in range(nv, 0, -1): pretty = pretty.replace(str(gen.BASE + k), ('M' if mod and k == 1 else 'a%d' % k))
    r = {'shape': pretty, 'status': 'ok', 'paths': 0, 'compared': 0}
    try:
        dag = _g.run([res(card={'xx': {'pluralRule-count-one': txt, 'pluralRule-count-other': ''}})], max_leaves=400)
    except RuntimeError as e:
        r.update(status='und', why=str(e)); return r
    r['paths'] = sum(1 for n in dag_nodes(dag) if n.is_leaf)
    cache = {}; mism = []; leg_ok = True; aborts = 0; und = None
    for env in envs(op, mod, kinds, nv, consts_in(dag)):
        try:
            lf = leaf_for(dag, env)
            if lf.kind == 'panic': aborts += 1; r['abort'] = lf.val; continue
            if lf.kind != 'ret': und = lf.val; continue
            if lf not in cache: cache[lf] = body_of(lf)
            code = gencode.fn(cache[lf], env)
        except Odd as e:
            und = str(e); continue
        sp = spec_rel(op, mod, oper, kinds, env)
        try: lg = legacy_rel(op, mod, oper, kinds, env)
        except IndexError: lg = None
        for po in tuples(op, env, mod):
            r['compared'] += 1
            got = code(*po) == 'ONE'; want = sp(*po)
            if got != want: mism.append((env, po, got, want))
            if lg is None or lg(*po) != got: leg_ok = False
    for lf, b in cache.items():
        r['template'] = gencode.text(gen.toks(lf.val[2][0]))[-160:]
        break
    if mism:
        env, po, got, want = mism[0]
        t = pretty
        r.update(status='known' if leg_ok else 'bad', cls=classes(*shape), witness='%s with %s at %s: generated code is %s, the relation is %s' % (t, ', '.join('%s=%d' % (('M' if mod and k == 'a1' else k), v) for k, v in sorted(env.items())), show_tuple(po), str(got).lower(), str(want).lower()))
    elif und is not None: r.update(status='und', why=str(und))
    elif aborts and 'within' in oper and 'r' not in kinds: r['status'] = 'abort'
    elif aborts: r.update(status='bad', cls=[], witness='%s aborts generation (%s)' % (pretty, r['abort']))
    r['calls'] = _g.calls; _g.calls = 0
    r['fns'] = sorted(k for k in _g.visited if k.startswith('make_pluralrules'))
    return r


def pool_map(f, xs):
    common.ensure_dump()
    n = min(8, os.cpu_count() or 1)
    with mp.Pool(n) as p: return p.map(f, xs, chunksize=8)


def c18(rep):
    shapes = [(o, m, p, k) for o in OPERANDS for m in (False, True) for p in OPERATORS for k in KINDS]
    listed = {k['class']: k for k in rep.kf if 'class' in k}
    rs = pool_map(do_shape, shapes)
    seen = {}; fns = set(); calls = 0; ab = 0
    for sh, r in zip(shapes, rs):
        fns |= set(r.get('fns', ())); calls += r.get('calls', 0)
        if r['status'] in ('ok', 'abort'):
            rep.ok(); ab += r['status'] == 'abort'
            if r['status'] == 'ok' and len(rep.samples) < 6 and sh[3] in ('rv', 'r') and sh[2] in ('=', '!='): rep.samples.append({'relation': r['shape'], 'template': r.get('template'), 'comparisons': r['compared']})
        elif r['status'] == 'und': rep.open('%s: %s' % (r['shape'], r['why']))
        else:
            cls = [c for c in r['cls'] if c in listed]
            if r['status'] == 'known' and cls and set(r['cls']) <= set(listed):
                rep.obl += 1
                for c in cls: seen.setdefault(c, r)
            else:
                rep.bad(); rep.violation('generated code of relation ' + r['witness'], 'make_pluralrules/src/parser/gen_pr.rs', shape=r['shape'], template=r.get('template'))
    for c, r in seen.items(): rep.known(c, '%s: e.g. %s' % (listed[c]['what'], r['witness']))
    if not any(r['status'] in ('ok', 'known', 'bad', 'abort') for r in rs): rep.undecided('no relation could be analysed')
    rep.cov.update({'relation_shapes': len(shapes), 'shapes_that_abort': ab, 'functions': sorted(fns), 'call_sites': calls, 'comparisons': sum(r['compared'] for r in rs),
                    'explanation': 'for every operand, operator, with and without modulus and every list of up to three values and ranges (plus longer ones up to thirteen), generate_rs is interpreted over MIR with symbolic literals; the emitted token template is read as an expression and compared with the UTS #35 meaning on the order classes of literals and operands. Every literal reaches the output unchanged as a symbolic token or its transformation is part of the compared expression.'})
    rep.assumptions += ['token streams are read as Rust expressions with Rust precedence; "L . 0" is the float literal rustfmt makes of it', 'lists longer than thirteen items behave like shorter ones']


# ---------------------------------------------------------------- C19
SAFE = ['i = A', 'v = A', 'v != A', 'i != A', 'i = A,B', 'i != A,B', 'i % M = A', 'i % M != A..B', 'i % M = A..B,C', 'f = A', 'f % M = A..B', 't != A', 'w = A', 'n = A', 'n = A,B', 'n != A', 'n = A..B',
        'n = A,B..C', 'n within A..B', 'i in A..B', 'i not in A..B,C', 'i is A', 'v is not A', 'i mod M is not A', 'i = A..B,C..D']
CATS = ['zero', 'one', 'two', 'few', 'many']
STRUCT = [(1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (2, 2), (1, 1, 1), (3, 1), (2, 2, 2), (4,), (1, 3, 2), (1, 1, 1, 1)]
DEEP = [(5,), (6,), (8,), (11,), (1, 5), (5, 1), (2, 7, 1), (1,) * 5, (1,) * 6, (1,) * 8, (1,) * 12, (5, 5), (1, 2, 3, 4, 5), (6, 1, 1, 1, 1, 1, 2)]


class Lits:
    def __init__(self): self.n = 0; self.kind = {}

    def new(self, kind): self.n += 1; self.kind['a%d' % self.n] = kind; return str(gen.BASE + self.n)


def inst_rel(tmpl, L):
    op = tmpl[0]
    mod = '%' in tmpl or 'mod' in tmpl
    out = []; last = None
    for w in tmpl.replace('..', ' .. ').replace(',', ' , ').split(' '):
        if w == 'M': out.append(L.new(('mod',)))
        elif w in ('A', 'B', 'C', 'D'):
            after = out and out[-1] == '..'
            out.append(L.new(('lit', op, mod, last if after else None))); last = 'a%d' % L.n
        else: out.append(w)
    return ' '.join(out).replace(' .. ', '..').replace(' , ', ', ')


def assign(L, rnd):
    env = {}; m = None
    for a in sorted(L.kind, key=lambda x: int(x[1:])):
        k = L.kind[a]
        if k[0] == 'mod': m = rnd.choice([2, 5, 10, 10, 100]); env[a] = m; continue
        _, op, mod, lo = k
        hi = min(m, 12) if mod else 4 if op in 'vw' else 6
        if lo: env[a] = env[lo] + rnd.randrange(0, 3)
        else: env[a] = rnd.randrange(0, hi)
    return env


def fill(txt, env):
    for a in sorted(env, key=lambda x: -int(x[1:])): txt = txt.replace(str(gen.BASE + int(a[1:])), str(env[a]))
    return txt


GRID = [tup(i, fr) for i in list(range(0, 14)) + [20, 21, 22, 100, 101, 102, 103, 111, 1000000] for fr in ('', '0', '1', '2', '3', '10', '20', '50', '03', '100', '11', '1234')]


def spec_cond(txt):
    import cells
    ors = cells.parse_rule(txt)

    def f(*po):
        for ands in ors:
            ok = True
            for op, mod, neg, rs, within in ands:
                x = po['nivwft'.index(op)]
                if mod: x = x % mod
                hit = any(lo <= x <= hi for lo, hi in rs) and (within or x == int(x))
                if hit == neg: ok = False; break
            if ok: return True
        return False
    return f


LOCS = ['xx', 'pt-PT', 'zh-Hant', 'haw', 'es-419', 'sr-Latn-RS', 'en']


def do_rules(job):
    """rule sets of one or more locales: job = (name, [(locale, {key suffix: text})] in identifier order, literals, table, seed)"""
    global _g
    if _g is None: _g = gen.Gen()
    name, sets, L, table, nenv = job
    r = {'name': name, 'status': 'ok', 'compared': 0, 'n': 0}
    data = {loc: {'pluralRule-count-' + c: t for c, t in rules.items()} for loc, rules in sets}
    try: dag = _g.run([res(card=data) if table == 'PRS_CARDINAL' else res(ordi=data)], max_leaves=2000)
    except RuntimeError as e: r.update(status='und', why=str(e)); return r
    rnd = random.Random(name); cache = {}; und = None
    for _ in range(nenv * (4 if common.THOROUGH else 1)):
        env = assign(L, rnd)
        try:
            lf = leaf_for(dag, env)
            if lf.kind == 'panic': und = und or 'aborts: %s' % lf.val; r['abort'] = lf.val; continue
            if lf.kind != 'ret': und = lf.val; continue
            if lf not in cache: cache[lf] = bodies_of(lf, table, len(sets))
            codes = [gencode.fn(b, env) for b in cache[lf]]
        except Odd as e: und = str(e); continue
        r['n'] += 1
        for code, (loc, rules) in zip(codes, sets):
            conds = {c.upper(): spec_cond(fill(t, env)) for c, t in rules.items() if c != 'other'}
            for po in GRID:
                r['compared'] += 1
                got = code(*po)
                sat = [c for c, f in conds.items() if f(*po)]
                bad = (got not in sat) if sat else got != 'OTHER'
                if bad and 'witness' not in r:
                    r['status'] = 'bad'
                    r['witness'] = 'rules of %s {%s} at %s: the generated function returns %s, but %s' % (loc, '; '.join('%s: %s' % (c, fill(t, env)[:200]) for c, t in rules.items()), show_tuple(po), got, ('only %s holds' % ', '.join(sat)) if sat else 'no condition holds')
        if r['status'] == 'bad': break
    if r['status'] == 'ok' and und is not None: r.update(status='und', why=str(und))
    return r


def rule_jobs():
    jobs = []
    rnd = random.Random(7)
    for s in STRUCT + DEEP:
        for k in range((14 if s in STRUCT else 4) * (4 if common.THOROUGH else 1)):
            L = Lits()
            txt = ' or '.join(' and '.join(inst_rel(rnd.choice(SAFE), L) for _ in range(a)) for a in s)
            jobs.append(('struct %s #%d' % (s, k), {'one': txt + ('' if k % 3 else ' @integer 1, 2~4, … @decimal 1.0'), 'other': ' @integer 0'}, L, 'PRS_CARDINAL' if k % 4 else 'PRS_ORDINAL', 8))
    for t in SAFE:                       # every relation next to and-neighbours on both sides and inside or
        for pat in ('%s and v = A', 'v = A and %s', 'i = A or %s', '%s or i = A', 'f = A and %s and i != B', 'i = A or %s and v = A or t = B'):
            L = Lits(); parts = pat.split('%s')
            txt = (inst_all(parts[0], L) + inst_rel(t, L) + inst_all(parts[1], L))
            jobs.append(('context %s in %s' % (t, pat), {'few': txt}, L, 'PRS_CARDINAL', 8))
    done = set(SAFE)
    for o in ('i', 'i % M', 'f', 'f mod M', 'n'):   # every operator and list form in a neighbourhood
        for op in ('=', '!=', 'in', 'not in', 'is', 'is not', 'within'):
            for k in ('A', 'A..B', 'A,B', 'A,B..C', 'A..B,C', 'A..B,C..D', 'A,B,C', 'A,B..C,D'):
                t = '%s %s %s' % (o, op, k)
                if t in done or (op == 'within' and k != 'A..B') or (o == 'n' and op in ('!=', 'not in', 'is not') and '..' in k): continue
                for pat in ('v = A and %s', '%s and w = A', 'w = A or %s and t = A'):
                    L = Lits(); parts = pat.split('%s')
                    jobs.append(('context %s in %s' % (t, pat), {'many': inst_all(parts[0], L) + inst_rel(t, L) + inst_all(parts[1], L)}, L, 'PRS_ORDINAL', 8))
    for n in range(0, 6):
        for sub in itertools.combinations(CATS, n):
            for o in (None, '', ' @integer 0~9', 'n = 1'):
                L = Lits()
                rules = {c: inst_rel(['i = A', 'f = A', 'v = A and', 'n = A..B', 't = A'][j % 5].replace(' and', ''), L) for j, c in enumerate(sub)}
                if o is not None: rules['other'] = o
                jobs.append(('categories %s other=%r' % (','.join(sub) or 'none', o), rules, L, 'PRS_CARDINAL' if len(sub) % 2 else 'PRS_ORDINAL', 4))
    long = ' @integer ' + ', '.join(str(x) for x in range(3, 900, 3)) + ', … @decimal ' + ', '.join('%d.0' % x for x in range(3, 400)) + ', …'
    for c in CATS + ['other']:
        L = Lits(); rules = {c: (inst_rel('i = A', L) if c != 'other' else '') + long}
        if c != 'other': rules['other'] = long
        jobs.append(('long samples of ' + c, rules, L, 'PRS_CARDINAL', 3))
    out = []
    for k, (name, rules, L, table, nenv) in enumerate(jobs):
        out.append((name, [(LOCS[k % len(LOCS)], rules)], L, table, nenv))
    # several locales in one table: every set of categories, also sets without any condition, next to each other
    forms = ['i = A', 'f = A', 'v = A and i != B', 'n = A..B', 't = A or i % M = B', 'w = A']
    for k in range(240 if common.THOROUGH else 60):
        L = Lits(); sets = []
        for loc in [['de', 'en', 'fr'], ['aa', 'ab', 'ac', 'ad', 'ae', 'af'], ['pt', 'pt-PT', 'zh'], ['az', 'az-AZ', 'az-Latn', 'az-Latn-AZ']][k % 4]:
            sub = [c for c in CATS if rnd.random() < .5]
            rules = {c: inst_all(rnd.choice(forms), L) for c in sub}
            if rnd.random() < .7: rules['other'] = rnd.choice(['', ' @integer 0~9'])
            sets.append((loc, rules))
        out.append(('%d locales #%d' % (len(sets), k), sets, L, ('PRS_CARDINAL', 'PRS_ORDINAL')[k // 4 % 2], 3))
    # conditions that share long beginnings, long endings or their length, within one locale and across locales
    for k in range(48 if common.THOROUGH else 16):
        L = Lits(); n = (1, 2, 4, 8)[k % 4]
        common_ = ' or '.join(inst_all(rnd.choice(['v = A and i % M != B', 'w = A and f = B', 'f = A and i != B', 'i % M = A and v != B']), L) for _ in range(n))
        def variant():
            own = inst_all(rnd.choice(['t = A', 'i = A', 'f = A', 'w = A']), L)
            return common_ + ' or ' + own if k // 4 % 2 == 0 else own + ' or ' + common_
        smp = ' @integer 1, 2~4, …' if k // 8 % 2 else ''
        sets = [(loc, {c: variant() + smp for c in (('one', 'few') if k % 3 else ('two',))}) for loc in ('de', 'en', 'fr')]
        out.append(('shared %s #%d' % ('beginning' if k // 4 % 2 == 0 else 'ending', k), sets, L, ('PRS_CARDINAL', 'PRS_ORDINAL')[k // 2 % 2], 3))
    # conjunctions that repeat an operand and operator with other moduli, and longer lists
    for k in range(96 if common.THOROUGH else 40):
        L = Lits(); o = ('i', 'f', 'v', 't', 'w')[k % 5]; op = ('=', '!=', 'in', 'not in')[k % 4]
        n = 2 + k % 3
        txt = ' and '.join(inst_rel('%s%s %s %s' % (o, ' % M' if (j + k // 3) % 3 else '', op, rnd.choice(['A', 'A..B', 'A,B', 'A,B,C,D', 'A..B,C,D..B,A'])), L) for j in range(n))
        out.append(('repeated operand #%d' % k, [(LOCS[k % len(LOCS)], {CATS[k % 5]: txt})], L, ('PRS_CARDINAL', 'PRS_ORDINAL')[k % 2], 8))
    for k in range(8):
        L = Lits(); n = 4 + k % 5
        txt = '%s %s %s' % (('i', 'f % 100', 'i % 10', 'v')[k % 4], ('=', '!=')[k // 4], ','.join('%d..%d' % (3 * j, 3 * j + 1) if (j + k) % 3 == 0 and k % 4 != 3 else str(3 * j) for j in range(n)))
        out.append(('list of %d items #%d' % (n, k), [(LOCS[k % len(LOCS)], {CATS[k % 5]: txt})], L, 'PRS_CARDINAL', 1))
    return out


def inst_all(s, L):
    import re
    out = re.split(r'( and | or )', s)
    return ''.join(x if x in (' and ', ' or ', '') else inst_rel(x, L) for x in out)


def c19(rep):
    jobs = rule_jobs()
    rs = pool_map(do_rules, jobs)
    for j, r in zip(jobs, rs):
        if r['status'] == 'ok': rep.ok()
        elif r['status'] == 'und': rep.open('%s: %s' % (r['name'], r['why']))
        else: rep.bad(); rep.violation('%s: %s' % (r['name'], r['witness']), 'make_pluralrules generate_rs')
    if not any(r['n'] for r in rs): rep.undecided('no rule set could be analysed')
    rep.samples += [{'rules': j[1], 'table': j[3], 'comparisons': r['compared']} for j, r in list(zip(jobs, rs))[::97]]
    rep.cov.update({'rule_sets': len(jobs), 'comparisons': sum(r['compared'] for r in rs), 'functions': sorted(k for k in (gen.Gen().p.bodies) if k.startswith('make_pluralrules::')),
                    'explanation': 'generate_rs is interpreted over MIR for rule sets with symbolic literals: every and/or structure of up to four alternatives and deeper ones up to twelve, every relation form next to and/or neighbours, every subset of categories with and without an OTHER entry; the emitted if-chain is read back as a function and compared with the source conditions.'})
    rep.assumptions += ['relations of the forms listed as known findings of C18 are left out', 'a category whose conditions overlap may be tested in any order']


# ---------------------------------------------------------------- C20, C21: symbolic names and versions
class Cannot(Exception): pass


def sev(t, env):
    """value of a term over symbolic strings; engine value"""
    k = t[0]
    if k in ('I', 'B', 'C', 'S', 'F'): return t
    if k == 'V':
        if t[1] in env: return ('S', env[t[1]]) if isinstance(env[t[1]], str) else env[t[1]]
        raise Cannot(t[1])
    if k == 'R': return sev(t[1], env)
    if k == 'A': return ('A', t[1], t[2], tuple(sev(x, env) for x in t[3]))
    if k in ('T', 'L'): return (k, tuple(sev(x, env) for x in t[1]))
    if k == 'X':
        op, a = t[1], t[2]
        if op == 'Not': return mkbool(not sev(a[0], env)[1])
        if op == 'BitAnd' and t[3] == 'bool': return mkbool(sev(a[0], env)[1] and sev(a[1], env)[1])
        if op == 'BitOr' and t[3] == 'bool': return mkbool(sev(a[0], env)[1] or sev(a[1], env)[1])
        if op == 'Eq': return mkbool(sev(a[0], env) == sev(a[1], env))
        if op == 'is':
            v = sev(a[0], env)
            if v[0] == 'A': return mkbool(v[2] == a[1])
            raise Cannot('is')
        if op == 'parse':
            s = sev(a[0], env)
            if a[1] == gen.LI:
                r = gen.parse_id(s[1]); return Ok(r) if r else Err(UNIT)
            r = gen.rust_int(s[1], a[1])
            if a[1] in INT_BITS or a[1] in ('usize', 'isize'): return Ok(('I', r, a[1])) if r is not None else Err(UNIT)
        if op == 'fld':
            v = sev(a[0], env)
            if v[0] == 'A' and (not a[2] or v[2] == a[2]) and a[1] < len(v[3]): return v[3][a[1]]
            raise Cannot('fld')
        if op == 'raw':
            v = sev(a[0], env); i = ('language', 'script', 'region', 'variants').index(a[1])
            o = v[3][i]
            if i == 3: return o
            return Some(('I', gen.raw(o[3][0][1], 8 if i == 0 else 4), 'u64')) if o[3] else NONE
        if op == 'cmp':
            r = gen.cmp3(None, None, sev(a[0], env), sev(a[1], env))
            if r is not None: return adt(ORD, ('Less', 'Equal', 'Greater')[r + 1])
        if op == 'cast':
            v = sev(a[0], env); b = INT_BITS.get(a[2], 64); x = v[1] & ((1 << b) - 1)
            if a[2][0] == 'i' and x >> (b - 1): x -= 1 << b
            return ('I', x, a[2])
        if op.startswith('str.'):
            xs = [sev(x, env) for x in a]
            r = gen.conc_str(None, None, op[4:], xs[0][1], list(xs[1:]))
            if r is not None: return r[1] if r[0] == 'R' else r
        if op in ('Lt', 'Le'):
            x, y = sev(a[0], env), sev(a[1], env)
            if x[0] == y[0]: return mkbool(x[1] < y[1] if op == 'Lt' else x[1] <= y[1])
        if op == 'len':
            x = sev(a[0], env)
            if x[0] == 'S': return I(len(x[1].encode()))
    raise Cannot(show(t)[:60])


def walk_dag(dag, env):
    n = dag
    while not n.is_leaf: n = n.t if sev(n.atom, env)[1] else n.f
    return n


def conc(v, env):
    return sev(v, env)


KEYS = ['root', 'en', 'pt', 'pt-PT', 'PT-br', 'pt_PT', 'zh-Hant', 'zh-HK', 'zh-Hant-TW', 'fil', 'ars', 'en-GB', 'en_US', 'sr-Latn-RS', 'es-419', 'roots', 'rootish', 'roo', 'EN', 'de', 'zz', 'sr-Latn', 'aa-ZZ', 'tlh']
BADKEYS = ['', 'a', 'bad locale!', 'en-', 'en--US', 'Root', 'ROOT', '1x', 'en-toolongsubtag']


MANY = ('af ak am an ar ars az-Cyrl az-Latn-AZ bs-Cyrl ca-ES-valencia'.split()[:9] + 'da de de-AT de-CH dsb ee el en en-AU en-Shaw eo es es-419 es-MX et fa-AF fil fr fr-CA iw ji pa-Arab pa-Guru-IN pt pt-PT sh sr-Cyrl-BA '
       'sr-Latn-ME tl uz-Arab vec yue yue-Hans zgh zh zh-Hans-SG zh-Hant-HK zh-TW'.split())


def expect_entries(keys):
    """[(id parts, rule number)] in required order (ties free), or None when generation must abort"""
    out = []
    for j, k in enumerate(keys):
        if k == 'root': continue
        i = gen.parse_id(k)
        if i is None: return None
        out.append((i, 101 + j))
    return out


def idparts(i):
    n = lambda o, b: gen.raw(o[3][0][1], b) if o[3] else None
    return (n(i[3][0], 8), n(i[3][1], 4), n(i[3][2], 4))


def idkey(i): return tuple((1, o[3][0][1].encode()) if o[3] else (0,) for o in i[3][:3])


def got_entries(tb, env, lo, hi):
    out = []
    for parts, body in tb:
        names = ('Language', 'Script', 'Region'); raws = []
        if len(parts) != 4 or parts[3] is not None: raise Odd('identifier with %d parts' % len(parts))
        for j, p in enumerate(parts[:3]):
            if p is None: raws.append(None); continue
            kind, term, some = p
            if kind != names[j]: return 'a %s subtag is emitted as the %s' % (kind.lower(), names[j].lower())
            if some != (j > 0): raise Odd('optional subtag')
            raws.append(conc(term, env)[1])
        f = gencode.fn(body, {})
        hits = [x for x in range(lo, hi) if f(x, x, 0, 0, 0, 0) == 'ONE']
        out.append((tuple(raws), hits))
    return out


def cmp_tables(tb, name, want, env):
    """None or a description of the difference; want: [(id, number)]"""
    ents = got_entries(tb.get(name, []), env, 100, 160)
    if isinstance(ents, str): return ents
    label = {idparts(i): gen.id_text(i) for i, _ in want}
    lab = lambda r: label.get(r) or '-'.join(x.to_bytes(8, 'little').rstrip(b'\0').decode('latin1') if x else '?' for x in r if x is not None)
    exp = [(idparts(i), (n,)) for i, n in want]
    # two spellings of one identifier: one entry with the rules of either is enough
    many = {i for i, _ in exp if len({e for e in exp if e[0] == i}) > 1 or exp.count((i, _)) > 1}
    have = [(r, tuple(h)) for r, h in ents]
    miss = [e for e in exp if (not any(h in exp and h[0] == e[0] for h in have) if e[0] in many else have.count(e) < exp.count(e))]
    extra = [(r, tuple(h)) for r, h in ents if (r, tuple(h)) not in exp]
    if miss and extra:
        if miss[0][0] in [e[0] for e in extra]: return 'the entry of %s applies the rules of another locale' % lab(miss[0][0])
        return 'the entry of %s has the identifier %s' % (lab(miss[0][0]), lab(extra[0][0]))
    if miss: return 'no entry for %s' % lab(miss[0][0])
    if extra: return 'an entry for %s that the source does not have' % lab(extra[0][0])
    if len(ents) > len(exp) or len([h for h in have if h[0] not in many]) != len([e for e in exp if e[0] not in many]): return '%d entries for %d locales' % (len(ents), len(exp))
    order = {idparts(i): idkey(i) for i, _ in want}
    ks = [order[r] for r, _ in ents]
    for a, b, (r1, _), (r2, _) in zip(ks, ks[1:], ents, ents[1:]):
        if a > b: return 'entry %s is placed before %s, which is out of language identifier order' % (lab(r1), lab(r2))
    return None


def keyed(names, base=101): return [(n, {'pluralRule-count-one': 'i = %d' % (base + j), 'pluralRule-count-other': ''}) for j, n in enumerate(names)]


def do_keys(job):
    """one list of locale names, on the shared symbolic DAG or, failing that, interpreted with the names as constants"""
    global _g
    if _g is None: _g = gen.Gen()
    table, keys, rev = job
    n = len(keys)
    kw = dict(hash_rev=rev)
    want = expect_entries(keys)
    r = {'keys': keys, 'table': table, 'status': 'ok', 'how': 'symbolic'}
    try:
        ck = (table, n, rev)
        if n <= 2:
            if ck not in _dags:
                j = keyed([V('k%d' % i, 'str') for i in range(n)])
                _dags[ck] = _g.run([res(card=j) if table == 'PRS_CARDINAL' else res(ordi=j)], **kw)
            env = {'k%d' % i: k for i, k in enumerate(keys)}
            try:
                lf = walk_dag(_dags[ck], env)
                if lf.kind == 'undecided': raise Cannot(lf.val)
            except Cannot: lf = None
        else: lf = None
        if lf is None:
            r['how'] = 'constant names'; env = {}
            j = dict(keyed(keys))
            lf = _g.run([res(card=j) if table == 'PRS_CARDINAL' else res(ordi=j)], **kw)
            if not lf.is_leaf: r.update(status='und', why='branches on constants'); return r
        if lf.kind == 'panic':
            if want is not None: r.update(status='bad', what='generation aborts on the locales %s (%s)' % (', '.join(keys), lf.val))
            return r
        if lf.kind != 'ret': r.update(status='und', why=lf.val); return r
        if want is None:
            r.update(status='badabort', what='an unparsable locale among %s does not abort generation' % (keys,)); return r
        if lf.val[0] != 'X' or lf.val[1] != 'toktext': raise Odd('result is not the text of a token stream')
        tb, ver = gencode.tables(gen.toks(lf.val[2][0]))
        d = cmp_tables(tb, table, want, env)
        if table not in tb: d = 'there is no table ' + table
        if d: r.update(status='bad', what='locales %s: %s' % (', '.join(keys), d))
        other = 'PRS_ORDINAL' if table == 'PRS_CARDINAL' else 'PRS_CARDINAL'
        if tb.get(other): r.update(status='bad', what='%s data reaches the table %s' % (table[4:].lower(), other))
    except (Odd, Cannot, RuntimeError) as e: r.update(status='und', why=str(e))
    return r


_dags = {}


def key_jobs(bad=False):
    jobs = []
    pool = KEYS + (BADKEYS if bad else [])
    srt = lambda ks: tuple(sorted(ks, key=lambda x: x.encode()))
    for t in ('PRS_CARDINAL', 'PRS_ORDINAL'):
        jobs.append((t, (), False))
        for k in pool: jobs.append((t, (k,), False))
        for a, b in itertools.combinations(pool, 2): jobs.append((t, srt((a, b)), False))
        rnd = random.Random(t)
        for n in (3, 4, 5, 8, 12):
            for _ in range(60 if common.THOROUGH else 10):
                ks = rnd.sample(KEYS, n)
                if bad and rnd.random() < .3: ks.append(rnd.choice(BADKEYS))
                jobs.append((t, srt(ks), False))
        if not bad:
            jobs.append((t, srt(MANY), False)); jobs.append((t, srt(MANY[::2] + ['root']), False)); jobs.append((t, srt(MANY[1::3]), False))
    return jobs


def spans(g, *names):
    for n in names:
        b = g.p.bodies.get('make_pluralrules::' + n)
        if b: return b.span
    return 'make_pluralrules/src/lib.rs'


def c20(rep):
    g = gen.Gen()
    jobs = key_jobs()
    rs = pool_map(do_keys, jobs)
    where = spans(g, 'gen_type_rs', 'generate_rs'); n = 0
    for r in rs:
        if r['status'] == 'ok': rep.ok(); n += 1
        elif r['status'] == 'und': rep.open('%s: %s' % (', '.join(r['keys']), r['why']))
        elif r['status'] == 'bad': rep.bad(); rep.violation(r['what'], where, locales=r['keys'])
        else: rep.ok()
    if not any(r['status'] in ('ok', 'bad') for r in rs): rep.undecided('no table could be analysed')
    # both types, in one file or two, in both orders; version symbolic
    c, o = dict(keyed(['pt', 'en', 'root', 'zh-Hant'])), dict(keyed(['fr', 'en', 'root'], 121))
    ver = V('ver', 'str')
    for name, js in (('one file', lambda ver: [res(c, o, ver)]), ('cardinal first', lambda ver: [res(c, None, ver), res(None, o, ver)]), ('ordinal first', lambda ver: [res(None, o, ver), res(c, None, ver)]),
                     ('after many files without rules', lambda ver: [res(None, None, ver)] * 15 + [res(c, None, ver)] + [res(None, None, ver)] * 17 + [res(None, o, ver)]),
                     ('with a file without rules', lambda ver: [res(None, None, ver), res(c, None, ver), res(None, o, ver)]), ('with revision numbers', lambda ver: [res(c, None, ver, '99'), res(None, o, ver, '98')]), ('only cardinal', lambda ver: [res(c, None, ver)]), ('only ordinal', lambda ver: [res(None, o, ver)]),
                     ('ordinal data of root only', lambda ver: [res(c, dict(keyed(['root'])), ver)]), ('cardinal data of root only', lambda ver: [res(dict(keyed(['root'])), o, ver)])):
        dag = g.run(js(ver))
        for vs in ('37', '38', '0', '1', '100', '12345') + (('36.1', '37.0.2') if name == 'one file' else ()):
            try:
                env = {'ver': vs}
                try:
                    lf = walk_dag(dag, env)
                    if lf.kind == 'undecided': raise Cannot(lf.val)
                except Cannot:
                    env = {}; lf = g.run(js(vs))
                    if not lf.is_leaf: raise
                if lf.kind != 'ret':
                    if lf.kind == 'panic' and '.' in vs: rep.ok()
                    elif lf.kind == 'panic': rep.bad(); rep.violation('%s, version %s: generation aborts (%s)' % (name, vs, lf.val), where)
                    else: rep.open('%s: %s' % (name, lf.val))
                    continue
                tb, vt = gencode.tables(gen.toks(lf.val[2][0]))
                if vt is None: rep.open('%s: version constant' % name)
                else:
                    v = conc(vt, env)
                    if v[1] != int(vs.split('.')[0]): rep.bad(); rep.violation('the generated version constant is %s for inputs of version %s' % (v[1], vs), spans(g, 'parser::gen_rs::gen_fn', 'generate_rs'))
                    else: rep.ok()
                for tn, ks, base, has in (('PRS_CARDINAL', ['pt', 'en', 'zh-Hant'], [101, 102, 104], name not in ('only ordinal', 'cardinal data of root only')), ('PRS_ORDINAL', ['fr', 'en'], [121, 122], name not in ('only cardinal', 'ordinal data of root only'))):
                    d = cmp_tables(tb, tn, list(zip(map(gen.parse_id, ks), base)) if has else [], env)
                    if d: rep.bad(); rep.violation('%s: %s: %s' % (name, tn, d), where)
                    else: rep.ok()
            except (Odd, Cannot, KeyError, IndexError, RuntimeError) as e:
                if isinstance(e, Odd) and 'defined twice' in str(e): rep.bad(); rep.violation('%s: %s' % (name, e), where)
                else: rep.open('%s: %s' % (name, e))
    rep.samples += [{'locales': r['keys'], 'how': r['how']} for r in rs[30::211]]
    rep.cov.update({'locale_lists': len(jobs), 'decided_symbolically': sum(r['how'] == 'symbolic' for r in rs), 'functions': sorted(k for k in g.visited if k.startswith('make_pluralrules')),
                    'explanation': 'generate_rs interpreted over MIR with symbolic locale names (one and two locales: all outcomes of the name tests, identifier parsing, identifier ordering and optional subtags form one decision graph), read on every pair of a pool of names, and with longer lists of constant names; version symbolic; both rule types in every file arrangement.'})
    rep.assumptions += ['locales with variant subtags and the undetermined language are outside the claim (the generator documents no support for variants)', 'BTreeMap iterates in key order; sort functions sort by the given comparator']


# ---------------------------------------------------------------- C21
def contents(): return {'C': (dict(keyed(['en'])), None), 'O': (None, dict(keyed(['en'], 121))), 'B': (dict(keyed(['en'])), dict(keyed(['en'], 121))), 'N': (None, None), 'E': ({}, None)}


def do_inputs(job):
    global _g
    if _g is None: _g = gen.Gen()
    kinds, num = job
    ct = contents(); out = []
    num = (lambda i: None) if not num else (lambda i: str(70 + i)) if num == 1 else (lambda i: '70')
    js = [res(*ct[k], version=V('v%d' % i, 'str'), number=num(i)) for i, k in enumerate(kinds)]
    dag = _g.run(js)
    n = len(kinds)
    for vs in itertools.product(('37', '36', '370') if n < 4 else ('37', '36'), repeat=n) if n < 8 else [('37',) * k + (odd,) + ('37',) * (n - 1 - k) for k, odd in ((0, '37'), (0, '36'), (n // 2, '36'), (n - 1, '36'), (n - 1, '370'))]:
        want = None
        if len(set(vs)) > 1: want = 'the inputs disagree on the CLDR version'
        elif sum(k in 'CBE' for k in kinds) > 1 or sum(k in 'OB' for k in kinds) > 1: want = 'two inputs supply the same rule type'
        elif all(k == 'N' for k in kinds): want = 'no input supplies rules'
        what = 'inputs %s of versions %s' % (' + '.join({'C': 'cardinal', 'O': 'ordinal', 'B': 'both', 'N': 'neither', 'E': 'empty cardinal'}[k] for k in kinds) or 'none', ', '.join(vs))
        try:
            env = {'v%d' % i: v for i, v in enumerate(vs)}
            try:
                lf = walk_dag(dag, env)
                if lf.kind == 'undecided': raise Cannot(lf.val)
            except Cannot:
                lf = _g.run([res(*ct[k], version=vs[i], number=num(i)) for i, k in enumerate(kinds)])
                if not lf.is_leaf: raise
            if lf.kind == 'undecided': out.append(('und', '%s: %s' % (what, lf.val)))
            elif want and lf.kind != 'panic': out.append(('bad', '%s: generation succeeds although %s' % (what, want)))
            elif not want and lf.kind == 'panic': out.append(('bad', '%s: generation aborts on valid inputs (%s)' % (what, lf.val)))
            else: out.append(('ok', what))
        except (Cannot, RuntimeError) as e: out.append(('und', '%s: %s' % (what, e)))
    return out


def do_bad(job):
    global _g
    if _g is None: _g = gen.Gen()
    what, js = job
    try: dag = _g.run(js)
    except RuntimeError as e: return [('und', '%s: %s' % (what, e))]
    out = []
    for n in dag_nodes(dag):
        if not n.is_leaf: continue
        if n.kind == 'ret': out.append(('bad', '%s does not abort generation' % what))
        elif n.kind == 'undecided': out.append(('und', '%s: %s' % (what, n.val)))
        elif n.kind == 'panic': out.append(('ok', what))
    return out


def bad_jobs():
    good = dict(keyed(['en', 'fr'])); ver = {'_unicodeVersion': '13', '_cldrVersion': '37'}
    bads = [('text that is not JSON', gen.Bad), ('JSON followed by further text', gen.Trail({'supplemental': {'version': ver, 'plurals-type-ordinal': good}})), ('JSON without "supplemental"', {}), ('JSON whose "supplemental" is text', {'supplemental': 'x'}), ('JSON without a version', {'supplemental': {'plurals-type-ordinal': good}}),
            ('JSON without a CLDR version', {'supplemental': {'version': {'_unicodeVersion': '13'}, 'plurals-type-ordinal': good}}),
            ('a CLDR version that is a number', {'supplemental': {'version': {'_unicodeVersion': '13', '_cldrVersion': 37}, 'plurals-type-ordinal': good}}),
            ('rules that are an array', {'supplemental': {'version': ver, 'plurals-type-ordinal': 'x'}}),
            ('a rule that is a number', {'supplemental': {'version': ver, 'plurals-type-ordinal': {'en': {'pluralRule-count-one': 5}}}})]
    for t in ('plurals-type-cardinal', 'plurals-type-ordinal'):
        for c in ('zero', 'one', 'two', 'few', 'many', 'other'):
            for bc in ('i = ', 'q = 1', 'i = 1 and', 'i = 1 orr v = 2', 'i ~ 4', '1'):
                for pos in (0, 1, 2):
                    d = dict(good)
                    nm = ['aa', 'fa', 'zz'][pos]
                    d[nm] = {'pluralRule-count-' + c: bc, 'pluralRule-count-other': ''} if c != 'other' else {'pluralRule-count-other': bc, 'pluralRule-count-one': 'i = 1'}
                    bads.append(('the unparsable %s condition %r' % (c, bc), {'supplemental': {'version': ver, t: d}}))
    jobs = []
    for what, j in bads:
        jobs.append((what, [j]))
        if 'condition' not in what: jobs.append((what + ' after many valid inputs', [res(dict(good))] + [res(None, None)] * 16 + [j]))
        if 'condition' not in what or 'one condition' in what or 'other condition' in what:
            o = res(dict(good)) if j is gen.Bad or isinstance(j, gen.Trail) or 'plurals-type-ordinal' in j.get('supplemental', {}) or not isinstance(j, dict) or 'supplemental' not in j or not isinstance(j['supplemental'], dict) or 'plurals-type-cardinal' not in j['supplemental'] else res(None, dict(good))
            jobs.append((what + ' after a valid input', [o, j])); jobs.append((what + ' before a valid input', [j, o]))
    return jobs


def c21(rep):
    g = gen.Gen(); where = spans(g, 'generate_rs')
    jobs = [(''.join(k), num) for num in (0, 1, 2) for n in (range(6) if not num else (1, 2))
            for k in itertools.product('COBNE'[:5 if n < 3 else 4 if n == 3 else 5], repeat=n) if n < 4 or sum(x != 'N' for x in k) <= (2 if n == 4 else 1) + common.THOROUGH and 'E' not in k]
    for n in (8, 9, 12, 17, 33):         # many inputs, rules or a conflict early, late or last
        for k in ('C', 'O', 'B', 'CO', 'OC', 'CC', 'BO', 'OO', ''):
            for ks in {k + 'N' * (n - len(k)), 'N' * (n - len(k)) + k, k[:1] + 'N' * (n - len(k)) + k[1:]}: jobs.append((ks, 0))
    outs = pool_map(do_inputs, jobs) + pool_map(do_bad, bad_jobs())
    kj = [j for j in key_jobs(bad=True) if any(k in BADKEYS for k in j[1])]
    for r in pool_map(do_keys, kj):
        outs.append([({'badabort': 'bad', 'und': 'und'}.get(r['status'], 'ok'), r.get('what') or r.get('why') or 'locales ' + str(r['keys']))])
    n = 0
    for o in outs:
        for s, w in o:
            n += 1
            if s == 'ok': rep.ok()
            elif s == 'und': rep.open(w)
            else: rep.bad(); rep.violation(w, where)
    if rep.dis + len(rep.viol) == 0: rep.undecided('no input could be analysed')
    rep.samples += [{'inputs': o[0][1]} for o in outs[5::97] if o]
    rep.cov.update({'input_shapes': n, 'functions': sorted(k for k in g.p.bodies if k.startswith('make_pluralrules::') and g.p.bodies[k].local),
                    'explanation': 'generate_rs interpreted over MIR for every sequence of up to three inputs and sequences of four and five (cardinal, ordinal, both, neither, empty) with symbolic versions; invalid JSON shapes against the derived deserialisers (field names, required fields); unparsable conditions in every category and position; unparsable locale names. Every leaf of the decision graph must be the required abort or success.'})


# ---------------------------------------------------------------- C23
def c23(rep):
    import c_eff
    g = gen.Gen()
    out, nb, nc = c_eff.effects(g.p, rep, 'generator')
    out = [(w, t) for w, t in out if 'random hash seed' not in t]
    for w, t in out: rep.bad(); rep.violation(t, w)
    rep.ok(nb)
    hi = c_eff.hash_iteration(g.p)
    diff = None; und = None; n = 0
    ks = [['en', 'pt', 'fr', 'zz', 'root'], ['pt', 'pt-PT', 'sr-Latn', 'aa'], ['de'], ['en-US', 'en_US', 'EN-us'], ['root', 'sr-Latn', 'SR_latn']]
    for names in ks:
        j = dict(keyed(names))
        for d in j.values(): d.update({'pluralRule-count-two': 'v = 5', 'pluralRule-count-few': 'f = 3', 'pluralRule-count-many': 'i = 4,5'})
        rs = []
        for rev in (False, True):
            lf = g.run([res(dict(j), None), res(None, dict(j))], hash_rev=rev)
            if not lf.is_leaf or lf.kind == 'undecided': und = lf.val if lf.is_leaf else 'branches'; break
            rs.append((lf.kind, lf.val))
        n += 1
        if len(rs) == 2 and rs[0] != rs[1]: diff = names
    if diff:
        rep.bad(); rep.violation('the output depends on the iteration order of a hash collection (locales %s): %s' % (', '.join(diff), '; '.join(t for _, t in hi[:2]) or 'hash map in the decoded resource'), hi[0][0] if hi else spans(g, 'generate_rs'))
    elif und and hi: rep.open('hash collection iterated: %s' % und)
    elif und: rep.undecided('order comparison: %s' % und); rep.ok()
    else: rep.ok(n)
    if nb < 5: raise common.CheckError('too few bodies analysed')
    rep.samples.append({'hash_iterations': [t for _, t in hi][:5], 'orders_compared': n})
    rep.cov.update({'functions': nb, 'call_sites': nc, 'statics': len(g.p.statics), 'hash_iterations': len(hi),
                    'explanation': 'every call site of the generator library against a list of effectful paths (environment, clock, files, randomness, threads, addresses), every mutable or thread-local static, and every iteration over a hash collection: where one occurs, the emitted tokens are computed for two iteration orders and must agree.'})
