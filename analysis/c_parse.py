"""C14-C17: the rule parser."""
import itertools, re, random
import common
from engine import *
import models, nomp
from nomp import P, NV, V, PUA, POk
from models import strip

PC = 'cldr_pluralrules_parser::'
AST = PC + 'ast::'


class Parser:
    def __init__(self):
        import c_eff
        self.p = c_eff.load('cldr_pluralrules_parser')
        self.rule = self.find('parse_plural_rule'); self.cond = self.find('parse_plural_condition')
        self.dom = nomp.NomDom(); self.calls = 0; self.visited = set(); self.unknown = {}
        self.E = None

    def find(self, n):
        ks = [k for k in self.p.bodies if self.p.bodies[k].local and strip_generics(k).rstrip(':') == PC + n]
        if not ks: raise common.CheckError(n + ' not found')
        return ks[0]

    def engine(self, **kw):
        return Engine(self.p, models.M, self.dom, hook=nomp.hook, **dict(dict(max_steps=200000, max_leaves=20000), **kw))

    def run(self, key, arg, E=None):
        E = E or self.engine()
        r = E.run_fn(key, [('R', arg)])
        self.visited |= E.visited; self.calls += E.calls_seen
        for k, n in E.unknown_calls.items(): self.unknown[k] = self.unknown.get(k, 0) + n
        return r

    def mk(self, name, **fs):
        """value of an AST struct with the fields in declaration order"""
        a = self.p.adts.get(AST + name)
        if a is None: raise common.CheckError('type %s not found' % name)
        v = self.p.types[a['t']]['variants'][0]
        names = [f.get('name', f.get('n')) for f in v['fields']]
        if sorted(names) != sorted(fs): raise Undecided('fields of %s: %s' % (name, names))
        return ('A', AST + name, v['name'], tuple(fs[n] for n in names))

    def en(self, name, variant, *f): return ('A', AST + name, variant, tuple(f))


# ---------------------------------------------------------------- reference grammar (UTS #35, with the spacing the parser supports)
OPN = {'n': 'N', 'i': 'I', 'v': 'V', 'w': 'W', 'f': 'F', 't': 'T'}


def reference(S):
    D = S.dom; mk = S.mk; en = S.en
    py = D.pyfn
    def tag(s): return P('prim', ('S', 'tag'), ('S', s))
    def cls(s): return P('prim', ('S', s))
    def seq(*ps): return P('seq', ('L', ps), UNIT)
    def pick(i, *ps): return P('seq', ('L', ps), NV(i))
    def alt(*ps): return P('alt', ('L', ps))
    def opt(p): return P('opt', p)
    def mapp(p, f): return P('map', p, py(lambda E, st, *a: f(*[x for x in a])))
    def const(p, v): return P('value', p, v)
    def lst(elem, sep): return P('list', NV(1), NV(0), elem, sep)
    sp0, sp1 = cls('space0'), cls('space1')

    def parse(E, st, o):
        r = D.str_method(E, st, 'parse', strip(E, st, o), [], None, 'usize')
        wrap = lambda v: Ok(mk('Value', **{'0': v[3][0]})) if v[2] == 'Ok' else v
        if isinstance(r, Fork): return Fork(r.atom, lambda s: wrap(r.t(s)), lambda s: wrap(r.f(s)))
        return wrap(r)
    value = P('map_res', cls('digit1'), py(parse))
    rng = mapp(P('seq', ('L', (value, tag('..'), value)), ('L', (NV(0), NV(2)))), lambda o: mk('Range', lower_val=o[1][0], upper_val=o[1][1]))
    item = alt(mapp(rng, lambda o: en('RangeListItem', 'Range', o)), mapp(value, lambda o: en('RangeListItem', 'Value', o)))
    comma = seq(sp0, tag(','), sp0)
    ranges = mapp(lst(item, comma), lambda o: mk('RangeList', **{'0': o}))
    operand = alt(*[const(tag(c), en('Operand', v)) for c, v in OPN.items()])
    modulo = opt(mapp(pick(1, seq(sp0, alt(tag('mod'), tag('%')), sp1), value), lambda o: mk('Modulo', **{'0': o})))
    expr = mapp(seq(operand, modulo), lambda o: mk('Expression', operand=o[1][0], modulus=o[1][1]))
    oper = alt(const(tag('='), en('Operator', 'EQ')), const(tag('!='), en('Operator', 'NotEQ')),
               alt(const(seq(tag('is'), sp1, tag('not')), en('Operator', 'IsNot')), const(seq(tag('is'), sp1), en('Operator', 'Is'))),
               const(tag('in'), en('Operator', 'In')),
               alt(const(seq(tag('not'), sp1, tag('in')), en('Operator', 'NotIn')), const(seq(tag('not'), sp1, tag('within')), en('Operator', 'NotWithin'))),
               const(tag('within'), en('Operator', 'Within')))
    rel = mapp(seq(expr, sp0, oper, sp0, ranges), lambda o: mk('Relation', expression=o[1][0], operator=o[1][2], range_list=o[1][4]))
    conj = mapp(lst(rel, seq(sp1, tag('and'), sp1)), lambda o: mk('AndCondition', **{'0': o}))
    disj = mapp(lst(conj, seq(sp1, tag('or'), sp1)), lambda o: mk('Condition', **{'0': o}))
    dec = mapp(seq(value, opt(pick(1, tag('.'), value))), lambda o: mk('DecimalValue', integer=o[1][0], decimal=o[1][1]))
    srange = mapp(seq(dec, opt(pick(1, seq(sp0, tag('~'), sp0), dec))), lambda o: mk('SampleRange', lower_val=o[1][0], upper_val=o[1][1]))
    slist = mapp(seq(lst(srange, comma), opt(pick(1, comma, alt(tag('...'), tag('…'))))), lambda o: mk('SampleList', sample_ranges=o[1][0], ellipsis=mkbool(o[1][1][2] == 'Some')))

    def mksamples(o):
        a, b = o[1]
        return Some(mk('Samples', integer=a, decimal=b)) if a[2] == 'Some' or b[2] == 'Some' else NONE
    samples = mapp(seq(opt(pick(1, seq(sp0, tag('@integer'), sp1), slist)), opt(pick(1, seq(sp0, tag('@decimal'), sp1), slist))), mksamples)
    none = lambda: mk('Condition', **{'0': ('L', ())})

    def condition(E, st, i):
        pos = strip(E, st, i)
        emp = nomp.empty(nomp.tstart(pos)) if pos[0] != 'S' else mkbool(not pos[1].strip())
        smp = nomp.at(nomp.tstart(pos), '@') if pos[0] != 'S' else mkbool(pos[1].lstrip().startswith('@'))
        ts = nomp.tstart(pos) if pos[0] != 'S' else ('S', pos[1].lstrip())
        return Fork(emp, lambda s: POk(('S', ''), none()), lambda s: Fork(smp, lambda s2: POk(ts, none()), lambda s2: Call(disj, [('R', pos)])))
    cond = py(condition)
    rule = mapp(seq(cond, samples), lambda o: mk('Rule', condition=o[1][0], samples=o[1][1]))

    def finish(kind):
        def k(E, st, fr, val):
            ok, rest, out = nomp.res_parts(val)
            if not ok: return Err(('S', ''))
            if kind == 'rule':
                c = nomp.empty(rest) if rest[0] != 'S' else mkbool(rest[1] == '')
                return Fork(c, lambda s: Ok(out), lambda s: Err(('S', '')))
            c1 = nomp.empty(nomp.tstart(rest)) if rest[0] != 'S' else mkbool(not rest[1].strip())
            c2 = nomp.at(nomp.tstart(rest), '@') if rest[0] != 'S' else mkbool(rest[1].lstrip().startswith('@'))
            return Fork(c1, lambda s: Ok(out), lambda s: Fork(c2, lambda s2: Ok(out), lambda s2: Err(('S', ''))))
        return k
    import engine
    engine.HANDLERS['ref_rule'] = finish('rule'); engine.HANDLERS['ref_cond'] = finish('cond')
    return {'rule': py(lambda E, st, i: Call(rule, [i], 'ref_rule')), 'cond': py(lambda E, st, i: Call(cond, [i], 'ref_cond'))}


def grammar(S):
    """{'rule'|'cond': None (equal) | ('diff', text) | ('und', why)}, leaf count"""
    E = S.engine(max_steps=2000000)
    ref = reference(S)
    out = {}; n = [0]
    for which, key in (('rule', S.rule), ('cond', S.cond)):
        i = V('text', 'str')
        try:
            r = S.dom.sub(E, ref[which], [('R', i)])
            c = S.run(key, i, E)
        except (Undecided, RuntimeError) as e: out[which] = ('und', str(e)); continue
        bad = [x for x in dag_nodes(c) if x.is_leaf and x.kind in ('undecided',)]
        if bad: out[which] = ('und', bad[0].val); continue
        d = nomp.same(c, r, {}, stat=n)
        out[which] = None if d is None else ('diff', 'where %s: %s instead of %s' % (show_path(d[0])[-160:], show(d[1].val)[:160] if d[1].val and d[1].kind == 'ret' else d[1].kind + str(d[1].val)[:100], show(d[2].val)[:160]))
        out[which + '_dag'] = c; out[which + '_ref'] = r
    return out, n[0]


# ---------------------------------------------------------------- independent reading of rule texts
class No(Exception): pass


TK = re.compile(r'(?P<ws>\s+)|(?P<num>[0-9]+|[\ue000-\ue0ff])|(?P<word>@integer|@decimal|within|mod|and|not|is|in|or|[nivwft])|(?P<p>\.\.\.|\.\.|!=|[=%,~.…])')


class Oracle:
    """UTS #35 rule syntax with optional white space between tokens -> nested Python values, or No"""
    def __init__(self, text):
        self.t = []; pos = 0
        while pos < len(text):
            m = TK.match(text, pos)
            if not m: raise No('character %r' % text[pos])
            if m.lastgroup != 'ws': self.t.append((m.lastgroup, m.group(), m.start(), m.end()))
            pos = m.end()
        self.i = 0

    def peek(self): return self.t[self.i][1] if self.i < len(self.t) else None
    def eat(self, *xs):
        if self.peek() in xs: self.i += 1; return self.t[self.i - 1][1]
        return None

    def num(self):
        if self.i < len(self.t) and self.t[self.i][0] == 'num': self.i += 1; return self.t[self.i - 1][1]
        raise No('number')

    def relation(self):
        op = self.eat(*OPN)
        if op is None: raise No('operand')
        mod = self.num() if self.eat('%', 'mod') else None
        o = self.eat('=', '!=', 'is', 'in', 'not', 'within')
        if o is None: raise No('operator')
        if o == 'is' and self.eat('not'): o = 'is not'
        if o == 'not':
            q = self.eat('in', 'within')
            if q is None: raise No('operator')
            o += ' ' + q
        items = []
        while True:
            lo = self.num()
            items.append((lo, self.num()) if self.eat('..') else (lo,))
            if not self.eat(','): break
        return (op, mod, o, tuple(items))

    def condition(self):
        ors = []
        while True:
            ands = [self.relation()]
            while self.eat('and'): ands.append(self.relation())
            ors.append(tuple(ands))
            if not self.eat('or'): break
        return tuple(ors)

    def decimal(self):
        a = self.num()
        return (a, self.num()) if self.eat('.') else (a, None)

    def samples(self):
        l = []; ell = False
        while True:
            lo = self.decimal()
            l.append((lo, self.decimal() if self.eat('~') else None))
            if not self.eat(','): break
            if self.eat('…', '...'): ell = True; break
        return (tuple(l), ell)

    def rule(self):
        c = () if self.peek() in (None, '@integer', '@decimal') else self.condition()
        i = self.samples() if self.eat('@integer') else None
        d = self.samples() if self.eat('@decimal') else None
        if self.i != len(self.t): raise No('leftover')
        return c, i, d


def oracle_rule(text): return Oracle(text).rule()


def oracle_cond(text):
    c = text.split('@')[0]
    o = Oracle(c)
    if not o.t: return ()
    r = o.condition()
    if o.i != len(o.t): raise No('leftover')
    return r


OPS = {'=': 'EQ', '!=': 'NotEQ', 'is': 'Is', 'is not': 'IsNot', 'in': 'In', 'not in': 'NotIn', 'within': 'Within', 'not within': 'NotWithin'}
LIM = 1 << 64


class Tree:
    """builds the parser's trees from oracle values"""
    def __init__(self, S, env=None): self.S = S; self.env = env or {}
    def n(self, s):
        if nomp.is_pua(s[0]):
            k = ord(s) - PUA
            if k in self.env: v = self.env[k]
            else: return self.S.mk('Value', **{'0': X('num', V('num%d' % k, 'digits'), ty='usize')})
        else: v = int(s)
        if v >= LIM: raise No('number too large')
        return self.S.mk('Value', **{'0': ('I', v, 'usize')})

    def cond(self, c):
        mk, en = self.S.mk, self.S.en
        def item(x): return en('RangeListItem', 'Range', mk('Range', lower_val=self.n(x[0]), upper_val=self.n(x[1]))) if len(x) == 2 else en('RangeListItem', 'Value', self.n(x[0]))
        def rel(r):
            op, mod, o, items = r
            e = mk('Expression', operand=en('Operand', OPN[op]), modulus=NONE if mod is None else Some(mk('Modulo', **{'0': self.n(mod)})))
            return mk('Relation', expression=e, operator=en('Operator', OPS[o]), range_list=mk('RangeList', **{'0': ('L', tuple(map(item, items)))}))
        return mk('Condition', **{'0': ('L', tuple(mk('AndCondition', **{'0': ('L', tuple(map(rel, a)))}) for a in c))})

    def rule(self, r):
        mk = self.S.mk
        def dec(d): return mk('DecimalValue', integer=self.n(d[0]), decimal=NONE if d[1] is None else Some(self.n(d[1])))
        def sl(x):
            if x is None: return NONE
            return Some(mk('SampleList', sample_ranges=('L', tuple(mk('SampleRange', lower_val=dec(a), upper_val=NONE if b is None else Some(dec(b))) for a, b in x[0])), ellipsis=mkbool(x[1])))
        c, i, d = r
        s = NONE if i is None and d is None else Some(mk('Samples', integer=sl(i), decimal=sl(d)))
        return mk('Rule', condition=self.cond(c), samples=s)


# ---------------------------------------------------------------- abstract sentences
def N(k): return chr(PUA + k)


def number(text):
    """replace the # marks of a template by distinct symbolic numbers"""
    out = []; k = 0
    for c in text:
        if c == '#': out.append(N(k)); k += 1
        else: out.append('#' if c == '\x01' else c)
    return ''.join(out)


MODS = ['', ' % #', ' mod #']
LISTS = ['#', '#..#', '#,#', '#..#,#', '#,#..#', '#..#,#..#']
LISTS3 = [','.join(x) for x in itertools.product(('#', '#..#'), repeat=3)] + ['#,#,#..#,#', '#..#,#,#..#,#..#,#']


def relations():
    for op in 'nivwft':
        for m in MODS:
            for o in OPS:
                for l in LISTS: yield '%s%s %s %s' % (op, m, o, l)
    for j, l in enumerate(LISTS3):
        for o in OPS: yield '%s%s %s %s' % ('nivwft'[j % 6], MODS[j % 3], o, l)


def booleans():
    rs = ['n = #', 'i % # != #..#', 'v is #', 'w not in #,#', 'f mod # in #..#', 't is not #', 'n within #..#', 'i not within #', 'v = #,#..#']
    for shape in [s for n in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=n)] + [(4,), (1, 1, 1, 1), (2, 4), (5,), (1, 1, 1, 1, 1)]:
        for off in (0, 4):
            k = off; ors = []
            for n in shape: ors.append(' and '.join(rs[(k + j) % len(rs)] for j in range(n))); k += n
            yield ' or '.join(ors)


def sample_lists():
    dec = ['#', '#.#', '#~#', '#.#~#.#', '#.#~#', '#~#.#']
    for a in dec: yield a
    for a, b in itertools.product(dec, repeat=2): yield a + ', ' + b
    yield ', '.join(dec)
    yield '#, #, #, #'


def sampled():
    ls = list(sample_lists()); ells = ['', ', …', ', ...']
    for c in ('', 'n = #', 'i % # = #..# and v = # or w != #'):
        s = (' ' if not c else c + ' ')
        for j, l in enumerate(ls):
            for e in ells:
                if c and (j % 7): continue
                yield s + '@integer ' + l + e
                yield s + '@decimal ' + l + e
                l2 = ls[(j * 5 + 3) % len(ls)]; e2 = ells[(j + len(e)) % 3]
                yield s + '@integer ' + l + e + ' @decimal ' + l2 + e2
    yield '@integer #'; yield '@decimal #.#'; yield ''; yield ' '
    yield '@integer #, # @decimal #.#~#.#, …'


NUMS = ['0', '7', '007', '00', '255', '256', '65535', '65536', '99999', '1000000', '999999999', '2147483648', '4294967295', '4294967296', '9007199254740993', '9223372036854775807', '9223372036854775808', '18446744073709551615', '18446744073709551616', '99999999999999999999', '184467440737095516150']


def concrete():
    for t in ('n = #', 'n % # = #', 'i = #..#', 'i is not #,#', '@integer #', '@decimal #.#', '@integer #~#, …', 'v within #..#,#', 'n = # @integer # @decimal #.#~#.#'):
        k = t.count('#')
        for j in range(k):
            for x in NUMS:
                p = t.split('#'); out = p[0]
                for q in range(k): out += (x if q == j else str(11 + 7 * q)) + p[q + 1]
                yield out


TOKS = ['n', 'i', 'e', 'x', 'N', '=', '!=', '==', '!', 'is', 'not', 'in', 'within', 'mod', '%', '#', ',', '..', '.', '...', '…', '~', '@integer', '@decimal', '@', 'and', 'or', '-', '+', ';', '&', '|', '(', ')', ':', 'é', '\n', 'OR', 'AND', '_', '/', '<', '>', '\x01', ';', '*', '$', '^', '"', "'", '[', '}', '\\', '?', '`', '\t', '\r', '\u00a0', '−', '１', '\x00', '\ufeff']
BASES = ['n = #', 'n % # = #..#,#', 'i is not #', 'n not in #..# and v = #', 'n = # or i != # and w = #', 'n mod # within #..#', ' @integer #, #~#, … @decimal #.#, #.#~#.#, ...', 'n = # @integer #~#, # @decimal #.#', 'f = #..#,#..# @decimal #.#, …', 'v is # and t not within #']
SPLIT = re.compile(r'@integer|@decimal|@|within|[a-z]+|\.\.\.|\.\.|!=|\s+|.')


def malformed():
    seen = set()
    def out(parts):
        t = ''.join(parts)
        if t not in seen: seen.add(t); return [t]
        return []
    for b in BASES:
        ts = SPLIT.findall(b)
        for i in range(len(ts) + 1):
            yield from out(ts[:i])                                        # truncated
            yield from out(ts[i:])                                        # beheaded
            yield from out(ts[:i] + ts[i + 1:])                           # token deleted
            if i < len(ts): yield from out(ts[:i] + [ts[i], ts[i]] + ts[i + 1:])
            if i + 1 < len(ts): yield from out(ts[:i] + [ts[i + 1], ts[i]] + ts[i + 2:])
            for x in TOKS:
                yield from out(ts[:i] + [x] + ts[i:])
                yield from out(ts[:i] + [' ' + x + ' '] + ts[i:])
                if i < len(ts) and not ts[i].isspace(): yield from out(ts[:i] + [x] + ts[i + 1:])
        for tail in (' x', 'x', ' 1', ' or', ' and', ' or x', ' and x = 1', ',', ', ', ', x', '..', '..x', '.', '.x', '~', ' ~ x', ' @', ' @integer', ' @decimal', ' @integer x', ' @foo 1', ' @integer 1, ,', ' @decimal 1.', ' @integer 1 x', ' @decimal 1.0 @integer 1', ' @integer 1 @integer 2', '\0', ' n', ' n = 1', ' // c', ' @integer …', ' @integer 1 …', ' @integer 1, …, 2', ' @integer 1, … x', ' @decimal 1.2.3', ' @integer 1~2~3', ' @integer -1'): yield from out([b, tail])
    for t in ('n', '=', '1', 'n =', '= 1', 'n 1', 'n = x', 'n = ,', 'n = 1,', 'n = ,1', 'n = 1..', 'n = ..1', 'n = 1.5', 'n = -1', 'n = 1 2', 'n == 1', 'nn = 1', 'n = 1 n = 2', 'and', 'or', 'n = 1 and', 'and n = 1', 'n = 1 or or n = 2', 'n = 1 and or n = 2', 'n % = 1', 'n % 10', 'n % 10 % 5 = 1', 'n mod = 1', 'n is', 'n not 1', 'n is is 1', 'n not not in 1', 'n in in 1', 'is 1', 'c = 1', 'e = 0', 'n = 1 @', 'n = 1 @x', '@', '@x', '@integer', '@decimal', '@integer ', '@integer x', '@integer 1 @decimal', 'x', '…', 'n = …', 'n = 1…', 'é', 'n = é', 'n = ١', '٣ = 1', 'n = 1\u00a0', '\u00a0', '\u3000@integer 1', '\t', '\n'):
        yield from out([t])


def witness(path, nums):
    """an assignment of the symbolic numbers satisfying the path; None if none of the candidates does"""
    cand = [5, 0, 1, 2, 3, 10, 100, 255, 256, 1000, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 53, 1 << 63, LIM - 1, LIM]
    used = set()
    for a, o in path:
        for t in subterms(a):
            if t[0] == 'V' and t[1].startswith('num'): used.add(int(t[1][3:]))
            if t[0] == 'I': cand += [t[1] - 1, t[1], t[1] + 1]
    cand = [c for c in dict.fromkeys(cand) if c >= 0]
    base = {k: 11 + 7 * k for k in nums}
    used = sorted(used)

    def ok(env):
        try: return all(nev(a, env) == o for a, o in path)
        except Undecided: return False
    if ok(base): return base
    e = dict(base)
    for a, o in path:
        if a[0] == 'X' and a[1] == 'fits' and not o and a[2][0][0] == 'V': e[int(a[2][0][1][3:])] = LIMS.get(a[2][1][1], LIM)
    if ok(e): return e
    if len(used) > 3:
        for u in used:
            for c in cand:
                e = dict(base); e[u] = c
                if ok(e): return e
        for c in cand:
            e = dict(base, **{}); e.update({u: c for u in used})
            if ok(e): return e
        return None
    for cs in itertools.product(cand, repeat=len(used)):
        e = dict(base); e.update(zip(used, cs))
        if ok(e): return e
    return None


LIMS = {'u8': 1 << 8, 'u16': 1 << 16, 'u32': 1 << 32, 'u64': 1 << 64, 'usize': 1 << 64, 'u128': 1 << 128, 'i8': 1 << 7, 'i16': 1 << 15, 'i32': 1 << 31, 'i64': 1 << 63, 'isize': 1 << 63, 'i128': 1 << 127}


def nev(t, env):
    k = t[0]
    if k in ('I', 'B'): return t[1]
    if k == 'X':
        op = t[1]; a = t[2]
        if op == 'fits':
            if a[1][1] not in LIMS: raise Undecided('type')
            return env[int(a[0][1][3:])] < LIMS[a[1][1]]
        if op == 'num': return env[int(a[0][1][3:])]
        if op == 'Not': return not nev(a[0], env)
        if op in ('Eq', 'Lt', 'Le', 'BitAnd', 'BitOr', 'Add', 'Sub', 'Mul', 'Rem', 'Div') and len(a) == 2:
            x, y = nev(a[0], env), nev(a[1], env)
            if op in ('Rem', 'Div') and y == 0: raise Undecided('zero')
            return {'Eq': lambda: x == y, 'Lt': lambda: x < y, 'Le': lambda: x <= y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'Add': lambda: (x + y) % LIM, 'Sub': lambda: (x - y) % LIM, 'Mul': lambda: x * y % LIM, 'Rem': lambda: x % y, 'Div': lambda: x // y}[op]()
        if op == 'cast': return nev(a[0], env) % (1 << (INT_BITS.get(a[2], 64) or 64))
        if op == 'ovf':
            x, y = nev(a[1], env), nev(a[2], env)
            return {'Add': x + y >= LIM, 'Sub': x < y, 'Mul': x * y >= LIM}[a[0]]
    raise Undecided('term %s' % show(t)[:40])


def close(v, env):
    """leaf value with the symbolic numbers replaced"""
    if v[0] == 'X': r = nev(v, env); return ('B', r) if isinstance(r, bool) else ('I', r, 'usize')
    if v[0] in ('T', 'L'): return (v[0], tuple(close(x, env) for x in v[1]))
    if v[0] == 'A': return v[:3] + (tuple(close(x, env) for x in v[3]),)
    if v[0] == 'I': return ('I', v[1], 'usize')
    if v[0] == 'R': return close(v[1], env)
    return v


def rend(text, env=None):
    return ''.join(str((env or {}).get(ord(c) - PUA, 11 + 7 * (ord(c) - PUA))) if nomp.is_pua(c) else c for c in text)


def differ(a, b):
    """names of the innermost AST type whose values differ, outermost first"""
    if a == b: return []
    if a[0] == 'A' and b[0] == 'A' and a[1] == b[1]:
        me = [a[1].rsplit('::', 1)[-1]]
        if a[2] != b[2] or len(a[3]) != len(b[3]): return me
        for x, y in zip(a[3], b[3]):
            if x != y: return me + differ(x, y)
        return me
    if a[0] == b[0] and a[0] in ('L', 'T'):
        if len(a[1]) != len(b[1]): return ['length']
        for x, y in zip(a[1], b[1]):
            if x != y: return differ(x, y)
    return []


def pick_slot(S, v, name):
    a = S.p.adts[AST + 'Rule']
    fs = [f.get('name', f.get('n')) for f in S.p.types[a['t']]['variants'][0]['fields']]
    return v[3][fs.index(name)]


_S = None


def do_sent(job):
    """one text at one entry -> list of (status, property, what, types)"""
    global _S
    if _S is None: _S = Parser()
    S = _S
    text, which, canonical, concrete_only = job
    try: exp = (oracle_rule if which == 'rule' else oracle_cond)(text)
    except No: exp = None
    shown = lambda env=None: ascii(rend(text, env)).replace('\\u2026', '…')[:150]
    out = []

    def expected(env):
        if exp is None: return None
        try: return (Tree(S, env).rule if which == 'rule' else Tree(S, env).cond)(exp)
        except No: return None
    has_samples = which == 'rule' and exp is not None and (exp[1] is not None or exp[2] is not None)
    fn = 'parse_plural_rule' if which == 'rule' else 'parse_plural_condition'

    def judge(lf, val, want, env):
        """concrete comparison"""
        if lf.kind == 'panic': out.append(('bad', 'C17', '%s(%s) panics: %s' % (fn, shown(env), lf.val), [])); return
        ok = val[0] == 'A' and val[2] == 'Ok'
        if want is None:
            if ok: out.append(('bad', 'C15', '%s(%s) succeeds although the text is not a %s' % (fn, shown(env), 'rule' if which == 'rule' else 'condition followed by samples') if exp is None else '%s(%s) succeeds although a number does not fit' % (fn, shown(env)), []))
            else: out.append(('ok', 'C15'))
            return
        if not ok:
            if not canonical: out.append(('ok', 'C15')); return      # unusual spacing may be refused
            prop = 'C14'
            if has_samples: prop = 'C16'
            out.append(('bad', prop, '%s(%s) is refused although it is a valid %s' % (fn, shown(env), 'rule' if which == 'rule' else 'condition'), ['Samples'] if prop == 'C16' else [])); return
        got = val[3][0]
        if got == want:
            out.append(('ok', 'C14'));
            if has_samples: out.append(('ok', 'C16'))
            return
        ty = differ(got, want)
        prop = 'C14'
        if which == 'rule':
            try:
                if pick_slot(S, got, 'condition') == pick_slot(S, want, 'condition'): prop = 'C16'
            except Exception: pass
        out.append(('bad', prop, '%s(%s) returns a wrong %s: %s instead of %s' % (fn, shown(env), ty[-1] if ty and ty[-1] != 'length' else 'list' if ty else 'tree', brief(got, want)[0], brief(got, want)[1]), ty))
    try:
        dag = S.run(S.rule if which == 'rule' else S.cond, ('S', text), S.engine(max_steps=max(60000, 1500 * len(text)), max_leaves=70))
    except RuntimeError as e:
        if not concrete_only and any(map(nomp.is_pua, text)): return do_sent((rend(text), which, canonical, True))
        return [('und', '*', '%s: %s' % (shown(), e), [])]
    except Undecided as e:
        if not concrete_only and any(map(nomp.is_pua, text)): return do_sent((rend(text), which, canonical, True))
        return [('und', '*', '%s: %s' % (shown(), e), [])]
    nums = [ord(c) - PUA for c in text if nomp.is_pua(c)]
    again = False
    for path, lf in leaves(dag):
        if lf.kind == 'unreachable': continue
        if lf.kind == 'undecided':
            if nums and not concrete_only: again = True; continue
            out.append(('und', '*', '%s: %s' % (shown(), lf.val), [])); continue
        val = lf.val
        if lf.kind == 'ret':
            simple = all(a[0] == 'X' and a[1] == 'fits' and a[2][1] == ('S', 'usize') for a, _ in path)
            if simple:
                allfit = all(o for _, o in path)
                want = expected({}) if exp is not None else None
                if not allfit:      # a number that does not fit a usize
                    if which == 'cond' or exp is None or True: want = None if exp is None or any(nomp_in(exp, a) for a, o in path if not o) else want
                if want is None or val[0] == 'A' and (val[2] == 'Err' or strip_refs(val[3][0]) == want):
                    judge(lf, ('A', val[1], val[2], tuple(strip_refs(x) for x in val[3])), want, None if allfit else witness(path, nums)); continue
        env = witness(path, nums)
        if env is None:
            if lf.kind == 'panic' or path: continue
        if lf.kind == 'panic': judge(lf, None, None, env); continue
        try: v = ('A', val[1], val[2], (close(val[3][0], env),)) if val[2] == 'Ok' else val
        except (Undecided, KeyError, IndexError, TypeError): again = True; continue
        judge(lf, v, expected(env), env)
    if again and not concrete_only:
        out += do_sent((rend(text), which, canonical, True))
    return out


def strip_refs(v):
    if v[0] == 'R': return strip_refs(v[1])
    if v[0] in ('T', 'L'): return (v[0], tuple(strip_refs(x) for x in v[1]))
    if v[0] == 'A': return v[:3] + (tuple(strip_refs(x) for x in v[3]),)
    return v


def nomp_in(exp, atom):
    """does the oracle's reading contain the number of this fits atom"""
    t = [x for x in subterms(atom) if x[0] == 'V' and x[1].startswith('num')]
    cs = {chr(PUA + int(x[1][3:])) for x in t}

    def walk(e):
        if isinstance(e, str): return e in cs
        return any(walk(x) for x in e) if isinstance(e, tuple) else False
    return walk(exp)


def brief(a, b):
    """the innermost differing values"""
    while True:
        if a[0] == 'A' and b[0] == 'A' and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
            d = [(x, y) for x, y in zip(a[3], b[3]) if x != y]
        elif a[0] == b[0] and a[0] in ('L', 'T') and len(a[1]) == len(b[1]): d = [(x, y) for x, y in zip(a[1], b[1]) if x != y]
        else: break
        if not d: break
        if d[0][0][0] not in ('A', 'L', 'T'): break
        a, b = d[0]
    return show(a)[:90], show(b)[:90]


def jobs():
    out = []
    for t in itertools.chain(relations(), booleans()):
        x = number(t)
        out.append((x, 'rule', True, False)); out.append((x, 'cond', True, False))
    for t in sampled():
        x = number(t)
        out.append((x, 'rule', True, False)); out.append((x, 'cond', True, False))
    for t in concrete(): out.append((t, 'rule', True, True)); out.append((t, 'cond', True, True))
    seen = {(j[0], j[1]) for j in out}
    for t in malformed():
        x = number(t)
        for w in ('rule', 'cond'):
            if (x, w) not in seen: seen.add((x, w)); out.append((x, w, False, False))
    return out


def repeats():
    """neighbours that share operand, operator or the whole relation; longer lists"""
    for a in ('n % # != #', 'n = #', 'i % # = #..#', 'v not in #,#', 'f is #', 't within #..#'):
        for j in (' and ', ' or '):
            yield a + j + a
            yield j.join([a] * 3) + ' and n = #'
            yield 'w = # and ' + a + j + a + ' or ' + a
    for n in (4, 5, 7, 9, 12):
        yield 'n = ' + ','.join(['#'] * n); yield 'n % # != ' + ', '.join(['#..#'] * n)
        yield ' and '.join(['n % # != #'] * n); yield ' or '.join(['i = # and v = #'] * n)
    for t in ('n = 5,5', 'n = 5,5,5', 'i = 2..2', 'i != 3..4,3..4', 'n % 10 = 1 and n % 10 = 1', 'n = 1 or n = 1', 'i = 9,3', 'i in 9..3', 'i = 4,2..3,1', 'n % 1 = 0', 'n % 0 = 0', 'n = 0..0', 'n = 3,2,1 and v = 0 or i = 1',
              'v = 0 and v = 0 or v = 0', 'n not in 3..5,4..6', 'w = 1 or v = 1 and w = 1'): yield t


def repeat_samples():
    for n in (4, 6, 9): yield 'n = # @integer ' + ', '.join(['#'] * n) + ' @decimal ' + ', '.join(['#.#~#.#'] * n) + ', …'
    for t in ('@integer 5, 5', '@integer 5~5', '@integer 9~3, 2, 1, …', '@decimal 1.0, 1.0', '@decimal 1.0~1.0', '@integer 1, 1 @decimal 1.0, 1.0, …', '@decimal 0.0~1.5, 10.0', '@integer 0 @decimal 0.0', '@decimal 1.10, 1.100',
              'n = 1 @integer 1 @decimal 1.0, 1.00, 1.000, 1.0000', '@integer 3~10, 103~110, 1003, … @decimal 3.0, 4.0, 5.0, 103.0, 1003.0, …'): yield t


def data_texts():
    """the rule texts of the CLDR data shipped in the repository"""
    import json, os
    out = {}
    d = os.path.join(common.REPO, 'intl_pluralrules', 'cldr_data')
    for fn in sorted(os.listdir(d)) if os.path.isdir(d) else ():
        try: j = json.load(open(os.path.join(d, fn)))['supplemental']
        except (ValueError, KeyError, OSError): continue
        for k, v in j.items():
            if k.startswith('plurals-type'):
                for loc in v.values():
                    for t in loc.values(): out.setdefault(t)
    return list(out)


def fixed_jobs():
    out = []
    for t in itertools.chain(repeats(), repeat_samples()):
        x = number(t)
        out.append((x, 'rule', True, False)); out.append((x, 'cond', True, False))
    for t in data_texts(): out.append((t, 'rule', True, True)); out.append((t, 'cond', True, True))
    return out


def long_jobs(S):
    """long texts, also just beyond the constants of the code"""
    import c_eff
    consts = set()
    for b in S.p.bodies.values():
        if b.local and not b.key.startswith('<'):
            for o in c_eff.operands(b):
                v = o.get('v') if isinstance(o.get('v'), dict) else {}
                try: x = int(v.get('i'))
                except (TypeError, ValueError): continue
                if 40 < x <= 20000: consts.add(x)
    out = []
    for n in sorted({90, 300, 1200, 5000} | {c + 40 for c in sorted(consts)[:6]}):
        nums = [str(i) for i in range(1, n // 3 + 3)]
        def upto(prefix, xs, sep, tail=''):
            t = prefix + xs[0]
            for x in xs[1:]:
                if len(t) > n: break
                t += sep + x
            return t + tail
        out.append((upto('n = ', nums, ','), True))
        out.append((upto('', ['i %% 10 = %s' % x for x in nums], ' and '), True))
        out.append((upto('', ['v = %s' % x for x in nums], ' or ') + ' @integer 1, 2~3, … @decimal 1.0', True))
        out.append((upto('i = 1 @integer ', nums, ', ', ', …'), True))
        out.append((upto(' @integer 3 @decimal ', ['%s.0~%s.5' % (x, x) for x in nums], ', ', ', …'), True))
        out.append((upto('n = ', nums, ',') + ' x', False)); out.append((upto('i = 1 @integer ', nums, ', ', ', … y'), False)); out.append((upto('n = 1 or ', nums, ','), False))
        out.append((upto('', ['v = %s' % x for x in nums], ' or ') + ' and', False))
        out.append(('n = 1' + ' ' * n + 'x', False)); out.append(('n = 1 @integer ' + ' ' * n, False))
    return [(t, w, c and (w == 'rule' or True), True) for t, c in out for w in ('rule', 'cond')]


def do_chunk(js):
    out = []
    for j in js: out += do_sent(j)
    S = _S
    if S is None: return out, len(js), 0, [], {}
    return out, len(js), S.calls, sorted(S.visited), dict(S.unknown)


# ---------------------------------------------------------------- the checks
def where_of(S, types, which='rule'):
    """source position of the local parser function that builds the differing type"""
    for ty in reversed(types or []):
        for k, b in S.p.bodies.items():
            if not b.local or '{' in k or not k.startswith(PC): continue
            r = S.p.types[b.locals[0]]['s']
            if 'Result<' in r and r.startswith('core::result') and re.search(r'ast::%s\b' % ty, r): return '%s (%s)' % (b.j['span'], k.rsplit('::', 1)[-1])
    b = S.p.bodies[S.rule if which == 'rule' else S.cond]
    return '%s (%s)' % (b.j['span'], strip_generics(b.key).rstrip(':').rsplit('::', 1)[-1])


WANT = {'C14': lambda j: j[2] and '@' not in j[0] or not j[2], 'C15': lambda j: True, 'C16': lambda j: '@' in j[0], 'C17': lambda j: True}


def collect(rep, prop):
    import c_gen, os
    S = Parser()
    g, nl = grammar(S)
    proved = g['rule'] is None and g['cond'] is None
    js = [j for j in jobs() if WANT[prop](j)]
    full = len(js)
    first = [j for i, j in enumerate(js) if j[2] and i % 3 == 0 or i % 12 == 5]
    later = [j for i, j in enumerate(js) if not (j[2] and i % 3 == 0 or i % 12 == 5)]
    fx = [j for j in fixed_jobs() if WANT[prop](j) or prop == 'C14']
    first = fx + first; full += len(fx)
    calls = S.calls; vis = set(S.visited); viol = {}; nund = 0; nok = 0; js = []
    longs = [] if proved and not common.THOROUGH else [j for j in long_jobs(S) if WANT[prop](j) or prop == 'C14']
    full += len(longs)
    for stage in (first, longs, later):
        if stage is not first and (viol or proved and os.environ.get('VERIF_TIER', 'quick') != 'thorough'): break
        js += stage
        for o, n, c, v, u in c_gen.pool_map(do_chunk, [stage[i::64] for i in range(64)]):
            calls = max(calls, c); vis |= set(v)
            for r in o:
                if r[0] == 'ok': nok += r[1] == prop or prop == 'C17'
                elif r[0] == 'und': nund += 1; rep.open(r[2])
                elif r[1] == prop: viol.setdefault(r[2].split(' returns ')[-1].split(':')[0] if ' returns ' in r[2] else r[1], []).append(r)
    rep.ok(nok)
    for k, rs in list(viol.items())[:6]:
        rs.sort(key=lambda r: len(r[2]))
        for r in rs[:2]:
            rep.bad(); rep.violation(r[2], where_of(S, r[3], 'rule' if 'plural_rule' in r[2] else 'cond'))
    if proved: rep.ok(nl)
    elif not rep.viol:
        for w in ('rule', 'cond'):
            if g[w] is not None and (prop != 'C17' or g[w][0] == 'und'): rep.open('grammar of parse_plural_%s: %s' % ('rule' if w == 'rule' else 'condition', g[w][1]))
    if not proved and nok == 0 and not rep.viol: rep.undecided('the parser could not be analysed: %s' % (rep.und[:1],))
    rep.samples += [{'text': rend(j[0]), 'entry': j[1], 'canonical': j[2]} for j in js[7::max(1, len(js) // 8)]]
    rep.cov.update({'grammar_equal': proved, 'grammar_paths': nl, 'repetitions': len(S.dom.reg), 'sentences': len(js), 'sentences_available': full, 'call_sites': calls, 'functions': sorted(vis),
                    'explanation': 'The grammar with its semantic actions is extracted from the MIR of both entry points by applying modelled nom combinators to a symbolic text, and compared path by path with the UTS #35 reference grammar (all texts, digit runs symbolic, repetitions compared by their element and separator graphs). In addition abstract sentences (literals with symbolic numbers, and malformed variants) are interpreted and compared with an independent reading.'})
    return S, g, proved


def c14(rep): collect(rep, 'C14')


def c15(rep): collect(rep, 'C15')


def c16(rep):
    S, g, proved = collect(rep, 'C16')
    # a decimal sample keeps the number of its fraction digits but not their leading zeros
    try:
        r = [S.run(S.rule, ('S', t)) for t in ('@decimal 0.05', '@decimal 0.5')]
        if all(x.is_leaf and x.kind == 'ret' and x.val[2] == 'Ok' for x in r) and r[0].val == r[1].val:
            k = next((k for k in rep.kf if k['id'] == 'C16-leading-zeros'), None)
            if k: rep.known(k['id'], '%s: the samples 0.05 and 0.5 give the same tree' % k['what'])
            else: rep.bad(); rep.violation('the decimal samples 0.05 and 0.5 give the same tree: leading zeros of the fraction are lost', where_of(S, ['DecimalValue']))
    except Undecided: pass


def c17(rep):
    import c_eff
    S, g, proved = collect(rep, 'C17')
    out, nb, nc = c_eff.effects(S.p, rep, 'parser')
    out = [(w, t) for w, t in out if 'random hash seed' not in t]
    for w, t in out: rep.bad(); rep.violation(t, w)
    rep.ok(nb)
    hi = c_eff.hash_iteration(S.p)
    for w, t in hi: rep.bad(); rep.violation(t, w)
    panics = 0
    for w in ('rule', 'cond'):
        d = g.get(w + '_dag')
        if d is None: rep.open('panic edges of the %s grammar' % w); continue
        for x in dag_nodes(d):
            if x.is_leaf and x.kind == 'panic': panics += 1; rep.open('panic edge %s (no text reaching it found)' % x.val) if not rep.viol else None
    for d in S.dom.reg:
        for x in dag_nodes(d):
            if x.is_leaf and x.kind == 'panic': panics += 1; rep.open('panic edge %s inside a repetition (no text reaching it found)' % x.val) if not rep.viol else None
    if not panics and proved: rep.ok()
    rep.cov.update({'panic_leaves': panics, 'bodies_checked_for_effects': nb, 'effect_call_sites': nc, 'statics': len(S.p.statics)})
