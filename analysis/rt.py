"""Summaries of the run-time library (intl_pluralrules): locale tables, create, select, get_locales, rule functions."""
import json, os
import common
from engine import *
import models
from models import M, model, strip, eq_val

LI = 'unic_langid_impl::LanguageIdentifier'
LANG = 'unic_langid_impl::subtags::language::Language'
SCRIPT = 'unic_langid_impl::subtags::script::Script'
REGION = 'unic_langid_impl::subtags::region::Region'
VARIANT = 'unic_langid_impl::subtags::variant::Variant'
TINY = 'tinystr::ascii::TinyAsciiStr'
AB = 'tinystr::asciibyte::AsciiByte'
PO = 'intl_pluralrules::operands::PluralOperands'
PRT = 'intl_pluralrules::PluralRuleType'
PCAT = 'intl_pluralrules::PluralCategory'
FILES = {'CARDINAL': 'cldr_pluralrules_cardinals.json', 'ORDINAL': 'cldr_pluralrules_ordinals.json'}
SECTION = {'CARDINAL': 'plurals-type-cardinal', 'ORDINAL': 'plurals-type-ordinal'}


# ------------------------------------------------------------ language identifiers
def tiny(s, n): return adt(TINY, 'TinyAsciiStr', ('L', tuple(adt(AB, 'B%d' % b) for b in s.encode() + b'\0' * (n - len(s)))))


def tiny_str(v):
    if v[0] == 'A' and v[1] == TINY:
        bs = bytes(int(b[2][1:]) for b in v[3][0][1] if b[0] == 'A')
        return bs.rstrip(b'\0').decode('latin1')
    return None


def langid(lang, script=None, region=None, variants=()):
    return adt(LI, 'LanguageIdentifier', adt(LANG, 'Language', Some(tiny(lang, 8)) if lang and lang != 'und' else NONE),
               Some(adt(SCRIPT, 'Script', tiny(script, 4))) if script else NONE,
               Some(adt(REGION, 'Region', tiny(region, 4))) if region else NONE,
               Some(adt('alloc::boxed::Box', 'Box', ('L', tuple(adt(VARIANT, 'Variant', tiny(v, 8)) for v in variants)))) if variants else NONE)


def parse_langid(s):
    """identifier of a CLDR locale name (BCP 47 language[-script][-region][-variant]*)"""
    import re
    ps = re.split('[-_]', s)
    lang = ps.pop(0).lower(); sc = rg = None; vs = []
    if not re.fullmatch('[a-z]{2,3}|[a-z]{5,8}', lang): return None
    if ps and re.fullmatch('[A-Za-z]{4}', ps[0]): sc = ps.pop(0).title()
    if ps and re.fullmatch('[A-Za-z]{2}|[0-9]{3}', ps[0]): rg = ps.pop(0).upper()
    while ps and re.fullmatch('[A-Za-z0-9]{5,8}|[0-9][A-Za-z0-9]{3}', ps[0]): vs.append(ps.pop(0).lower())
    if ps: return None
    return langid(lang, sc, rg, tuple(sorted(set(vs))))


def id_str(v):
    try:
        l = v[3][0][3][0]
        out = [tiny_str(l[3][0]) if l[2] == 'Some' else 'und']
        for k in (1, 2):
            if v[3][k][2] == 'Some': out.append(tiny_str(v[3][k][3][0][3][0]))
        if v[3][3][2] == 'Some':
            for x in v[3][3][3][0][3][0][1]: out.append(tiny_str(x[3][0]))
        return '-'.join(out)
    except (IndexError, TypeError, KeyError):
        return show(v)


def wellformed(v):
    """None, or why the identifier is not canonical"""
    import re
    try:
        l = v[3][0][3][0]

        def chk(t, pat, what):
            bs = bytes(int(b[2][1:]) for b in t[3][0][1])
            body = bs.rstrip(b'\0')
            if b'\0' in body: return what + ' has an embedded NUL'
            if not re.fullmatch(pat, body.decode('latin1')): return '%s %r is not canonical' % (what, body.decode('latin1'))
            return None
        if l[2] == 'Some':
            r = chk(l[3][0], '[a-z]{2,3}|[a-z]{5,8}', 'language subtag')
            if r: return r
            if tiny_str(l[3][0]) == 'und': return "language subtag 'und' must be the empty language"
        if v[3][1][2] == 'Some':
            r = chk(v[3][1][3][0][3][0], '[A-Z][a-z]{3}', 'script subtag')
            if r: return r
        if v[3][2][2] == 'Some':
            r = chk(v[3][2][3][0][3][0], '[A-Z]{2}|[0-9]{3}', 'region subtag')
            if r: return r
        if v[3][3][2] == 'Some':
            xs = v[3][3][3][0][3][0][1]
            if not xs: return 'empty variant list'
            for x in xs:
                r = chk(x[3][0], '[a-z0-9]{5,8}|[0-9][a-z0-9]{3}', 'variant subtag')
                if r: return r
        return None
    except (IndexError, TypeError, ValueError):
        return 'not a constant identifier'


def ordkey(v):
    """key for the derived ordering of constant values"""
    if v[0] == 'A':
        if v[1] == OPT: return (0,) if v[2] == 'None' else (1, ordkey(v[3][0]))
        if v[1] == AB: return int(v[2][1:])
        return tuple(ordkey(x) for x in v[3])
    if v[0] in ('L', 'T'): return tuple(ordkey(x) for x in v[1])
    if v[0] in ('I', 'S', 'C', 'B'): return v[1] if v[0] != 'S' else v[1].encode()
    if v[0] == 'R': return ordkey(v[1])
    raise ValueError(v[0])


_isc = {}


def is_const(v):
    r = _isc.get(v)
    if r is None:
        r = _isc[v] = v[0] not in ('X', 'V', 'M') and all(is_const(c) for c in children(v) if isinstance(c, tuple))
    return r


# ------------------------------------------------------------ folding of terms under a concrete identifier
class Fold:
    def __init__(self, E, m):
        self.E = E; self.m = m; self.memo = {}

    def __call__(self, t):
        if t in self.memo: return self.memo[t]
        r = self.go(t)
        self.memo[t] = r
        return r

    def go(self, t):
        if t in self.m: return self.m[t]
        k = t[0]
        if k in ('T', 'L'): return (k, tuple(self(c) for c in t[1]))
        if k == 'A': return ('A', t[1], t[2], tuple(self(c) for c in t[3]))
        if k == 'R': return ('R', self(t[1]))
        if k == 'CL': return ('CL', t[1], tuple(self(c) for c in t[2]))
        if k != 'X': return t
        op = t[1]
        a = [self(c) if isinstance(c, tuple) and c and isinstance(c[0], str) else c for c in t[2]]
        E = self.E
        try:
            if op == 'Not': return E.not_(a[0])
            if op == 'BitAnd' and t[3] == 'bool': return E.and_(a[0], a[1])
            if op == 'BitOr' and t[3] == 'bool': return E.or_(a[0], a[1])
            if op == 'Eq':
                x, y = strip(E, None, a[0]), strip(E, None, a[1])
                if is_const(x) and is_const(y): return mkbool(x == y)
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'cmp'):
                x, y = strip(E, None, a[0]), strip(E, None, a[1])
                if is_const(x) and is_const(y):
                    p, q = ordkey(x), ordkey(y)
                    if op == 'cmp': return adt(ORD, 'Less' if p < q else 'Equal' if p == q else 'Greater')
                    return mkbool({'Lt': p < q, 'Le': p <= q, 'Gt': p > q, 'Ge': p >= q}[op])
            if op == 'is' and a[0][0] == 'A': return mkbool(a[0][2] == a[1])
            if op == 'fld' and a[0][0] in ('A', 'T', 'CL'): return E.project(a[0], ('f', a[1]))
            if op == 'downcast' and a[0][0] == 'A': return a[0]
            if op == 'deref' and a[0][0] == 'R': return a[0][1]
            if op == 'idx' and a[0][0] == 'L' and a[1][0] == 'I': return a[0][1][a[1][1]]
            if op == 'upd' and a[0][0] in ('A', 'T'): return E.update(a[0], [('f', a[1])], a[2])
            if op == 'len' and a[0][0] == 'L': return I(len(a[0][1]))
            if op == 'langstr' and is_const(a[0]):
                l = a[0][3][0]
                return ('S', tiny_str(l[3][0]) if l[2] == 'Some' else 'und')
            if op == 'subtagstr' and is_const(a[0]): return ('S', tiny_str(a[0][3][0]))
            if op == 'display' and is_const(a[0]):
                r = display_ident(a[0], None)
                if r is not None: return r
            if op == 'idstr' and is_const(a[0]): return ('S', id_str(a[0]))
            if op == 'parse_id' and a[0][0] == 'S':
                r = parse_langid(a[0][1]); return Ok(r) if r else Err(X('parse error'))
            if op == 'id_matches' and is_const(a[0]) and is_const(a[1]):
                return mkbool(id_matches(a[0], a[1], a[2][1], a[3][1]))
            if op == 'len' and a[0][0] == 'S': return I(len(a[0][1].encode()))
            if op == 'scall' and all(is_const(x) for x in a[1:] if isinstance(x, tuple)):
                r = models.conc_str(E, None, a[0], a[1][1], [strip(E, None, x) for x in a[2:]])
                if r is not None: return r
        except (Undecided, IndexError, ValueError, TypeError, KeyError, AttributeError):
            pass
        return ('X', op, tuple(a), t[3])


def id_matches(a, b, ar, br):
    def opt(x, y, ex): return (ar and ex(x)) or (br and ex(y)) or x == y
    none = lambda x: x == NONE
    return (opt(a[3][0], b[3][0], lambda l: l[3][0] == NONE) and opt(a[3][1], b[3][1], none) and opt(a[3][2], b[3][2], none) and opt(a[3][3], b[3][3], none))


# ------------------------------------------------------------ models of unic-langid
SUBTAG = {LANG: ('[A-Za-z]{2,3}|[A-Za-z]{5,8}', str.lower), SCRIPT: ('[A-Za-z]{4}', str.title), REGION: ('[A-Za-z]{2}|[0-9]{3}', str.upper),
          VARIANT: ('[A-Za-z0-9]{5,8}|[0-9][A-Za-z0-9]{3}', str.lower)}


def parse_ident(ty, s):
    """result of parsing a known text as an identifier or subtag; None for other types"""
    import re
    if ty == LI:
        r = parse_langid(s)
        if r is None: return Err(X('parse error'))
        return Ok(r)
    if ty not in SUBTAG: return None
    pat, norm = SUBTAG[ty]
    if not re.fullmatch(pat, s): return Err(X('parse error'))
    s = norm(s)
    if ty == LANG: return Ok(adt(LANG, 'Language', NONE if s == 'und' else Some(tiny(s, 8))))
    return Ok(adt(ty, ty.rsplit('::', 1)[1], tiny(s, 8 if ty == VARIANT else 4)))


def display_ident(v, ty):
    if v[0] != 'A' or not is_const(v): return None
    if v[1] == LI: return ('S', id_str(v))
    if v[1] == LANG: return ('S', tiny_str(v[3][0][3][0]) if v[3][0][2] == 'Some' else 'und')
    if v[1] in SUBTAG: return ('S', tiny_str(v[3][0]))
    if v[1] == TINY: return ('S', tiny_str(v))
    return None


models.DISPLAY.append(display_ident)


@model(*[t + '::from_bytes' for t in SUBTAG])
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] != 'L' or not all(x[0] == 'I' for x in v[1]): raise Undecided('subtag from unknown bytes')
    return parse_ident(cx.name[:-len('::from_bytes')], bytes(x[1] for x in v[1]).decode('latin1'))


@model('unic_langid_impl::LanguageIdentifier::from_parts')
def _(E, st, a, cx):
    vs = strip(E, st, a[3])
    if vs[0] == 'L':
        if all(is_const(x) for x in vs[1]): vs = ('L', tuple(sorted(set(strip(E, st, x) for x in vs[1]), key=ordkey)))
        vv = Some(adt('alloc::boxed::Box', 'Box', vs)) if vs[1] else NONE
    else: vv = X('variants', vs)
    return adt(LI, 'LanguageIdentifier', a[0], a[1], a[2], vv)
@model('unic_langid_impl::LanguageIdentifier::from_raw_parts_unchecked')
def _(E, st, a, cx): return adt(LI, 'LanguageIdentifier', a[0], a[1], a[2], a[3])
@model('unic_langid_impl::LanguageIdentifier::matches')
def _(E, st, a, cx): return X('id_matches', strip(E, st, a[0]), strip(E, st, a[1]), a[2], a[3], ty='bool')
@model('unic_langid_impl::LanguageIdentifier::clear_variants')
def _(E, st, a, cx):
    v = E.load(st, a[0]); E.store(st, a[0], E.update(v, [('f', 3)], NONE)); return UNIT
@model('unic_langid_impl::LanguageIdentifier::variants')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    o = E.project(v, ('f', 3))
    if o == NONE: return models.lst([])
    if o[0] == 'A': return models.lst([('R', x) for x in strip(E, st, o[3][0][3][0])[1]])
    return X('variants_iter', v)
@model('unic_langid_impl::LanguageIdentifier::has_variant')
def _(E, st, a, cx):
    v = strip(E, st, a[0]); o = E.project(v, ('f', 3))
    if o == NONE: return FALSE
    if o[0] == 'A': return mkbool(any(strip(E, st, x) == strip(E, st, a[1]) for x in o[3][0][3][0][1]))
    return None
@model('unic_langid_impl::LanguageIdentifier::set_variants')
def _(E, st, a, cx):
    vs = strip(E, st, a[1])
    if vs[0] != 'L': raise Undecided('set_variants')
    v = E.load(st, a[0]); E.store(st, a[0], E.update(v, [('f', 3)], Some(adt('alloc::boxed::Box', 'Box', vs)) if vs[1] else NONE)); return UNIT
@model('unic_langid_impl::LanguageIdentifier::into_parts')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] != 'A': return None
    o = v[3][3]
    return ('T', (v[3][0], v[3][1], v[3][2], ('L', ()) if o == NONE else o[3][0][3][0]))
@model('unic_langid_impl::subtags::language::Language::as_str')
def _(E, st, a, cx): return ('R', Fold(E, {})(X('langstr', strip(E, st, a[0]), ty='str')))
@model('unic_langid_impl::subtags::script::Script::as_str', 'unic_langid_impl::subtags::region::Region::as_str', 'unic_langid_impl::subtags::variant::Variant::as_str')
def _(E, st, a, cx): return ('R', Fold(E, {})(X('subtagstr', strip(E, st, a[0]), ty='str')))
@model('unic_langid_impl::LanguageIdentifier::from_bytes')
def _(E, st, a, cx): return X('parse_id', strip(E, st, a[0]))
@model('unic_langid_impl::subtags::language::Language::is_empty')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    return eq_val(E, st, E.project(v, ('f', 0)), NONE)
@model('unic_langid_impl::subtags::language::Language::clear')
def _(E, st, a, cx):
    E.store(st, a[0], adt(LANG, 'Language', NONE)); return UNIT


def bs(outs):
    """std's binary search over the outcomes of the comparator"""
    size = len(outs)
    if size == 0: return Err(I(0))
    base = 0
    while size > 1:
        half = size // 2; mid = base + half
        base = base if outs[mid] > 0 else mid
        size -= half
    c = outs[base]
    if c == 0: return Ok(I(base))
    return Err(I(base + (1 if c < 0 else 0)))


class LocDom:
    """symbolic language identifier V('id')"""
    def range(self, E, v): return None
    def strlen(self, E, v): return None

    def str_method(self, E, st, n, v, rest, cx, ty=None):
        if n != 'parse' or v[0] != 'S': return None
        if ty is None:
            ts = [cx.targ(i) for i in range(len(cx.ft.get('args', [])))]
            ty = ts[-1]['s'] if ts and ts[-1] else None
        return parse_ident(ty, v[1])

    def decide(self, E, st, atom):
        if atom[0] != 'X': return None
        known = None
        for a, o in st.assume.items():
            if o and a[0] == 'X' and a[1] == 'Eq':
                x, y = a[2]
                if is_const(x): x, y = y, x
                if is_sym(x) and is_const(y): known = known or {}; known[x] = y
        if known:
            r = Fold(E, known)(atom)
            if r[0] == 'B': return r[1]
        return None

    def bsearch(self, E, st, v, a, cx):
        """forks per table key; the comparisons are evaluated on the constant keys"""
        name = cx.name
        keys = []
        sub_ = lambda: Engine(E.p, E.models, dom=self, ptr=E.ptr)

        def run_closure(f, e):
            f = strip(E, st, f)
            S = sub_()
            st2 = St([PF('ret1', None, {})])
            r = S.invoke_value(st2, f, [('R', e)])
            if r is None: r = S.run(st2)
            return r
        if name == 'slice::binary_search':
            keys = [strip(E, st, k) for k in v[1]]; t = strip(E, st, a[1])
            if not all(is_const(k) for k in keys): return None
        elif name == 'slice::binary_search_by_key':
            t = strip(E, st, a[1])
            for e in v[1]:
                r = run_closure(a[2], e)
                if not r.is_leaf or r.kind != 'ret' or not is_const(r.val): return None
                keys.append(strip(E, st, r.val))
        else:
            # comparison closure: every element must compare a constant with one and the same term
            t = None; mode = set()
            f = a[1]
            if is_const(strip(E, st, f)):
                outs = []
                for e in v[1]:
                    r = run_closure(f, e)
                    if not r.is_leaf or r.kind != 'ret' or r.val[0] not in ('A', 'B'): return None
                    outs.append(r.val)
                if name == 'slice::partition_point':
                    lo = 0; hi = len(outs)
                    while lo < hi:
                        mid = (lo + hi) // 2
                        if outs[mid][1]: lo = mid + 1
                        else: hi = mid
                    return I(lo)
                return bs([{'Less': -1, 'Equal': 0, 'Greater': 1}[o[2]] for o in outs])
            for e in v[1]:
                r = run_closure(f, e)
                if not r.is_leaf or r.kind != 'ret': return None
                x = r.val; neg = False
                if x[0] == 'X' and x[1] == 'Not': neg = True; x = x[2][0]
                if x[0] != 'X' or x[1] not in ('cmp', 'Lt', 'Le'): return None
                p, q = strip(E, st, x[2][0]), strip(E, st, x[2][1])
                if is_const(p) and not is_const(q): mode.add((x[1], 0, neg)); keys.append(p); tt = q
                elif is_const(q) and not is_const(p): mode.add((x[1], 1, neg)); keys.append(q); tt = p
                else: return None
                if t is None: t = tt
                elif t != tt: return None
            if len(mode) != 1: return None
            mode = mode.pop()
        if is_const(t):
            return bs([-1 if ordkey(k) < ordkey(t) else 0 if ordkey(k) == ordkey(t) else 1 for k in keys])
        if not is_sym(t): return None

        def outcome(k, tv):
            """ordering the closure reports for constant key k when the term is tv"""
            p, q = ordkey(k), ordkey(tv)
            return -1 if p < q else 0 if p == q else 1

        def search(tv):
            if name == 'slice::partition_point':
                lo = 0; hi = len(keys)
                while lo < hi:
                    mid = (lo + hi) // 2
                    if pp(keys[mid], tv): lo = mid + 1
                    else: hi = mid
                return I(lo)
            size = len(keys)
            if size == 0: return Err(I(0))
            base = 0
            while size > 1:
                half = size // 2; mid = base + half
                c = cmpf(keys[mid], tv)
                base = base if c > 0 else mid
                size -= half
            c = cmpf(keys[base], tv)
            if c == 0: return Ok(I(base))
            return Err(I(base + (1 if c < 0 else 0)))

        def cmpf(k, tv):
            c = outcome(k, tv)
            if name == 'slice::binary_search_by':
                if mode[0] != 'cmp': return c
                return -c if mode[1] == 1 else c
            return c

        def pp(k, tv):
            c = outcome(k, tv)      # k ? term
            if mode[1] == 1: c = -c
            r = {'Lt': c < 0, 'Le': c <= 0}.get(mode[0])
            return r != mode[2]
        if name == 'slice::binary_search_by' and mode[0] != 'cmp': return None
        if name == 'slice::partition_point' and mode[0] == 'cmp': return None
        uniq = []
        for k in keys:
            if k not in uniq: uniq.append(k)

        def chain(i):
            def g(s):
                if i == len(uniq):
                    if name == 'slice::partition_point': return gaps(s)
                    return Err(X('insertion_point', t, ty='usize'))
                return Fork(X('Eq', *sorted([t, uniq[i]], key=repr), ty='bool'), lambda s2: search(uniq[i]), chain(i + 1))
            return g

        def gaps(s):
            ks = sorted(uniq, key=ordkey)
            # position of a term that equals no key: decided by its order against the sorted keys
            def gap(j):
                def h(s2):
                    if j == len(ks): return I(len(keys)) if keys == ks else X('gap', t, ty='usize')
                    return Fork(X('Lt', t, ks[j], ty='bool'), lambda s3: I(keys.index(ks[j])) if keys == ks else X('gap', t, ty='usize'), gap(j + 1))
                return h
            return gap(0)(s)
        return chain(0)(st)


# ------------------------------------------------------------ the library
class RT:
    def __init__(self, ptr=64):
        self.dir = common.ensure_dump()
        self.p = Prog(os.path.join(self.dir, 'intl_pluralrules.json'))
        self.ptr = ptr
        self.fold_engine = Engine(self.p, M)
        self._dag = {}; self._conc = {}

    def method(self, ty, name, trait=None):
        c = [f for f in self.p.fns if f['name'] == name and f['impl_self'] == ty and (f['impl_trait'] is None if trait is None else (f['impl_trait'] or '').startswith(trait))]
        if not c: raise common.CheckError('no function %s of %s in the analysed crate' % (name, ty))
        return c[0]

    def data(self, prt):
        """{locale: {category: rule text}} of the shipped CLDR data"""
        p = os.path.join(common.REPO, 'intl_pluralrules', 'cldr_data', FILES[prt])
        d = json.load(open(p))
        out = {}
        for loc, rs in d['supplemental'][SECTION[prt]].items():
            out[loc] = {k.replace('pluralRule-count-', ''): v for k, v in rs.items()}
        return out

    def data_version(self, prt):
        p = os.path.join(common.REPO, 'intl_pluralrules', 'cldr_data', FILES[prt])
        return json.load(open(p))['supplemental']['version']['_cldrVersion']

    def create_dag(self, prt):
        if prt in self._dag: return self._dag[prt]
        f = self.method('intl_pluralrules::PluralRules', 'create')
        idt = V('id', LI)

        def hook(E, st, ft, args, term):
            if norm_path(ft['path']) == 'Into::into' and args and args[0] == V('L'): return idt
            return None
        E = Engine(self.p, M, dom=LocDom(), ptr=self.ptr, hook=hook)
        try: r = E.run_fn(f['key'], [V('L'), adt(PRT, prt)])
        except RuntimeError as e: E.leaves = 0; r = E.leaf(St([]), 'undecided', str(e))
        self._dag[prt] = (r, E)
        return r, E

    def resolve(self, prt, idval):
        """leaves of create reachable for the concrete identifier, with values folded: list of (kind, value)"""
        root, E = self.create_dag(prt)
        fold = Fold(self.fold_engine, {V('id', LI): idval})
        out = {}
        todo = [root]; seen = set()
        while todo:
            n = todo.pop()
            if id(n) in seen: continue
            seen.add(id(n))
            if n.is_leaf:
                if n.kind == 'unreachable': continue
                v = fold(n.val) if isinstance(n.val, tuple) else n.val
                out[(n.kind, v)] = True
                continue
            a = fold(n.atom)
            if a[0] == 'B': todo.append(n.t if a[1] else n.f)
            else: todo += [n.t, n.f]
        if len(out) == 1 and next(iter(out))[0] != 'undecided' and not (next(iter(out))[0] == 'ret' and not is_const(next(iter(out))[1])): return list(out)
        # not definite from the symbolic summary: summarise again for this constant identifier
        k = (prt, idval)
        if k not in self._conc:
            f = self.method('intl_pluralrules::PluralRules', 'create')

            def hook(E, st, ft, args, term):
                if norm_path(ft['path']) == 'Into::into' and args and args[0] == V('L'): return idval
                return None
            E = Engine(self.p, M, dom=LocDom(), ptr=self.ptr, hook=hook)
            try: self._conc[k] = list(dict.fromkeys((l.kind, l.val) for _, l in leaves(E.run_fn(f['key'], [V('L'), adt(PRT, prt)])) if l.kind != 'unreachable'))
            except RuntimeError as e: self._conc[k] = [('undecided', str(e))]
        return self._conc[k] or list(out)

    def locales(self, prt):
        f = self.method('intl_pluralrules::PluralRules', 'get_locales')
        E = Engine(self.p, M, dom=LocDom(), ptr=self.ptr)
        try: r = E.run_fn(f['key'], [adt(PRT, prt)])
        except RuntimeError as e: return None, str(e)
        ls = [l for _, l in leaves(r)]
        if len(ls) == 1 and ls[0].kind == 'ret' and ls[0].val[0] == 'L' and all(is_const(x) for x in ls[0].val[1]):
            return [strip(E, None, x) for x in ls[0].val[1]], None
        return None, '; '.join('%s %s' % (l.kind, show(l.val) if isinstance(l.val, tuple) else l.val) for l in ls[:3])

    def operands(self, suffix=''):
        vs = []
        t = next(a for a in self.p.d['adts'] if a['path'] == PO)
        for f in self.p.types[t['t']]['variants'][0]['fields']:
            vs.append(V(f['name'] + suffix, self.p.types[f['t']]['s']))
        return adt(PO, 'PluralOperands', *vs)

    def select_dag(self, inst, engine=None):
        """decision DAG of select on a concrete instance with symbolic, successfully converted operands"""
        f = self.method('intl_pluralrules::PluralRules', 'select')
        ops = self.operands()

        def hook(E, st, ft, args, term):
            if norm_path(ft['path']) in ('TryInto::try_into', 'TryFrom::try_from') and args and args[0] == V('N'): return Ok(ops)
            return None
        E = Engine(self.p, M, assume=False, memo=True, hook=hook, ptr=self.ptr)
        return E.run_fn(f['key'], [('R', inst), V('N')]), E
