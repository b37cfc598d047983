"""Token-template domain for the generator crate.

TokenStreams are sequences of token terms whose literals may be symbolic; the
`quote!` runtime, proc_macro2, serde_json::from_str (type driven), the locale
identifier type and the rule parser are modelled; everything else of the crate
is interpreted from its MIR."""
import re, os, json, struct
import common
from engine import *
import models
from models import M, strip, where, it, lst, rest, into_iter, eq_val, drain, branch, conc_str, btree_ins, cmp3

LI = 'unic_langid_impl::LanguageIdentifier'
TSP = 'proc_macro2::TokenStream'
G = dict(M)


def gm(*names):
    def d(f):
        for n in names: G[n] = f
        return f
    return d


def TS(toks=()): return ('A', TSP, 'TS', (('L', tuple(toks)),))
def toks(ts):
    if ts[0] == 'A' and ts[1] == TSP: return ts[3][0][1]
    raise Undecided('token stream expected, got %s' % (ts[0],))


def ident(s): return ('A', 'tok', 'ident', (('S', s),))
def punct(s): return ('A', 'tok', 'punct', (('S', s),))
def lit(v, suffix=''): return ('A', 'tok', 'lit', (v, ('S', suffix)))
def group(d, ts): return ('A', 'tok', 'group', (('S', d), ('L', tuple(ts))))


PUNCT = {'add': '+', 'add_eq': '+=', 'and': '&', 'and_and': '&&', 'and_eq': '&=', 'at': '@', 'bang': '!', 'caret': '^', 'caret_eq': '^=', 'colon': ':', 'colon2': '::', 'comma': ',', 'div': '/',
         'div_eq': '/=', 'dot': '.', 'dot2': '..', 'dot3': '...', 'dot_dot_eq': '..=', 'eq': '=', 'eq_eq': '==', 'ge': '>=', 'gt': '>', 'le': '<=', 'lt': '<', 'mul_eq': '*=', 'ne': '!=', 'or': '|',
         'or_eq': '|=', 'or_or': '||', 'pound': '#', 'question': '?', 'rarrow': '->', 'larrow': '<-', 'rem': '%', 'rem_eq': '%=', 'fat_arrow': '=>', 'semi': ';', 'shl': '<<', 'shl_eq': '<<=', 'shr': '>>',
         'shr_eq': '>>=', 'star': '*', 'sub': '-', 'sub_eq': '-='}
for _n, _c in PUNCT.items():
    def _mk(c):
        def f(E, st, a, cx):
            append(E, st, a[0], [punct(c)]); return UNIT
        return f
    G['quote::__private::push_' + _n] = _mk(_c)
    G['quote::__private::push_' + _n + '_spanned'] = _mk(_c)


def append(E, st, mref, ts):
    m = mref
    while E.load(st, m)[0] == 'M': m = E.load(st, m)
    v = E.load(st, m)
    E.store(st, m, TS(toks(v) + tuple(ts)))


LEX = re.compile(r'\s+|//[^\n]*|(?P<f>\d[\d_]*\.\d[\d_]*)|(?P<i>\d[\w]*)|(?P<s>"(?:[^"\\]|\\.)*")|(?P<w>[A-Za-z_]\w*)|(?P<p>\.\.=|\.\.\.|<<=|>>=|&&|\|\||==|!=|<=|>=|\.\.|::|->|=>|\+=|-=|\*=|/=|%=|[-+*/%^!&|=<>@.,;:#$?~\'])|(?P<o>[(\[{])|(?P<c>[)\]}])')


def lex(s):
    """tokens of Rust text"""
    stack = [[]]; delim = []; pos = 0
    while pos < len(s):
        m = LEX.match(s, pos)
        if not m: raise Undecided('cannot lex ' + s[pos:pos + 20])
        pos = m.end()
        k = m.lastgroup
        if k is None: continue
        x = m.group(k)
        if k == 'w': stack[-1].append(ident(x))
        elif k == 'p': stack[-1].append(punct(x))
        elif k == 'f': stack[-1].append(lit(('F', float(x.replace('_', '')))))
        elif k == 'i':
            d = re.match(r'(\d[\d_]*)(.*)$', x)
            stack[-1].append(lit(('I', int(d.group(1).replace('_', '')), 'usize'), d.group(2)))
        elif k == 's': stack[-1].append(lit(('S', x[1:-1])))
        elif k == 'o': stack.append([]); delim.append(x)
        else:
            if not delim: raise Undecided('unbalanced tokens')
            g = stack.pop(); stack[-1].append(group(delim.pop(), g))
    if delim: raise Undecided('unbalanced tokens')
    return stack[0]


@gm('proc_macro2::TokenStream::new')
def _(E, st, a, cx): return TS()
@gm('proc_macro2::Span::call_site', 'proc_macro2::Span::mixed_site')
def _(E, st, a, cx): return ('A', 'proc_macro2::Span', 'Span', ())
@gm('proc_macro2::Ident::new', 'proc_macro2::Ident::new_raw', 'quote::__private::mk_ident')
def _(E, st, a, cx):
    s = strip(E, st, a[0])
    if s[0] != 'S': raise Undecided('identifier from a symbolic name')
    return ident(s[1])
@gm('proc_macro2::TokenStream::is_empty')
def _(E, st, a, cx): return mkbool(not toks(strip(E, st, a[0])))
@gm('proc_macro2::Punct::new')
def _(E, st, a, cx): return punct(a[0][1])
@gm('proc_macro2::Group::new')
def _(E, st, a, cx): return group(DELIM[a[0][2]], toks(a[1]))
@gm('quote::__private::push_ident', 'quote::__private::push_ident_spanned')
def _(E, st, a, cx):
    s = strip(E, st, a[-1])
    append(E, st, a[0], [ident(s[1])]); return UNIT
@gm('quote::__private::push_underscore', 'quote::__private::push_underscore_spanned')
def _(E, st, a, cx): append(E, st, a[0], [ident('_')]); return UNIT
@gm('quote::__private::parse', 'quote::__private::parse_spanned')
def _(E, st, a, cx):
    append(E, st, a[0], lex(strip(E, st, a[-1])[1])); return UNIT


DELIM = {'Parenthesis': '(', 'Brace': '{', 'Bracket': '[', 'None': ''}


@gm('quote::__private::push_group', 'quote::__private::push_group_spanned')
def _(E, st, a, cx):
    inner = a[-1]; d = a[-2]
    append(E, st, a[0], [group(DELIM[d[2]], toks(inner))]); return UNIT


NUM = re.compile(r'(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|f32|f64)_(un)?suffixed$')


def literal(E, st, name, v):
    m = NUM.search(name)
    if m: return lit(v, '' if m.group(2) else m.group(1))
    if name.endswith('::string'): return lit(strip(E, st, v))
    if name.endswith('::character'): return lit(v)
    return None


def to_tokens(E, st, v):
    v = strip(E, st, v)
    if v[0] == 'A':
        if v[1] == TSP: return list(toks(v))
        if v[1] == 'tok': return [v]
        if v[1] == OPT: return to_tokens(E, st, v[3][0]) if v[3] else []
        if v[1].endswith('RepInterp'): return to_tokens(E, st, v[3][0])
        if v[1] == 'proc_macro2::TokenTree': return to_tokens(E, st, v[3][0])
    if v[0] == 'I': return [lit(v, v[2])]
    if v[0] == 'B': return [ident('true' if v[1] else 'false')]
    if v[0] in ('S', 'C', 'F'): return [lit(v)]
    return None


@gm('quote::to_tokens::ToTokens::to_tokens')
def _(E, st, a, cx):
    ts = to_tokens(E, st, a[0])
    if ts is None:
        v = strip(E, st, a[0]); t = cx.targ(0)
        while t and t['k'] in ('ref', 'ptr'): t = E.p.types[t['t']]
        if is_sym(v) and t and (t['s'] in INT_BITS or t['s'] in ('usize', 'isize')): ts = [lit(v, t['s'])]
        elif is_sym(v) and t and t['s'] in ('f64', 'f32'): ts = [lit(v, t['s'])]
        else: raise Undecided('to_tokens of %s' % show(v)[:60])
    append(E, st, a[1], ts); return UNIT
@gm('quote::to_tokens::ToTokens::into_token_stream', 'quote::to_tokens::ToTokens::to_token_stream')
def _(E, st, a, cx):
    ts = to_tokens(E, st, a[0])
    if ts is None: raise Undecided('token stream of a symbolic value')
    return TS(ts)


@gm('quote::__private::ext::RepAsIteratorExt::quote_into_iter')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] == 'A' and v[1].endswith('RepInterp'): v = strip(E, st, v[3][0])
    return ('T', (into_iter(E, st, ('R', v)), UNIT))
@gm('quote::__private::ext::RepIteratorExt::quote_into_iter')
def _(E, st, a, cx): return ('T', (a[0], UNIT))
@gm('quote::__private::ext::RepToTokensExt::quote_into_iter')
def _(E, st, a, cx): return ('T', (a[0], UNIT))
@gm('quote::__private::ext::RepToTokensExt::next')
def _(E, st, a, cx): return Some(a[0])
@gm('quote::__private::CheckHasIterator::check')
def _(E, st, a, cx): return UNIT
@gm('BitOr::bitor')
def _(E, st, a, cx):
    t = cx.targ(0)
    if t and 'quote::__private' in t['s']: return UNIT
    return None
@gm('quote::ext::TokenStreamExt::append')
def _(E, st, a, cx): append(E, st, a[0], to_tokens(E, st, a[1])); return UNIT
@gm('quote::ext::TokenStreamExt::append_all', 'quote::ext::TokenStreamExt::append_separated', 'quote::ext::TokenStreamExt::append_terminated')
def _(E, st, a, cx):
    r = rest(into_iter(E, st, a[1]))
    if r is None: raise Undecided('append of a lazy iterator')
    out = []
    sep = to_tokens(E, st, a[2]) if len(a) > 2 else []
    for i, x in enumerate(r):
        if i and cx.name.endswith('separated'): out += sep
        ts = to_tokens(E, st, x)
        if ts is None: raise Undecided('append of a symbolic value')
        out += ts
        if cx.name.endswith('terminated'): out += sep
    append(E, st, a[0], out); return UNIT


@handler
def ts_extend(E, st, fr, val):
    out = []
    for x in val[1]:
        t = to_tokens(E, st, x)
        if t is None: raise Undecided('extend with a symbolic value')
        out += t
    append(E, st, fr.data, out)
    return UNIT
@handler
def ts_collect(E, st, fr, val):
    out = []
    for x in val[1]:
        t = to_tokens(E, st, x)
        if t is None: raise Undecided('collect of a symbolic value')
        out += t
    return TS(out)


class Seq:
    """run a Drain, then a handler"""
    def __init__(self, drain, name, data): self.drain = drain; self.name = name; self.data = data


_oa = Engine.apply
def _ap(self, st, tree, from_py=False):
    if isinstance(tree, Seq):
        if from_py: st.frames.pop()
        st.frames.append(PF(tree.name, tree.data))
        return self.apply(st, tree.drain, False)
    return _oa(self, st, tree, from_py)
Engine.apply = _ap


@gm('Extend::extend', 'TokenStream::extend', 'Vec::extend', 'String::extend')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] == 'A' and v[1] == TSP:
        x = a[1]
        if x[0] == 'A' and x[1] == TSP: append(E, st, a[0], toks(x)); return UNIT
        return Seq(drain(E, into_iter(E, st, x), 'vec', ('L', ())), 'ts_extend', a[0])
    f = M.get(cx.name) or M.get('Extend::extend')
    return f(E, st, a, cx) if f else None


_collect = M['Iterator::collect']
@gm('Iterator::collect', 'FromIterator::from_iter', 'Vec::from_iter')
def _(E, st, a, cx):
    t = cx.dty if cx.term else None
    if t is not None and t['k'] == 'adt' and t['path'] == TSP:
        return Seq(drain(E, models.itarg(E, st, a[0]), 'vec', ('L', ())), 'ts_collect', None)
    if t is not None and t['k'] == 'adt' and re.search(r'Hash(Map|Set)$', t['path']):
        return Seq(drain(E, models.itarg(E, st, a[0]), 'vec', ('L', ())), 'hash_collect', None)
    return _collect(E, st, a, cx)


@handler
def hash_collect(E, st, fr, val):
    m = ('A', 'BTreeMap', 'HashMap', (('L', ()),))
    for e in val[1]:
        if e[0] != 'T': raise Undecided('hash set')
        m = models.btree_put(E, st, m, e[1][0], e[1][1])
    return hash_order(E, m)


def hash_order(E, m):
    """a hash map is an association list in an arbitrary order; the analysis is repeated for two orders"""
    es = sorted(m[3][0][1], key=lambda e: repr(e[1][0]))
    if getattr(E.dom, 'hash_rev', False): es.reverse()
    E.dom.hash_used = True
    return ('A', 'BTreeMap', 'HashMap', (('L', tuple(es)),))


def _hm(name):
    f = M.get('BTreeMap::' + name)
    def g(E, st, a, cx):
        r = f(E, st, a, cx)
        return r
    return g


for _n in ('insert', 'contains_key', 'get', 'remove', 'iter', 'keys', 'values', 'into_keys', 'into_values', 'is_empty', 'len', 'entry', 'get_mut', 'get_key_value', 'clear', 'retain'):
    if 'BTreeMap::' + _n in M: G['HashMap::' + _n] = _hm(_n)


@gm('HashMap::new', 'HashMap::with_capacity', 'HashMap::default')
def _(E, st, a, cx):
    return ('A', 'BTreeMap', 'HashMap', (('L', ()),))


_hins = G['HashMap::insert']


# ---- sorting
_cmp = M['Ord::cmp']
@gm('Ord::cmp')
def _(E, st, a, cx):
    r = cmp3(E, st, a[0], a[1])
    if r is not None: return adt(ORD, ('Less', 'Equal', 'Greater')[r + 1])
    return _cmp(E, st, a, cx)
@gm('PartialOrd::partial_cmp')
def _(E, st, a, cx):
    r = G['Ord::cmp'](E, st, a, cx)
    return Some(r)


def _ordop(op):
    def f(E, st, a, cx):
        r = cmp3(E, st, a[0], a[1])
        if r is not None: return mkbool({'Lt': r < 0, 'Le': r <= 0, 'Gt': r > 0, 'Ge': r >= 0}[op])
        x = strip(E, st, a[0]); y = strip(E, st, a[1])
        if is_sym(x) and x[0] == 'X' and (x[1] in ('fld', 'parse')):
            o = X('cmp', x, y, ty=ORD)
            return {'Lt': E.is_variant(o, 'Less'), 'Ge': E.not_(E.is_variant(o, 'Less')), 'Gt': E.is_variant(o, 'Greater'), 'Le': E.not_(E.is_variant(o, 'Greater'))}[op]
        return M['PartialOrd::' + op.lower()](E, st, a, cx)
    return f


for _o in ('Lt', 'Le', 'Gt', 'Ge'): G['PartialOrd::' + _o.lower()] = _ordop(_o)


@gm('slice::sort_unstable_by', 'slice::sort_by', 'Vec::sort_by', 'Vec::sort_unstable_by')
def _(E, st, a, cx): return sort_start(E, st, a[0], 'by', a[1])
@gm('slice::sort_unstable_by_key', 'slice::sort_by_key', 'slice::sort_by_cached_key')
def _(E, st, a, cx): return sort_start(E, st, a[0], 'key', a[1])
@gm('slice::sort', 'slice::sort_unstable')
def _(E, st, a, cx): return sort_start(E, st, a[0], 'ord', None)
@gm('slice::reverse')
def _(E, st, a, cx):
    m = a[0]
    v = E.load(st, m)
    while v[0] == 'M': m = v; v = E.load(st, m)
    if v[0] != 'L': raise Undecided('reverse of a symbolic slice')
    E.store(st, m, ('L', tuple(reversed(v[1])))); return UNIT


def sort_start(E, st, mref, mode, f):
    v = E.load(st, mref)
    while v[0] == 'M': mref = v; v = E.load(st, mref)
    if v[0] != 'L': raise Undecided('sort of a symbolic slice')
    env = {1: f} if f is not None else {}
    if mode == 'key':
        if not v[1]: return UNIT
        return Call(f, [('R', v[1][0])], 'sort_keys', ('T', (mref, ('L', ()), ('L', v[1]))), env)
    return sort_step(E, st, mode, mref, (), v[1], (), f, env, first=True)


@handler
def sort_keys(E, st, fr, val):
    mref, done, todo = fr.data[1]
    done = done[1] + (('T', (val, todo[1][0])),)
    rest_ = todo[1][1:]
    if rest_: return Call(fr.env[1], [('R', rest_[0])], 'sort_keys', ('T', (mref, ('L', done), ('L', rest_))))
    return insert_sort(E, st, mref, (), done, 0, None, 'kord')


def insert_sort(E, st, mref, out, todo, j, cur, mode):
    """insertion sort driven by ordering terms; j: index in out to compare next (from the right)"""
    if cur is None:
        if not todo:
            E.store(st, mref, ('L', tuple(x[1][1] for x in out)))
            return UNIT
        cur = todo[0]; todo = todo[1:]; j = len(out)
    if j == 0: return insert_sort(E, st, mref, (cur,) + tuple(out), todo, 0, None, mode)
    r = G['Ord::cmp'](E, st, [out[j - 1][1][0], cur[1][0]], None)
    put = lambda s: insert_sort(E, s, mref, tuple(out[:j]) + (cur,) + tuple(out[j:]), todo, 0, None, mode)
    go = lambda s: insert_sort(E, s, mref, out, todo, j - 1, cur, mode)
    return Fork(E.is_variant(r, 'Greater'), go, put)


def sort_step(E, st, mode, mref, out, todo, cur, f, env, first=False):
    if mode == 'ord': return insert_sort(E, st, mref, (), tuple(('T', (x, x)) for x in todo), 0, None, 'ord')
    # mode 'by': comparator calls
    if not todo: return UNIT
    out = (todo[0],); todo = todo[1:]
    return by_next(E, st, mref, out, todo, None, 0, env, True)


def by_next(E, st, mref, out, todo, cur, j, env, first=False):
    if cur is None:
        if not todo:
            E.store(st, mref, ('L', tuple(out))); return UNIT
        cur = todo[0]; todo = todo[1:]; j = len(out)
    if j == 0: return by_next(E, st, mref, (cur,) + tuple(out), todo, None, 0, env, first)
    data = ('T', (mref, ('L', tuple(out)), ('L', tuple(todo)), cur, I(j)))
    f = env[1]
    return Call(f, [('R', out[j - 1]), ('R', cur)], 'sort_by', data, env if first else None)


@handler
def sort_by(E, st, fr, val):
    mref, out, todo, cur, j = fr.data[1]
    out, todo, j = out[1], todo[1], j[1]
    go = lambda s: by_next(E, s, mref, out, todo, cur, j - 1, s.frames[-1].env)
    put = lambda s: by_next(E, s, mref, tuple(out[:j]) + (cur,) + tuple(out[j:]), todo, None, 0, s.frames[-1].env)
    return Fork(E.is_variant(val, 'Greater'), go, put)


# ---- identifiers
def parse_id(s):
    """unic-langid: language[-script][-region][-variant]*"""
    ps = re.split('[-_]', s)
    lang = ps.pop(0).lower(); sc = rg = None; vs = []
    if not re.fullmatch('[a-z]{2,3}|[a-z]{5,8}', lang): return None
    if ps and re.fullmatch('[A-Za-z]{4}', ps[0]): sc = ps.pop(0).title()
    if ps and re.fullmatch('[A-Za-z]{2}|[0-9]{3}', ps[0]): rg = ps.pop(0).upper()
    while ps and re.fullmatch('[A-Za-z0-9]{5,8}|[0-9][A-Za-z0-9]{3}', ps[0]): vs.append(ps.pop(0).lower())
    if ps: return None
    return mkid(lang, sc, rg, sorted(set(vs)))


def mkid(lang, sc=None, rg=None, vs=()):
    o = lambda x: Some(('S', x)) if x else NONE
    return adt(LI, 'LanguageIdentifier', o(lang if lang != 'und' else None), o(sc), o(rg), Some(('L', tuple(('S', v) for v in vs))) if vs else NONE)


def raw(s, n): return int.from_bytes(s.encode().ljust(n, b'\0'), 'little')


@gm(LI + '::into_raw_parts')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] == 'A':
        l, s, r, vs = v[3]
        f = lambda o, n, ty: Some(('I', raw(o[3][0][1], n), ty)) if o[3] else NONE
        return ('T', (f(l, 8, 'u64'), f(s, 4, 'u32'), f(r, 4, 'u32'), Some(adt('alloc::boxed::Box', 'Box', ('L', tuple(('I', raw(x[1], 8), 'u64') for x in vs[3][0][1])))) if vs[3] else NONE))
    return ('T', tuple(X('raw', v, k, ty='Option') for k in ('language', 'script', 'region', 'variants')))


@gm(LI + '::language')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] == 'A': return ('R', v[3][0][3][0] if v[3][0][3] else ('S', 'und'))
    return ('R', X('langstr', v, ty='str'))
@gm(LI + '::script', LI + '::region')
def _(E, st, a, cx):
    v = strip(E, st, a[0]); k = 1 if cx.name.endswith('script') else 2
    if v[0] == 'A': return Some(('R', v[3][k][3][0])) if v[3][k][3] else NONE
    return X('subtag', v, ('', 'script', 'region')[k], ty='Option')
@gm(LI + '::variants')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] == 'A': return lst([('R', x) for x in (v[3][3][3][0][1] if v[3][3][3] else ())])
    raise Undecided('variants of a symbolic identifier')


def id_text(v):
    out = [v[3][0][3][0][1] if v[3][0][3] else 'und']
    for k in (1, 2):
        if v[3][k][3]: out.append(v[3][k][3][0][1])
    if v[3][3][3]: out += [x[1] for x in v[3][3][3][0][1]]
    return '-'.join(out)


@gm('ToString::to_string')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] == 'A' and v[1] == TSP: return X('toktext', v, ty='str')
    if v[0] == 'A' and v[1] == LI: return ('S', id_text(v))
    if v[0] == 'S': return v
    if v[0] == 'I': return ('S', str(v[1]))
    if v[0] == 'C': return ('S', v[1])
    f = M.get('ToString::to_string')
    return f(E, st, a, cx) if f else None


def rust_int(s, ty, ptr=64):
    b = INT_BITS.get(ty, ptr)
    if not re.fullmatch(r'\+?\d+' if ty[0] == 'u' else r'[+-]?\d+', s): return None
    v = int(s)
    lo, hi = (0, (1 << b) - 1) if ty[0] == 'u' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
    return v if lo <= v <= hi else None


class GenDom:
    """domain callbacks: concrete strings, identifiers, rule texts"""
    def __init__(self, rules=None): self.rules = rules or {}; self.hash_rev = False; self.hash_used = False
    def range(self, E, v): return None
    def strlen(self, E, v): return None
    def decide(self, E, st, atom):
        return None

    def str_method(self, E, st, n, v, rest_, cx, ty=None):
        if n == 'parse':
            t = ty
            if t is None:
                for i in range(len(cx.ft.get('args', []))): t = cx.targ(i)['s']
                if cx.term and cx.dty.get('args'): t = E.p.types[cx.dty['args'][0]]['s']
            if v[0] == 'S':
                if t == LI:
                    r = parse_id(v[1])
                    return Ok(r) if r else Err(X('lid_err', v))
                if t == TSP: return Ok(TS(lex(v[1])))
                if t in INT_BITS or t in ('usize', 'isize'):
                    r = rust_int(v[1], t)
                    return Ok(('I', r, t)) if r is not None else Err(X('int_err', v))
            if is_sym(v): return X('parse', v, t, ty='Result')
        return None


@gm(LI + '::from_bytes', LI + '::from_str')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] == 'S':
        r = parse_id(v[1]); return Ok(r) if r else Err(X('lid_err', v))
    return X('parse', v, LI, ty='Result')


# ---- the JSON resource, decoded by type
class Bad(Exception): pass


def fields_json(p, path):
    """of a struct with a derived Deserialize: ({JSON key: field index}, keys whose absence is an error, whether unknown keys are refused); None if not understood"""
    if (id(p), path) in _fj: return _fj[(id(p), path)][1]
    keys = None; req = set(); vs = None; custom = False; dfs = set()
    for k, b in p.bodies.items():
        if not b.local or 'Deserialize' not in k or ('for %s>' % path) not in k: continue
        if '__FieldVisitor' in k and '::visit_str' in k: vs = k
        if '__DeserializeWith' in k: custom = True
        for bl in b.blocks:
            if not bl or bl['t']['t'] != 'call': continue
            ft = p.types[bl['t']['ft']]
            if ft['k'] != 'fndef': continue
            if ft['path'].endswith('deserialize_struct'):
                v = bl['t']['args'][2]
                if v['o'] == 'c':
                    l = p.const_value(v['v'], v['t'])
                    while l[0] == 'R': l = l[1]
                    if l[0] == 'L': keys = [x[1][1] if x[0] == 'R' else x[1] for x in l[1]]
            if ft['path'].endswith('missing_field') and 'visit_map' in b.key:
                v = bl['t']['args'][0]
                if v['o'] == 'c': req.add(p.const_value(v['v'], v['t'])[1][1])
            if 'visit_map' in b.key and ft.get('key') in p.bodies and p.bodies[ft['key']].local and 'Deserialize' not in ft['key']: dfs.add(ft['key'])   # default = "function"
    r = None
    if keys is not None and vs is not None and not custom:
        m = {}; deny = None
        for k in keys + ['\x00']:
            n = Engine(p, M).run_fn(vs, [UNIT, ('R', ('S', k))])
            if not n.is_leaf or n.kind != 'ret' or n.val[0] != 'A': m = None; break
            x = n.val
            if x[2] == 'Ok' and x[3][0][0] == 'A': x = x[3][0][2]
            else: x = 'Err'
            if k == '\x00': deny = x == 'Err'
            elif x.startswith('__field'): m[k] = int(x[7:])
        if m: r = (m, req, deny, sorted(dfs))
    _fj[(id(p), path)] = (p, r)
    return r


_fj = {}


def field_default(E, ft, dfs, tys):
    """default of an optional field: Default, or the one function that can supply it"""
    if not dfs: return models.default_of(E, ft)
    if len(dfs) > 1 or len(tys) != 1: raise Undecided('default functions of a deserialised struct')
    n = Engine(E.p, M).run_fn(dfs[0], [])
    if not n.is_leaf or n.kind != 'ret': raise Undecided('default function ' + dfs[0])
    return n.val


def decode(E, t, j):
    """value of type t for JSON j (python value; strings may be engine terms)"""
    T = E.p.types
    k = t['k']
    if k == 'adt':
        pth = t['path']
        if pth == 'alloc::string::String':
            if isinstance(j, str): return ('S', j)
            if isinstance(j, tuple): return j
            raise Bad('string expected')
        if pth == OPT: return NONE if j is None else Some(decode(E, T[t['args'][0]], j))
        if pth == 'alloc::boxed::Box': return adt('alloc::boxed::Box', 'Box', decode(E, T[t['args'][0]], j))
        if pth.endswith('BTreeMap') or pth.endswith('HashMap'):
            if not isinstance(j, list) and not isinstance(j, dict): raise Bad('map expected')
            es = list(j.items()) if isinstance(j, dict) else j      # a list of pairs: symbolic keys in key order
            es = [(decode(E, T[t['args'][0]], x), decode(E, T[t['args'][1]], y)) for x, y in es]
            if all(x[0] == 'S' for x, _ in es): es.sort(key=lambda e: e[0][1].encode())
            m = ('A', 'BTreeMap', 'BTreeMap', (('L', tuple(('T', e) for e in es)),))
            return m if pth.endswith('BTreeMap') else hash_order(E, m)
        if pth == 'alloc::vec::Vec':
            if not isinstance(j, list): raise Bad('array expected')
            return ('L', tuple(decode(E, T[t['args'][0]], x) for x in j))
        if not t['enum'] and t.get('local'):
            if not isinstance(j, dict): raise Bad('object expected')
            fj = fields_json(E.p, pth)
            fs = t['variants'][0]['fields']
            if fj is None or any(i >= len(fs) for i in fj[0].values()): raise Undecided('deserialisation of %s' % pth)
            keys, req, deny, dfs = fj
            if deny and any(k not in keys for k in j): raise Bad('unknown field')
            out = []
            for i, f in enumerate(fs):
                ft = T[f['t']]
                ks = [k for k in keys if keys[k] == i]; at = [k for k in ks if k in j]
                if len(at) > 1: raise Bad('duplicate field')
                if at: out.append(decode(E, ft, j[at[0]]))
                elif not any(k in req for k in ks): out.append(field_default(E, ft, dfs, [f2['t'] for i2, f2 in enumerate(fs) if not any(keys[k] == i2 and k in req for k in keys)]))
                elif ft['k'] == 'adt' and ft['path'] == OPT: out.append(NONE)
                else: raise Bad('missing %s' % ks)
            return ('A', pth, t['variants'][0]['name'], tuple(out))
    raise Undecided('deserialisation into ' + t['s'])


class Trail:
    """a valid JSON text followed by further text"""
    def __init__(self, j): self.j = j


def decode_res(E, t, v, whole):
    """Result of decoding the JSON text v (whole: text behind the value is an error)"""
    j = E.dom.json[v[3][0][1]]
    if isinstance(j, Trail):
        if whole: return Err(X('json_err', ('S', 'trailing characters')))
        j = j.j
    if j is Bad: return Err(X('json_err', v))
    if t['k'] == 'adt' and t['path'] == 'serde_json::value::Value': return Ok(('A', 'jsonval', 'jsonval', v[3]))
    try: return Ok(decode(E, t, j))
    except Bad as e: return Err(X('json_err', ('S', str(e))))


def ok_type(E, term):
    t = E.p.types[term['dt']] if term else None
    if t and t['k'] == 'adt' and t['path'] == RES: return E.p.types[t['args'][0]]
    return None


def is_json(v, *ks): return v[0] == 'A' and v[1] in ks


@gm('serde_json::de::from_str', 'serde_json::from_str', 'serde_json::de::from_slice', 'serde_json::de::from_reader', 'serde_json::value::from_value')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    t = (ok_type(E, cx.term) if cx.term else None) or cx.targ(len(cx.ft['args']) - 1)
    if is_json(v, 'json', 'jsonval'): return decode_res(E, t, v, v[1] == 'json')
    raise Undecided('JSON text')


def json_calls(E, st, ft, args, term):
    """streaming deserialisers and JSON trees; texts of inputs only passed through"""
    p = ft['path']
    if not args: return None
    try: v = strip(E, st, args[0])
    except Undecided: return None
    if not is_json(v, 'json', 'jsonval', 'jsonde', 'jsonstream'): return None
    m = p.rsplit('::', 1)[-1]
    if v[1] == 'json':
        if p.startswith('serde_json::') and 'Deserializer' in p and m in ('from_str', 'from_slice', 'from_reader'): return ('A', 'jsonde', 'jsonde', v[3])
        if m in ('as_bytes', 'trim', 'trim_start', 'trim_end', 'as_str', 'as_ref', 'borrow', 'deref', 'trim_start_matches') and (m != 'trim_start_matches' or 'feff' in repr(args[1:])): return ('R', v)
        if m in ('to_string', 'to_owned', 'clone', 'into', 'into_bytes', 'to_vec') or p.endswith('String as core::convert::From<&str>>::from'): return v
        if m == 'is_empty': return models.mkbool(False)
        return None
    if m == 'deserialize' and v[1] in ('jsonval', 'jsonde'):
        t = ok_type(E, term)
        if t is not None: return decode_res(E, t, v, False)
    if v[1] == 'jsonde' and m == 'end':
        return Err(X('json_err', ('S', 'trailing characters'))) if isinstance(E.dom.json[v[3][0][1]], Trail) else Ok(UNIT)
    if v[1] == 'jsonde' and m == 'into_iter' and p.startswith('serde_json'): return ('A', 'jsonstream', 'jsonstream', v[3] + (I(0),))
    if v[1] == 'jsonstream' and m == 'into_iter': return v
    if v[1] == 'jsonstream' and m == 'next':
        t = E.p.types[term['dt']] if term else None
        t = E.p.types[E.p.types[t['args'][0]]['args'][0]] if t and t['k'] == 'adt' and t['path'] == OPT else None
        if t is None or args[0][0] != 'M': return None
        n = v[3][1][1]
        E.store(st, args[0], v[:3] + ((v[3][0], I(n + 1)),))
        if n == 0: return Some(decode_res(E, t, v, False))
        return Some(Err(X('json_err', v))) if n == 1 and isinstance(E.dom.json[v[3][0][1]], Trail) else NONE
    return None


# ---- the rule parser
AST = 'cldr_pluralrules_parser::ast::'
OPS = {'=': 'EQ', '!=': 'NotEQ', 'is': 'Is', 'is not': 'IsNot', 'in': 'In', 'not in': 'NotIn', 'within': 'Within', 'not within': 'NotWithin'}
RTOK = re.compile(r'\s*(\.\.|!=|[=%,]|[a-z]+|\d+)')
BASE = 9000000      # numbers from here on stand for symbolic literals


def num(k): return V('a%d' % (k - BASE), 'usize') if BASE <= k < BASE + 1000 else I(k)


def parse_cond(text):
    """reference reading of a condition -> engine value of the parser's tree, or None"""
    c = text.split('@')[0].strip()
    if not c: return adt(AST + 'Condition', 'Condition', ('L', ()))
    ts = []; pos = 0
    while pos < len(c):
        m = RTOK.match(c, pos)
        if not m: return None
        ts.append(m.group(1)); pos = m.end()
    i = 0
    try:
        ors = []
        while True:
            ands = []
            while True:
                op = ts[i]; i += 1
                if op not in 'nivwft': return None
                mod = NONE
                if ts[i] in ('%', 'mod'): mod = Some(adt(AST + 'Modulo', 'Modulo', adt(AST + 'Value', 'Value', num(int(ts[i + 1]))))); i += 2
                o = ts[i]; i += 1
                if o in ('is', 'not') and ts[i] in ('not', 'in', 'within'): o += ' ' + ts[i]; i += 1
                if o not in OPS: return None
                items = []
                while True:
                    lo = adt(AST + 'Value', 'Value', num(int(ts[i]))); i += 1
                    if i < len(ts) and ts[i] == '..':
                        items.append(adt(AST + 'RangeListItem', 'Range', adt(AST + 'Range', 'Range', lo, adt(AST + 'Value', 'Value', num(int(ts[i + 1])))))); i += 2
                    else: items.append(adt(AST + 'RangeListItem', 'Value', lo))
                    if i < len(ts) and ts[i] == ',': i += 1
                    else: break
                ands.append(adt(AST + 'Relation', 'Relation', adt(AST + 'Expression', 'Expression', adt(AST + 'Operand', op.upper()), mod), adt(AST + 'Operator', OPS[o]), adt(AST + 'RangeList', 'RangeList', ('L', tuple(items)))))
                if i < len(ts) and ts[i] == 'and': i += 1
                else: break
            ors.append(adt(AST + 'AndCondition', 'AndCondition', ('L', tuple(ands))))
            if i < len(ts) and ts[i] == 'or': i += 1
            else: break
        return adt(AST + 'Condition', 'Condition', ('L', tuple(ors))) if i == len(ts) else None
    except (IndexError, ValueError): return None


@gm('cldr_pluralrules_parser::parse_plural_condition', 'cldr_pluralrules_parser::parse_plural_rule')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] == 'S':
        r = parse_cond(v[1])
        if r is None: return Err(('S', 'bad'))
        return Ok(r if cx.name.endswith('condition') else adt(AST + 'Rule', 'Rule', r, NONE))
    raise Undecided('rule text %s' % show(v)[:60])


class Gen:
    """abstract interpretation of generate_rs"""
    def __init__(self):
        import c_eff
        self.p = c_eff.load('make_pluralrules')
        self.key = 'make_pluralrules::generate_rs'
        if self.key not in self.p.bodies: raise common.CheckError('generate_rs not found')
        self.visited = set(); self.runs = 0; self.calls = 0; self.unknown = {}

    def run(self, jsons, hash_rev=False, **kw):
        dom = GenDom(); dom.json = jsons; dom.hash_rev = hash_rev
        E = Engine(self.p, G, dom, hook=self.hook, **dict(dict(max_steps=300000, max_leaves=20000), **kw))
        arg = ('R', ('L', tuple(('A', 'json', 'json', (('I', i, 'usize'),)) for i in range(len(jsons)))))
        r = E.run_fn(self.key, [arg])
        self.visited |= E.visited; self.runs += 1; self.calls += E.calls_seen
        for k, n in E.unknown_calls.items(): self.unknown[k] = self.unknown.get(k, 0) + n
        self.last = E
        return r

    def hook(self, E, st, ft, args, term):
        p = ft['path']
        if p.startswith('proc_macro2::Literal::'):
            r = literal(E, st, p, args[0])
            if r is not None: return r
        return json_calls(E, st, ft, args, term)
