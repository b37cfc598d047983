"""Parsing-expression domain for the rule parser.

The nom combinators are modelled as parser values; applying one to a symbolic
text yields a decision graph over matches at text positions (the grammar with
its semantic actions, for all texts); applying one to an abstract sentence
(literal text with symbolic digit runs) yields the tree the parser returns.
Everything else of the crate is interpreted from its MIR."""
import re
import common
from engine import *
import engine, models
from models import M, strip, branch

PUA = 0xE000
NOM = 'nom'


def is_pua(c): return 0xE000 <= ord(c) <= 0xE0FF
def isdigit(c): return c in '0123456789' or is_pua(c)
def has_pua(s): return any(map(is_pua, s))
def P(kind, *a): return ('A', NOM, kind, tuple(a))
def NErr(k='Error'): return Err(adt('nom::internal::Err', k, X('nomerr')))
def POk(rest, out): return Ok(('T', (('R', rest), out)))


CLASS = {'digit': '0123456789', 'space': ' \t', 'multispace': ' \t\r\n', 'alpha': None, 'alphanumeric': None}


def in_class(c, cls):
    if cls == 'digit': return isdigit(c)
    if cls in ('space', 'multispace'): return c in CLASS[cls]
    if cls == 'alpha': return c.isascii() and c.isalpha()
    if cls == 'alphanumeric': return isdigit(c) or c.isascii() and c.isalnum()
    raise KeyError(cls)


# ---------------------------------------------------------------- symbolic texts
def unskip(p):
    if p[0] == 'X' and p[1] == 'skip': return p[2][0], p[2][1][1]
    return p, ''


def skip(p, l):
    b, pre = unskip(p)
    return X('skip', b, ('S', pre + l), ty='str')


def run0(cls, p):
    """text after the longest run of a class"""
    b, pre = unskip(p)
    if not pre and b[0] == 'X' and b[1] == 'run' and b[2][0][1] == cls: return p
    if not pre and b[0] == 'X' and b[1] == 'ts' and cls in ('space', 'multispace'): return p
    return X('run', ('S', cls), p, ty='str')


def tstart(p):
    b, pre = unskip(p)
    if not pre and b[0] == 'X' and (b[1] == 'ts' or b[1] == 'trim'): return p
    if not pre and b[0] == 'X' and b[1] == 'run' and b[2][0][1] in ('space', 'multispace'): return tstart(b[2][1])
    return X('ts', p, ty='str')


def at(p, lit):
    if lit == '': return TRUE
    b, pre = unskip(p)
    if not pre and b[0] == 'X':
        if b[1] == 'run' and in_class(lit[0], b[2][0][1]): return FALSE
        if b[1] == 'ts' and lit[0].isspace(): return FALSE
        if b[1] == 'trim' and not lit[-1].isspace(): return at(tstart(b[2][0]), lit)
    return X('at', b, ('S', pre + lit), ty='bool')


def isin(cls, p):
    b, pre = unskip(p)
    if not pre and b[0] == 'X':
        if b[1] == 'run' and b[2][0][1] == cls: return FALSE
        if b[1] == 'ts' and cls in ('space', 'multispace'): return FALSE
    return X('in', ('S', cls), p, ty='bool')


def empty(p):
    b, pre = unskip(p)
    if not pre and b[0] == 'X' and b[1] == 'trim': return empty(tstart(b[2][0]))
    return X('empty', p, ty='bool')


def implied(atom, assume):
    """outcome of a match atom that follows from the assumed ones"""
    if atom[0] != 'X' or atom[1] not in ('at', 'in', 'empty'): return None
    if atom[1] == 'at': b, lit = atom[2][0], atom[2][1][1]
    else: b, lit = unskip(atom[2][-1])
    known = ''; noempty = False
    for a, o in assume.items():
        if a[0] != 'X' or a[1] not in ('at', 'in', 'empty'): continue
        if a[1] == 'at':
            b2, l2 = a[2][0], a[2][1][1]
            if b2 != b: continue
            if o:
                if len(l2) > len(known): known = l2
            elif atom[1] == 'at' and lit.startswith(l2): return False
        else:
            b2, l2 = unskip(a[2][-1])
            if b2 != b: continue
            if a[1] == 'empty':
                if o and (atom[1] == 'at' and len(lit) > len(l2) and lit.startswith(l2) or atom[1] == 'in' and lit == l2): return False
            elif o:     # a character of class at offset len(l2)
                cls = a[2][0][1]
                if len(l2) > len(known): known = l2
                if atom[1] == 'at' and len(lit) > len(l2) and lit.startswith(l2) and not in_class(lit[len(l2)], cls): return False
                if atom[1] == 'in' and lit == l2:
                    c2 = atom[2][0][1]
                    if c2 == cls: return True
                    if {c2, cls} in ({'digit', 'space'}, {'digit', 'multispace'}): return False
                    if cls == 'space' and c2 == 'multispace': return True
                if atom[1] == 'empty' and l2.startswith(lit): return False
            else:
                cls = a[2][0][1]
                if atom[1] == 'at' and len(lit) > len(l2) and lit.startswith(l2) and in_class(lit[len(l2)], cls): return False
                if atom[1] == 'in' and lit == l2 and (atom[2][0][1] == cls or (atom[2][0][1], cls) == ('space', 'multispace')): return False
    if atom[1] == 'at':
        if known.startswith(lit): return True
        if not lit.startswith(known): return False
    elif atom[1] == 'in':
        if len(known) > len(lit): return in_class(known[len(lit)], atom[2][0][1]) if known.startswith(lit) else None
    elif atom[1] == 'empty':
        if len(known) > len(lit) and known.startswith(lit): return False
    return None


# ---------------------------------------------------------------- parser primitives
def prim(D, E, st, kind, arg, pos, stream=False):
    """apply a primitive; returns a tree"""
    if pos[0] == 'S': return prim_conc(D, kind, arg, pos[1], stream)
    if stream: kind = 'streaming-' + kind
    if kind == 'tag': return Fork(at(pos, arg), lambda s: POk(skip(pos, arg), ('R', ('S', arg))), lambda s: NErr())
    if kind == 'char': return Fork(at(pos, arg), lambda s: POk(skip(pos, arg), ('C', arg)), lambda s: NErr())
    if kind == 'one_of':
        def go(i):
            if i == len(arg): return lambda s: NErr()
            return lambda s: Fork(at(pos, arg[i]), lambda s2: POk(skip(pos, arg[i]), ('C', arg[i])), go(i + 1))
        return go(0)(st)
    m = re.match(r'(digit|space|multispace|alpha|alphanumeric)([01])$', kind)
    if m:
        cls = m.group(1); r = run0(cls, pos); out = ('R', X('span', ('S', cls), pos, ty='str'))
        if m.group(2) == '0': return POk(r, out)
        return Fork(isin(cls, pos), lambda s: POk(r, out), lambda s: NErr())
    if kind == 'eof': return Fork(empty(pos), lambda s: POk(pos, ('R', ('S', ''))), lambda s: NErr())
    if kind == 'rest': return POk(('S', ''), ('R', pos))
    k = ('S', kind + ':' + str(arg))
    return Fork(X('ok', k, pos, ty='bool'), lambda s: POk(X('rest', k, pos, ty='str'), ('R', X('out', k, pos, ty='str'))), lambda s: NErr())


def prim_conc(D, kind, arg, s, stream):
    more = lambda: NErr('Incomplete')
    if kind == 'tag':
        if s.startswith(arg): return POk(('S', s[len(arg):]), ('R', ('S', arg)))
        return more() if stream and arg.startswith(s) else NErr()
    if kind == 'tag_no_case':
        n = len(arg)
        if s[:n].lower() == arg.lower(): return POk(('S', s[n:]), ('R', ('S', s[:n])))
        return more() if stream and arg.lower().startswith(s.lower()) else NErr()
    if kind in ('char', 'one_of', 'none_of', 'anychar'):
        if not s: return more() if stream else NErr()
        ok = s[0] == arg if kind == 'char' else s[0] in arg if kind == 'one_of' else s[0] not in arg if kind == 'none_of' else True
        if is_pua(s[0]) and (kind == 'anychar' or any(isdigit(c) for c in arg)): raise Undecided('single digit of a symbolic number')
        return POk(('S', s[1:]), ('C', s[0])) if ok else NErr()
    m = re.match(r'(digit|space|multispace|alpha|alphanumeric)([01])$', kind)
    if m:
        n = 0
        while n < len(s) and in_class(s[n], m.group(1)): n += 1
        if stream and n == len(s): return more()
        if n == 0 and m.group(2) == '1': return NErr()
        return POk(('S', s[n:]), ('R', ('S', s[:n])))
    if kind == 'is_a' or kind == 'is_not':
        n = 0
        if any(isdigit(c) for c in arg) and has_pua(s): raise Undecided('digit set on a symbolic number')
        while n < len(s) and ((s[n] in arg) == (kind == 'is_a')): n += 1
        if stream and n == len(s): return more()
        return POk(('S', s[n:]), ('R', ('S', s[:n]))) if n else NErr()
    if kind == 'take_until':
        n = s.find(arg)
        if n < 0: return more() if stream else NErr()
        return POk(('S', s[n:]), ('R', ('S', s[:n])))
    if kind == 'take':
        if has_pua(s[:arg]): raise Undecided('take over a symbolic number')
        return POk(('S', s[arg:]), ('R', ('S', s[:arg]))) if len(s) >= arg else more() if stream else NErr()
    if kind == 'eof': return POk(('S', s), ('R', ('S', ''))) if not s else NErr()
    if kind == 'rest': return POk(('S', ''), ('R', ('S', s)))
    raise Undecided('parser ' + kind)


DIRECT = {'digit0', 'digit1', 'space0', 'space1', 'multispace0', 'multispace1', 'alpha0', 'alpha1', 'alphanumeric0', 'alphanumeric1', 'anychar', 'rest', 'eof'}
TEXTED = {'tag', 'tag_no_case', 'one_of', 'none_of', 'is_a', 'is_not', 'take_until'}


class NomDom:
    def __init__(self): self.reg = []; self.py = []; self.subruns = 0

    def range(self, E, v): return None
    def strlen(self, E, v): return None
    def decide(self, E, st, atom): return implied(atom, st.assume)

    def eq(self, E, st, a, b):
        for x, y in ((a, b), (b, a)):
            if x == ('S', '') and is_sym(y): return empty(y)
            if x[0] == 'C' and y[0] == 'C' and x[1] != y[1] and (is_pua(x[1]) and isdigit(y[1]) or is_pua(y[1]) and isdigit(x[1])): raise Undecided('digit of a symbolic number')
            if x[0] == 'S' and y[0] == 'S' and x != y and (has_pua(x[1]) or has_pua(y[1])) and any(map(isdigit, x[1])) and any(map(isdigit, y[1])): raise Undecided('comparison of symbolic numbers')
        return None

    def str_method(self, E, st, n, v, rest, cx, ty=None):
        if n == 'parse':
            t = ty
            if t is None:
                for i in range(len(cx.ft.get('args', []))): t = cx.targ(i)['s']
            if v[0] == 'S':
                s = v[1]
                if len(s) == 1 and is_pua(s): return self.number(V('num%d' % (ord(s) - PUA), 'digits'), t)
                if has_pua(s): raise Undecided('number with symbolic parts')
                if t in INT_BITS or t in ('usize', 'isize'):
                    if re.match(r'\+?[0-9]+$', s) or t[0] == 'i' and re.match(r'-[0-9]+$', s):
                        lo, hi = E.rng(t); x = int(s)
                        return Ok(('I', x, t)) if lo <= x <= hi else Err(X('int_err', v))
                    return Err(X('int_err', v))
                if t == 'f64':
                    if re.match(r'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$', s): return Ok(('F', float(s)))
                    if not re.search('[nN]', s): return Err(X('float_err', v))
                return None
            if v[0] == 'X' and v[1] == 'span' and v[2][0] == ('S', 'digit'): return self.number(X('digits', v[2][1]), t)
            return X('parse', v, t, ty='Result')
        if v[0] == 'S':
            if has_pua(v[1]) and n in ('chars', 'bytes', 'char_indices', 'as_bytes', 'is_char_boundary', 'split_at', 'repeat', 'replace') and n not in ('chars', 'char_indices'): raise Undecided(n + ' on a symbolic number')
            return None
        if not is_sym(v): return None
        if n in ('trim', 'trim_start', 'trim_left'): return ('R', tstart(v) if n != 'trim' else v if v[0] == 'X' and v[1] == 'trim' else X('trim', v, ty='str'))
        if n == 'starts_with' and rest[0][0] in ('S', 'C'): return at(v, rest[0][1])
        if n == 'strip_prefix' and rest[0][0] in ('S', 'C'):
            return Fork(at(v, rest[0][1]), lambda s: Some(('R', skip(v, rest[0][1]))), lambda s: NONE)
        return None

    def number(self, d, t):
        return Fork(X('fits', d, ('S', t or '?'), ty='bool'), lambda s: Ok(X('num', d, ty=t)), lambda s: Err(X('int_err', d)))

    # ---- parser values
    def apply(self, E, st, f, args):
        if f[0] == 'PY': return self.py[f[1]](E, st, *args)
        if f[0] == 'A' and f[1] == NOM: return self.parse(E, st, f, strip(E, st, args[0]))
        return None

    def pyfn(self, f):
        self.py.append(f); return ('PY', len(self.py) - 1)

    def sub(self, E, f, args):
        """decision graph of a call in a fresh context"""
        self.subruns += 1
        st = St([], {}, ())
        n = E.leaves; E.leaves = 0
        try:
            r = E.invoke_value(st, f, args)
            if r is None: r = E.run(st)
        finally: E.leaves = n
        return r

    def intern(self, E, f):
        d = self.sub(E, f, [('R', V('j', 'str'))])
        for lf in (n for n in dag_nodes(d) if n.is_leaf):
            if lf.kind == 'undecided': raise Undecided(lf.val)
            if lf.kind == 'ret' and lf.val[0] == 'A' and lf.val[2] == 'Err' and lf.val[3][0][0] == 'A' and lf.val[3][0][2] != 'Error': raise Undecided('cut inside a repetition')
        for i, x in enumerate(self.reg):
            if x is d or same(x, d, {}) is None: return i
        self.reg.append(d)
        return len(self.reg) - 1

    def klass(self, E, f):
        """character class of a predicate"""
        cs = [chr(i) for i in range(128)] + ['é', '٣', '\u00a0', '…']
        acc = set()
        for c in cs:
            d = self.sub(E, f, [('C', c)])
            if not d.is_leaf or d.kind != 'ret' or d.val[0] != 'B': raise Undecided('character predicate')
            if d.val[1]: acc.add(c)
        for k, s in (('digit', '0123456789'), ('space', ' \t'), ('multispace', ' \t\r\n')):
            if acc == set(s): return k
        raise Undecided('character class')

    def parse(self, E, st, p, pos):
        k = p[2]; a = p[3]
        sub = lambda q, state, i=pos: Call(q, [('R', i)], 'nomk', state)
        if k == 'prim':
            return prim(self, E, st, a[0][1], a[1][1] if len(a) > 1 else '', pos, stream=len(a) > 2 and a[2][1])
        if k == 'seq': return sub(a[0][1][0], ('seq', a, 0, ()))
        if k == 'alt': return sub(a[0][1][0], ('alt', a, 0, pos))
        if k in ('map', 'map_res', 'map_opt', 'verify', 'value', 'opt', 'peek', 'not', 'recognize', 'cut', 'complete', 'all_consuming', 'flat_map', 'map_parser', 'context'):
            return sub(a[0], (k, a, pos))
        if k == 'cond': return Fork(a[0], lambda s: sub(a[1], ('opt', a, pos)), lambda s: POk(pos, NONE))
        if k == 'success': return POk(pos, a[0])
        if k == 'take_while':
            pred, mn, neg = a[:3]
            if pos[0] == 'S': return self.tw(pred, mn[1], neg[1], pos[1], 0, a[3][1] if len(a) > 3 else None)
            if neg[1] or len(a) > 3: raise Undecided('take_till')
            return prim(self, E, st, self.klass(E, pred) + str(mn[1]), '', pos)
        if k == 'list':
            mn, mx, elem, sep = a
            if pos[0] != 'S':
                e = self.intern(E, elem); s_ = self.intern(E, sep) if sep != UNIT else '-'
                key = ('S', 'list:%s:%s:%s:%s' % (mn[1], mx[1], e, s_))
                res = lambda s: POk(X('rest', key, pos, ty='str'), X('items', key, pos))
                if mn[1] == 0: return res(st)
                return Fork(X('ok', key, pos, ty='bool'), res, lambda s: NErr())
            return sub(elem, ('list', a, pos, (), None))
        if k == 'fold':
            mn, elem, init, g = a
            if pos[0] != 'S': raise Undecided('fold over a symbolic text')
            return sub(elem, ('fold', a, pos, init, 0))
        raise Undecided('combinator ' + k)

    def tw(self, pred, mn, neg, s, n, mx=None):
        if mx is not None and has_pua(s[:n + 1]): raise Undecided('bounded run over a symbolic number')
        if n == len(s) or n == mx: return POk(('S', s[n:]), ('R', ('S', s[:n]))) if n >= mn else NErr()
        return Call(pred, [('C', s[n])], 'nomk', ('tw', pred, mn, neg, s, n, mx))


def res_parts(val):
    if val[0] != 'A' or val[1] != RES: raise Undecided('parser result %s' % show(val)[:60])
    if val[2] == 'Ok':
        t = val[3][0]
        if t[0] != 'T': raise Undecided('parser result')
        r = t[1][0]
        return True, (r[1] if r[0] == 'R' else r), t[1][1]
    e = val[3][0]
    return False, (e[2] if e[0] == 'A' else 'Error'), None


def nomk(E, st, fr, val):
    D = E.dom; s = fr.data; k = s[0]
    if k == 'map2': return POk(s[1], val)
    if k == 'res2': return branch(E, st, val, 'res', lambda q, x: POk(s[1], x), lambda q, e: NErr())
    if k == 'opt2': return branch(E, st, val, 'opt', lambda q, x: POk(s[1], x), lambda q, e: NErr())
    if k == 'ver2': return Fork(val, lambda q: POk(s[1], s[2]), lambda q: NErr())
    if k == 'flat2': return Call(val, [('R', s[1])])
    if k == 'fold2': return Call(s[1][1], [('R', s[2])], 'nomk', ('fold', s[1], s[2], val, s[3]))
    if k == 'tw':
        _, pred, mn, neg, txt, n, mx = s
        if val[0] != 'B': raise Undecided('character predicate')
        if val[1] != neg: return D.tw(pred, mn, neg, txt, n + 1, mx)
        return POk(('S', txt[n:]), ('R', ('S', txt[:n]))) if n >= mn else NErr()
    ok, rest, out = res_parts(val)
    if k == 'seq':
        _, a, i, outs = s
        if not ok: return val
        outs = outs + (out,)
        ps = a[0][1]
        if i + 1 < len(ps): return Call(ps[i + 1], [('R', rest)], 'nomk', ('seq', a, i + 1, outs))
        pick = a[1]
        if pick == UNIT: return POk(rest, ('T', outs))
        if pick[0] == 'I': return POk(rest, outs[pick[1]])
        return POk(rest, ('T', tuple(outs[x[1]] for x in pick[1])))
    if k == 'alt':
        _, a, i, pos = s
        if ok or rest != 'Error': return val
        if i + 1 < len(a[0][1]): return Call(a[0][1][i + 1], [('R', pos)], 'nomk', ('alt', a, i + 1, pos))
        return val
    a = s[1]; pos = s[2]
    if k == 'map': return Call(a[1], [out], 'nomk', ('map2', rest)) if ok else val
    if k == 'map_res': return Call(a[1], [out], 'nomk', ('res2', rest)) if ok else val
    if k == 'map_opt': return Call(a[1], [out], 'nomk', ('opt2', rest)) if ok else val
    if k == 'verify': return Call(a[1], [('R', out)], 'nomk', ('ver2', rest, out)) if ok else val
    if k == 'value': return POk(rest, a[1]) if ok else val
    if k == 'flat_map': return Call(a[1], [out], 'nomk', ('flat2', rest)) if ok else val
    if k == 'opt': return POk(rest, Some(out)) if ok else POk(pos, NONE) if rest == 'Error' else val
    if k == 'peek': return POk(pos, out) if ok else val
    if k == 'not': return NErr() if ok else POk(pos, UNIT) if rest == 'Error' else val
    if k == 'cut': return val if ok or rest != 'Error' else NErr('Failure')
    if k == 'complete': return NErr() if not ok and rest == 'Incomplete' else val
    if k == 'context': return val
    if k == 'recognize':
        if not ok: return val
        if pos[0] == 'S' and rest[0] == 'S': return POk(rest, ('R', ('S', pos[1][:len(pos[1]) - len(rest[1])])))
        return POk(rest, ('R', X('between', pos, rest, ty='str')))
    if k == 'all_consuming':
        if not ok: return val
        if rest[0] == 'S': return val if rest[1] == '' else NErr()
        return Fork(empty(rest), lambda q: val, lambda q: NErr())
    if k == 'fold':
        if not ok: return (POk(pos, s[3]) if s[4] >= a[0][1] else NErr()) if rest == 'Error' else val
        if rest == pos: return NErr()
        return Call(a[3], [s[3], out], 'nomk', ('fold2', a, rest, s[4] + 1))
    if k == 'list':
        mn, mx, elem, sep = a
        outs, back = s[3], s[4]
        if back is not None and back[0] == 'sep':           # result of the separator, tried at pos
            if not ok: return POk(pos, ('L', outs)) if rest == 'Error' else val
            if rest == pos: return NErr()
            return Call(elem, [('R', rest)], 'nomk', ('list', a, rest, outs, ('elem', pos)))
        at_ = back[1] if back else pos                         # where the list resumes if the element fails
        if not ok:
            if rest != 'Error': return val
            return POk(at_, ('L', outs)) if len(outs) >= mn[1] else val
        if rest == at_: return NErr()
        outs = outs + (out,)
        if mx[1] and len(outs) >= mx[1]: return POk(rest, ('L', outs))
        if sep == UNIT: return Call(elem, [('R', rest)], 'nomk', ('list', a, rest, outs, None))
        return Call(sep, [('R', rest)], 'nomk', ('list', a, rest, outs, ('sep',)))
    raise Undecided('combinator state ' + k)


engine.HANDLERS['nomk'] = nomk


def NV(x): return I(x)


def hook(E, st, ft, a, term):
    p = strip_generics(ft['path']).replace('::::', '::')
    if not p.startswith('nom::'):
        last = p.rsplit('::', 1)[-1]
        if a and last in ('is_empty', 'len') and p.startswith(('core::str::', 'alloc::string::')) or a and p in ('alloc::string::String::is_empty', 'alloc::string::String::len'):
            v = strip(E, st, a[0])
            if is_sym(v) and last == 'is_empty': return empty(v)
            if v[0] == 'S' and has_pua(v[1]):
                if last == 'is_empty': return FALSE
                raise Undecided('length of a text with symbolic numbers')
        if a and last.startswith(('is_', 'to_digit')) and a[0][0] in ('C', 'R', 'M'):
            v = strip(E, st, a[0])
            if v[0] == 'C' and is_pua(v[1]):
                if last in ('is_ascii_digit', 'is_digit', 'is_numeric', 'is_alphanumeric', 'is_ascii_alphanumeric', 'is_ascii'): return TRUE
                if last in ('is_whitespace', 'is_alphabetic', 'is_ascii_alphabetic', 'is_ascii_whitespace', 'is_ascii_punctuation', 'is_control'): return FALSE
                raise Undecided('digit of a symbolic number')
        if p in ('core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow') and len(a) == 1:
            v = strip(E, st, a[0])
            if v[0] in ('S', 'V', 'X'): return ('R', v)
        return None
    last = p.rsplit('::', 1)[-1]
    if last.endswith('c') and last[:-1] in ('map', 'map_res', 'opt', 'pair', 'preceded', 'many0', 'many1'): raise Undecided(p)
    stream = '::streaming::' in p
    txt = lambda v: strip(E, st, v)
    if last in DIRECT:
        if not a: raise Undecided(p)
        return prim(E.dom, E, st, last, '', txt(a[0]), stream)
    if last in TEXTED:
        v = txt(a[0])
        if v[0] == 'L' and all(x[0] == 'C' for x in v[1]): v = ('S', ''.join(x[1] for x in v[1]))
        if v[0] != 'S': raise Undecided(p + ' with a computed text')
        return P('prim', ('S', last), v, mkbool(stream))
    if last == 'char': return P('prim', ('S', 'char'), ('S', a[0][1]), mkbool(stream))
    if last == 'take': return P('prim', ('S', 'take'), a[0], mkbool(stream))
    if last in ('take_while', 'take_while1', 'take_till', 'take_till1'): return P('take_while', a[0], NV(int(last.endswith('1'))), mkbool('till' in last))
    if last == 'take_while_m_n' and a[0][0] == 'I' and a[1][0] == 'I': return P('take_while', a[2], a[0], FALSE, a[1])
    if last == 'tuple':
        if a[0][0] != 'T': raise Undecided(p)
        return P('seq', ('L', a[0][1]), UNIT)
    if last == 'parse' and 'Tuple' in p: return Call(P('seq', ('L', txt(a[0])[1]), UNIT), [a[1]])
    if last == 'alt': return P('alt', ('L', a[0][1]))
    if last == 'choice' and 'Alt' in p: return Call(P('alt', ('L', txt(a[0])[1])), [a[1]])
    if last == 'pair': return P('seq', ('L', tuple(a)), UNIT)
    if last == 'preceded': return P('seq', ('L', tuple(a)), NV(1))
    if last == 'terminated': return P('seq', ('L', tuple(a)), NV(0))
    if last == 'delimited': return P('seq', ('L', tuple(a)), NV(1))
    if last == 'separated_pair': return P('seq', ('L', tuple(a)), ('L', (NV(0), NV(2))))
    if last == 'value': return P('value', a[1], a[0])
    if last in ('map', 'map_res', 'map_opt', 'verify', 'opt', 'peek', 'not', 'recognize', 'cut', 'complete', 'all_consuming', 'flat_map', 'cond'): return P(last, *a)
    if last == 'context' and len(a) == 2: return P('context', a[1])
    if last == 'separated_nonempty_list': return P('list', NV(1), NV(0), a[1], a[0])
    if last == 'separated_list': return P('list', NV(0), NV(0), a[1], a[0])
    if last == 'many0': return P('list', NV(0), NV(0), a[0], UNIT)
    if last == 'many1': return P('list', NV(1), NV(0), a[0], UNIT)
    if last in ('fold_many0', 'fold_many1'): return P('fold', NV(int(last[-1])), *a)
    if last in ('make_error', 'from_error_kind', 'append'): return X('nomerr')
    raise Undecided('nom function ' + p)


# ---------------------------------------------------------------- comparison of decision graphs
def errfree(v):
    """result with error payloads removed"""
    if v is not None and v[0] == 'A' and v[1] == RES and v[2] == 'Err':
        e = v[3][0]
        return ('Err', e[2] if e[0] == 'A' and e[1].startswith('nom') else '')
    return v


def same(n1, n2, assume, depth=0, stat=None):
    """None if the graphs agree on every consistent assignment of their atoms, else (path, leaf1, leaf2)"""
    if n1 is n2: return None
    while not n1.is_leaf:
        d = assume.get(n1.atom)
        if d is None: d = implied(n1.atom, assume)
        if d is None: break
        n1 = n1.t if d else n1.f
    while not n2.is_leaf:
        d = assume.get(n2.atom)
        if d is None: d = implied(n2.atom, assume)
        if d is None: break
        n2 = n2.t if d else n2.f
    if n1.is_leaf and n2.is_leaf:
        if stat is not None: stat[0] += 1
        if n1 is n2 or n1.kind == n2.kind and errfree(n1.val) == errfree(n2.val): return None
        return (tuple(assume.items()), n1, n2)
    a = n1.atom if not n1.is_leaf else n2.atom
    for o in (True, False):
        r = same(n1, n2, dict(assume, **{}) | {a: o}, depth + 1, stat)
        if r is not None: return r
    return None
