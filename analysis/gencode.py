"""Meaning of generated token templates: tables, identifiers, rule functions."""
import re
from engine import *


class Odd(Exception):
    """a template the reader does not understand"""


def tk(t):
    """(kind, text or value)"""
    if t[2] == 'group': return ('g', t[3][0][1])
    if t[2] == 'lit': return ('l', t[3][0])
    return (t[2][0], t[3][0][1])


def text(ts):
    out = []
    for t in ts:
        if t[2] == 'group':
            d = t[3][0][1]
            out.append(d + text(t[3][1][1]) + {'(': ')', '[': ']', '{': '}', '': ''}[d])
        elif t[2] == 'lit': out.append(show(t[3][0]) + t[3][1][1])
        else: out.append(t[3][0][1])
    return ' '.join(out)


def split(ts, sep):
    out = [[]]
    for t in ts:
        if t[2] == 'punct' and t[3][0][1] == sep: out.append([])
        else: out[-1].append(t)
    return out


class P:
    """expression parser over a token list"""
    def __init__(self, ts, po='po'):
        self.t = list(ts); self.i = 0; self.po = po

    def pk(self, k=0):
        return tk(self.t[self.i + k]) if self.i + k < len(self.t) else (None, None)

    def eat(self, *xs):
        if self.pk()[0] in ('p', 'i') and self.pk()[1] in xs: self.i += 1; return True
        return False

    def end(self):
        if self.i != len(self.t): raise Odd('unexpected tokens: ' + text(self.t[self.i:])[:60])

    def expr(self): return self.or_()

    def or_(self):
        a = self.and_()
        while self.eat('||'): a = ('or', a, self.and_())
        return a

    def and_(self):
        a = self.cmp()
        while self.eat('&&'): a = ('and', a, self.cmp())
        return a

    def cmp(self):
        a = self.rng()
        k, x = self.pk()
        if k == 'p' and x in ('==', '!=', '<', '<=', '>', '>='):
            self.i += 1
            b = self.rng()
            if self.pk()[0] == 'p' and self.pk()[1] in ('==', '!=', '<', '<=', '>', '>='): raise Odd('chained comparison')
            return ('cmp', x, a, b)
        return a

    def rng(self):
        a = self.add()
        k, x = self.pk()
        if k == 'p' and x in ('..=', '..', '...'):
            self.i += 1
            return ('range', a, self.add(), x == '..=')
        return a

    def add(self):
        a = self.mul()
        while self.pk() in (('p', '+'), ('p', '-'), ('p', '|'), ('p', '&')):
            o = self.pk()[1]; self.i += 1
            a = ('bin', o, a, self.mul())
        return a

    def mul(self):
        a = self.cast()
        while self.pk() in (('p', '%'), ('p', '*'), ('p', '/')):
            o = self.pk()[1]; self.i += 1
            a = ('bin', o, a, self.cast())
        return a

    def cast(self):
        a = self.unary()
        while self.pk() == ('i', 'as'):
            self.i += 1; k, x = self.pk(); self.i += 1
            if k != 'i' or x not in ('f64', 'u64', 'usize', 'u32', 'i64', 'u128'): raise Odd('cast to %s' % x)
            a = ('as', a, x)
        return a

    def unary(self):
        if self.eat('!'): return ('not', self.unary())
        if self.eat('&'): return self.unary()
        if self.eat('*'): return self.unary()
        return self.post(self.prim())

    def post(self, a):
        while True:
            if self.pk() == ('p', '.'):
                k, x = self.pk(1)
                if k == 'l' and a[0] == 'num' and x[0] == 'I' and x[1] == 0:
                    self.i += 2; a = ('num', a[1], 'f'); continue
                if k != 'i': raise Odd('member access')
                self.i += 2
                if self.pk() == ('g', '('):
                    args = [P(z, self.po).whole() for z in split(self.t[self.i][3][1][1], ',') if z]; self.i += 1
                    if x == 'contains' and len(args) == 1 and a[0] == 'range': a = ('contains', a[1], a[2], a[3], args[0])
                    elif x == 'contains' and len(args) == 1 and a[0] == 'list': a = ('oneof', a[1], args[0])
                    elif x == 'fract' and not args: a = ('bin', '%', a, ('num', ('I', 1, 'u')))
                    else: raise Odd('method ' + x)
                elif a == ('po',):
                    if x not in ('n', 'i', 'v', 'w', 'f', 't'): raise Odd('operand ' + x)
                    a = ('fld', x)
                else: raise Odd('field ' + x)
            else: return a

    def prim(self):
        k, x = self.pk()
        if k is None: raise Odd('missing expression')
        t = self.t[self.i]; self.i += 1
        if k == 'l':
            if x[0] in ('I', 'V', 'X'): return ('num', x)
            if x[0] == 'F': return ('num', x, 'f')
            raise Odd('literal')
        if k == 'g':
            inner = t[3][1][1]
            if x in ('(', ''): return P(inner, self.po).whole()
            if x == '[': return ('list', [P(z, self.po).whole() for z in split(inner, ',') if z])
            if x == '{': return P(inner, self.po).block()
        if k == 'i':
            if x == 'if':
                c = self.expr_nostruct()
                if self.pk() != ('g', '{'): raise Odd('if without block')
                a = P(self.t[self.i][3][1][1], self.po).block(); self.i += 1
                if self.eat('else'):
                    if self.pk() == ('i', 'if'): b = self.prim()
                    elif self.pk() == ('g', '{'): b = P(self.t[self.i][3][1][1], self.po).block(); self.i += 1
                    else: raise Odd('else')
                    return ('if', c, a, b)
                raise Odd('if without else')
            if x in ('true', 'false'): return ('bool', x == 'true')
            if x == self.po: return ('po',)
            if x == 'PluralCategory' and self.pk() == ('p', '::'):
                c = self.pk(1); self.i += 2
                return ('cat', c[1])
        raise Odd('expression ' + str(x))

    def expr_nostruct(self):
        """condition of an if: up to the brace group"""
        j = self.i
        while j < len(self.t) and tk(self.t[j]) != ('g', '{'): j += 1
        e = P(self.t[self.i:j], self.po).whole(); self.i = j
        return e

    def block(self):
        e = self.expr(); self.end(); return e

    def whole(self):
        e = self.expr(); self.end(); return e


# ---------------------------------------------------------------- items
def items(ts):
    """name -> (type tokens, value tokens) of top-level const/static items, and macros"""
    out = []; macros = {}
    i = 0; n = len(ts)
    while i < n:
        k, x = tk(ts[i])
        if k == 'i' and x == 'macro_rules':
            macros[tk(ts[i + 2])[1]] = ts[i + 3][3][1][1]; i += 4; continue
        if k == 'i' and x in ('const', 'static'):
            name = tk(ts[i + 1])[1]
            j = i + 2; eq = None
            while j < n and tk(ts[j]) != ('p', ';'):
                if tk(ts[j]) == ('p', '=') and eq is None: eq = j
                j += 1
            if eq is None: raise Odd('item without a value')
            out.append((name, ts[i + 3:eq], ts[eq + 1:j])); i = j + 1; continue
        i += 1
    return out, macros


def macro_order(macros, name):
    """positions (lang, script, region) of the macro's parameters and the fixed variants argument"""
    b = macros.get(name)
    if b is None: raise Odd('macro %s not defined' % name)
    if tk(b[0])[0] != 'g': raise Odd('macro')
    params = []
    for arm in split(b[0][3][1][1], ','):
        if len(arm) < 2 or tk(arm[0]) != ('p', '$'): raise Odd('macro pattern')
        params.append(tk(arm[1])[1])

    def find(ts):
        for i, t in enumerate(ts):
            if tk(t) == ('i', 'from_raw_parts_unchecked') and i + 1 < len(ts): return ts[i + 1][3][1][1]
            if t[2] == 'group':
                r = find(t[3][1][1])
                if r is not None: return r
        return None
    call = find(b[1:])
    if call is None: raise Odd('macro body')
    order = []
    for a in split(call, ','):
        if not a: continue
        if len(a) == 2 and tk(a[0]) == ('p', '$'): order.append(params.index(tk(a[1])[1]))
        elif len(a) == 1 and tk(a[0]) == ('i', 'None'): order.append(None)
        else: raise Odd('macro body')
    return order


def subtag(ts):
    """None, or (kind, raw term, optional?)"""
    if len(ts) == 1 and tk(ts[0]) == ('i', 'None'): return None
    some = False
    if len(ts) == 2 and tk(ts[0]) == ('i', 'Some'): ts = ts[1][3][1][1]; some = True
    ws = [tk(t)[1] for t in ts if t[2] == 'ident']
    if ts[-1][2] == 'group' and ws and ws[-1] == 'from_raw_unchecked':
        inner = ts[-1][3][1][1]
        if len(inner) == 1 and inner[0][2] == 'lit': return (ws[-2], inner[0][3][0], some)
    raise Odd('subtag ' + text(ts)[:60])


def entry(t, macros):
    """((lang, script, region, variants), closure parameter, body expression)"""
    if tk(t) != ('g', '('): raise Odd('table entry')
    parts = split(t[3][1][1], ',')
    # the closure may contain commas only inside groups
    idt = parts[0]; clo = [x for p in parts[1:] for x in p]
    if tk(idt[0])[0] != 'i': raise Odd('identifier')
    if len(idt) == 3 and tk(idt[1]) == ('p', '!'):
        order = macro_order(macros, tk(idt[0])[1])
        args = [a for a in split(idt[2][3][1][1], ',') if a]
        parts_ = [None if o is None else subtag(args[o]) for o in order]
    else: raise Odd('identifier')
    if [tk(x) for x in (clo[0], clo[2])] != [('p', '|'), ('p', '|')] or tk(clo[1])[0] != 'i': raise Odd('closure')
    po = tk(clo[1])[1]
    return parts_, P(clo[3:], po).whole()


def tables(ts):
    """{'PRS_CARDINAL': [entries], ...}, version term"""
    its, macros = items(ts)
    out = {}; ver = None
    for name, ty, val in its:
        if name == 'CLDR_VERSION':
            if len(val) == 1 and val[0][2] == 'lit': ver = val[0][3][0]
            else: raise Odd('version constant')
        elif name.startswith('PRS_'):
            if name in out: raise Odd('table %s defined twice' % name)
            g = [t for t in val if t[2] == 'group']
            if len(g) != 1: raise Odd('table value')
            out[name] = [entry(e[0], macros) if len(e) == 1 else odd() for e in split(g[0][3][1][1], ',') if e]
    return out, ver


def odd(): raise Odd('table entry')


# ---------------------------------------------------------------- evaluation
def tev(t, env):
    """value of a literal term under an assignment of the symbolic literals"""
    k = t[0]
    if k in ('I', 'F'): return t[1]
    if k == 'V':
        if t[1] in env: return env[t[1]]
        raise Odd('free ' + str(t[1]))
    if k == 'X':
        op = t[1]
        if op == 'cast':
            v = tev(t[2][0], env); d = t[2][2]
            b = INT_BITS.get(d, 64)
            v &= (1 << b) - 1
            if d[0] == 'i' and v >> (b - 1): v -= 1 << b
            return v
        if op in ('i2f', 'f2f'): return tev(t[2][0], env)
        if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
            a, b = tev(t[2][0], env), tev(t[2][1], env)
            if op == 'Add': return a + b
            if op == 'Sub': return a - b
            if op == 'Mul': return a * b
            if b == 0: raise Odd('division by zero')
            return a // b if op == 'Div' else a % b
        if op == 'max' or op == 'min': return {'max': max, 'min': min}[op](tev(t[2][0], env), tev(t[2][1], env))
    raise Odd('literal term ' + show(t)[:60])


def aev(t, env):
    """truth of a path atom over symbolic literals"""
    if t[0] == 'B': return t[1]
    if t[0] == 'X':
        if t[1] == 'Not': return not aev(t[2][0], env)
        if t[1] in ('Eq', 'Lt', 'Le', 'Ne', 'Gt', 'Ge'):
            a, b = tev(t[2][0], env), tev(t[2][1], env)
            return {'Eq': a == b, 'Lt': a < b, 'Le': a <= b, 'Ne': a != b, 'Gt': a > b, 'Ge': a >= b}[t[1]]
        if t[1] == 'BitAnd': return aev(t[2][0], env) and aev(t[2][1], env)
        if t[1] == 'BitOr': return aev(t[2][0], env) or aev(t[2][1], env)
        if t[1] == 'ovf':
            a, b = tev(t[2][1], env), tev(t[2][2], env)
            r = {'Add': a + b, 'Sub': a - b, 'Mul': a * b}[t[2][0]]
            return not 0 <= r < 1 << 64
    raise Odd('path condition ' + show(t)[:60])


def comp(e, env):
    """python source of an expression over operands n,i,v,w,f,t with the literals of env filled in"""
    k = e[0]
    if k == 'or': return '(%s or %s)' % (comp(e[1], env), comp(e[2], env))
    if k == 'and': return '(%s and %s)' % (comp(e[1], env), comp(e[2], env))
    if k == 'not': return '(not %s)' % comp(e[1], env)
    if k == 'bool': return str(e[1])
    if k == 'cmp': return '(%s %s %s)' % (comp(e[2], env), e[1], comp(e[3], env))
    if k == 'bin':
        if e[1] in ('|', '&'): return '(%s %s %s)' % (comp(e[2], env), {'|': 'or', '&': 'and'}[e[1]], comp(e[3], env))
        if e[1] == '/': raise Odd('division')
        return '(%s %s %s)' % (comp(e[2], env), e[1], comp(e[3], env))
    if k == 'num': return repr(tev(e[1], env))
    if k == 'fld': return e[1]
    if k == 'contains': return '(%s <= %s %s %s)' % (comp(e[1], env), comp(e[4], env), '<=' if e[3] else '<', comp(e[2], env))
    if k == 'oneof': return '(%s)' % (' or '.join('%s == %s' % (comp(e[2], env), comp(x, env)) for x in e[1]) or 'False')
    if k == 'if': return '(%s if %s else %s)' % (comp(e[2], env), comp(e[1], env), comp(e[3], env))
    if k == 'cat': return repr(e[1])
    if k == 'as':
        if e[2] == 'f64': return comp(e[1], env)
        return 'int(%s)' % comp(e[1], env)
    raise Odd('expression ' + k)


def fn(e, env): return eval('lambda n,i,v,w,f,t: ' + comp(e, env))
