"""Path-sensitive abstract interpreter over dumped MIR.

The engine walks the MIR of one function (inlining local callees and library
adaptors) over a domain of terms and produces a decision DAG:

    node: atom, t (if true), f (if false)
    leaf: kind (ret | panic | undecided | exit | unreachable), val, trace

Atoms are boolean terms over the function's symbolic inputs.  No code of the
analysed crate is executed and no solver is involved; clients compare the DAG
with their specification.
"""
import json, re, sys, functools
sys.setrecursionlimit(100000)

UNIT = ('T', ())
TRUE = ('B', True)
FALSE = ('B', False)

INT_BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128}


import os
DEBUG = os.environ.get('PR_DEBUG')


class Undecided(Exception):
    pass


def I(v, ty='usize'):
    return ('I', v, ty)


def X(op, *args, ty=None):
    return ('X', op, tuple(args), ty)


def V(name, ty=None):
    return ('V', name, ty)


def adt(path, variant, *fields):
    return ('A', path, variant, tuple(fields))


OPT = 'core::option::Option'
RES = 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'
ORD = 'core::cmp::Ordering'


def Some(x): return adt(OPT, 'Some', x)
NONE = adt(OPT, 'None')
def Ok(x): return adt(RES, 'Ok', x)
def Err(x): return adt(RES, 'Err', x)
def mkbool(b): return TRUE if b else FALSE


def is_sym(v): return v[0] in ('X', 'V')


def children(v):
    t = v[0]
    if t == 'X': return v[2]
    if t in ('T', 'L'): return v[1]
    if t == 'A': return v[3]
    if t == 'R': return (v[1],)
    if t == 'CL': return v[2]
    return ()


def subterms(v, seen=None):
    """all sub-values (including itself)"""
    if seen is None: seen = set()
    if not isinstance(v, tuple) or v in seen: return seen
    seen.add(v)
    for c in children(v):
        if isinstance(c, tuple): subterms(c, seen)
    return seen


def mentions(v, pred):
    return any(pred(s) for s in subterms(v))


def subst(v, m, memo=None):
    if memo is None: memo = {}
    if v in m: return m[v]
    if v in memo: return memo[v]
    t = v[0]
    if t == 'X': r = ('X', v[1], tuple(subst(c, m, memo) if isinstance(c, tuple) and c and isinstance(c[0], str) else c for c in v[2]), v[3])
    elif t in ('T', 'L'): r = (t, tuple(subst(c, m, memo) for c in v[1]))
    elif t == 'A': r = ('A', v[1], v[2], tuple(subst(c, m, memo) for c in v[3]))
    elif t == 'R': r = ('R', subst(v[1], m, memo))
    elif t == 'CL': r = ('CL', v[1], tuple(subst(c, m, memo) for c in v[2]))
    else: r = v
    memo[v] = r
    return r


def show(v, d=0):
    """readable rendering of a value"""
    if not isinstance(v, tuple) or not v: return repr(v)
    t = v[0]
    if t == 'I': return str(v[1])
    if t == 'B': return 'true' if v[1] else 'false'
    if t == 'C': return repr(v[1])
    if t == 'F': return repr(v[1])
    if t == 'S': return json.dumps(v[1])
    if t == 'V': return str(v[1])
    if t == 'R': return '&' + show(v[1], d + 1)
    if t == 'M': return '&mut _%s' % (v[2],)
    if t == 'T': return '(' + ', '.join(show(x, d + 1) for x in v[1]) + ')'
    if t == 'L':
        if len(v[1]) > 8: return '[%s, ... %d items]' % (', '.join(show(x, d + 1) for x in v[1][:3]), len(v[1]))
        return '[' + ', '.join(show(x, d + 1) for x in v[1]) + ']'
    if t == 'A':
        n = v[2]
        return n + ('(' + ', '.join(show(x, d + 1) for x in v[3]) + ')' if v[3] else '')
    if t == 'X':
        inf = {'Eq': '==', 'Ne': '!=', 'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>=', 'Add': '+', 'Sub': '-', 'Mul': '*', 'Rem': '%', 'Div': '/', 'BitAnd': '&', 'BitOr': '|'}
        if v[1] in inf and len(v[2]) == 2: return '(%s %s %s)' % (show(v[2][0], d + 1), inf[v[1]], show(v[2][1], d + 1))
        if v[1] == 'Not': return '!' + show(v[2][0], d + 1)
        if v[1] == 'fld': return '%s.%s' % (show(v[2][0], d + 1), v[2][1])
        return '%s(%s)' % (v[1], ', '.join(show(x, d + 1) if isinstance(x, tuple) else str(x) for x in v[2]))
    if t == 'FN': return 'fn:' + v[1]
    if t == 'CL': return 'closure:' + v[1].rsplit('::', 2)[-2] + '::' + v[1].rsplit('::', 1)[-1]
    return repr(v)


def strip_generics(p):
    out = []; d = 0
    for i, c in enumerate(p):
        if c == '<':
            d += 1
        elif c == '>' and p[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out)


IMPL = re.compile(r"<impl ([^<>]*?(?:<[^<>]*>)?[^<>]*?)>")


def norm_path(p):
    """core::option::Option::<T>::is_some -> Option::is_some; core::str::<impl str>::find -> str::find"""
    crate = p.lstrip('<&').split('::')[0]
    m = re.search(r'<impl (.*?)>::(\w+)$', p)
    if m and ' for ' not in m.group(1) and p.split('::')[0] in ('core', 'alloc', 'std'):
        t = m.group(1)
        if t.startswith('['): t = 'slice'
        elif t in INT_BITS or t in ('usize', 'isize'): t = 'int'
        elif t in ('f64', 'f32'): t = 'float'
        elif t.startswith('*'): t = 'ptr'
        return t + '::' + m.group(2)
    if p.startswith('<'):
        return p
    q = strip_generics(p)
    q = re.sub(r'::(::)+', '::', q)
    if crate in ('core', 'alloc', 'std'):
        segs = [s for s in q.split('::') if s]
        return '::'.join(segs[-2:])
    return re.sub(r'::+', '::', q)


def unbox(blocks):
    """accesses through the raw pointer of a Box become accesses to the content (field 0) of the Box value"""
    ptr = {}
    for b in blocks:
        if b is None: continue
        keep = []
        for s in b['s']:
            r = s.get('rv')
            if r and r['r'] == 'cast' and r.get('k') == 'BoxDerefTransmute' and r['a']['o'] in ('cp', 'mv') and not s['p'][1] and r['a']['p'][1] and r['a']['p'][1][-1][0] == 'f':
                q = r['a']['p']; ptr[s['p'][0]] = [q[0], q[1][:-1] + [['f', 0, r['t']]]]
                continue
            keep.append(s)
        b['s'] = keep
    if not ptr: return

    def walk(x):
        if isinstance(x, dict):
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and x[0] in ptr and x[1] and x[1][0] == ['*']:
                rest = x[1][1:]
                if len(rest) >= 2 and rest[0][0] == 'f' and rest[0][1] == 1 and rest[1][0] == 'f' and rest[1][1] == 0: rest = rest[2:]     # MaybeUninit.value.value
                x[0], x[1] = ptr[x[0]][0], ptr[x[0]][1] + rest
            for v in x: walk(v)
    for b in blocks:
        if b is not None: walk(b)


class Body:
    __slots__ = ('key', 'j', 'local', 'blocks', 'locals', 'argc', 'path', 'span', '_live', '_preds', 'addr_taken', 'generic', 'closure')

    def __init__(self, key, j):
        self.key = key; self.j = j; self.local = j['local']; self.blocks = j['blocks']; self.locals = j['locals']
        self.argc = j['argc']; self.path = j['path']; self.span = j['span']; self._live = None; self._preds = None
        self.generic = j['generic']; self.closure = j['closure']
        unbox(self.blocks)

    def succs(self, i):
        b = self.blocks[i]
        if b is None: return []
        t = b['t']; k = t['t']
        if k in ('goto', 'drop', 'assert'): return [t['to']]
        if k == 'switch': return [x[1] for x in t['vs']] + [t['else']]
        if k == 'call': return [t['to']] if t['to'] is not None else []
        return []

    def preds(self):
        if self._preds is None:
            self._preds = [0] * len(self.blocks)
            for i in range(len(self.blocks)):
                for s in self.succs(i): self._preds[s] += 1
        return self._preds

    def live(self):
        """locals live at block entry; locals ever mutably borrowed count as live"""
        if self._live is not None: return self._live
        n = len(self.blocks)
        use = [set() for _ in range(n)]; deff = [set() for _ in range(n)]
        self.addr_taken = set()

        def up(p, i):
            if p[0] not in deff[i]: use[i].add(p[0])
            for e in p[1]:
                if e[0] == 'i' and e[1] not in deff[i]: use[i].add(e[1])

        def uo(o, i):
            if o['o'] in ('cp', 'mv'): up(o['p'], i)

        for i, b in enumerate(self.blocks):
            if b is None: continue
            for s in b['s']:
                if 'rv' in s:
                    r = s['rv']
                    for k in ('a', 'b'):
                        if k in r and isinstance(r[k], dict): uo(r[k], i)
                    if 'ops' in r:
                        for o in r['ops']: uo(o, i)
                    if 'p' in r:
                        up(r['p'], i)
                        if r['r'] == 'ref' and r['mut']: self.addr_taken.add(r['p'][0])
                if 'p' in s:
                    if s['p'][1]: up(s['p'], i)
                    else: deff[i].add(s['p'][0])
            t = b['t']
            for k in ('d', 'f', 'c'):
                if k in t and isinstance(t[k], dict): uo(t[k], i)
            for o in t.get('args', []) + t.get('ops', []): uo(o, i)
            if t['t'] == 'call':
                if t['dst'][1]: up(t['dst'], i)
            if t['t'] == 'ret' and 0 not in deff[i]: use[i].add(0)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in self.succs(i): o |= live[s]
                t = self.blocks[i]['t'] if self.blocks[i] else {}
                if t.get('t') == 'call' and not t['dst'][1]: o = o - {t['dst'][0]}
                nw = use[i] | (o - deff[i])
                if nw != live[i]: live[i] = nw; ch = True
        self._live = [frozenset(l | self.addr_taken) for l in live]
        return self._live


class Prog:
    def __init__(self, path):
        self.d = json.load(open(path))
        self.types = self.d['types']
        self.bodies = {k: Body(k, b) for k, b in self.d['bodies'].items()}
        self.consts = self.d['consts']
        self.fns = self.d['fns']
        self.statics = {s['path']: s for s in self.d['statics']}
        self.adts = {a['path']: a for a in self.d['adts']}
        self.tidx = {}
        for i, t in enumerate(self.types):
            self.tidx.setdefault(t['s'], i)
        self._cv = {}

    def T(self, i): return self.types[i]

    def const_value(self, c, tid):
        """decode a dumped constant into an engine value"""
        t = self.types[tid]
        if 'named' in c:
            k = c['named']
            if k not in self._cv:
                e = self.consts[k]
                self._cv[k] = self.const_value(e['v'], e['t'])
            return self._cv[k]
        if 'v' in c:
            return ('I', c['v'], t.get('n', 'usize'))
        if 'b' in c: return mkbool(c['b'])
        if 'c' in c: return ('C', chr(c['c']))
        if 'f' in c: return ('F', float(c['f']) if not c['f'].startswith('bits') else c['f'])
        if 'str' in c: return ('S', c['str'])
        if 'ref' in c: return ('R', self.const_value(c['ref'], t['t']) if 't' in t and t['k'] in ('ref', 'ptr') else V('?const'))
        if 'tup' in c:
            ts = t['ts'] if t['k'] == 'tuple' else None
            return ('T', tuple(self.const_value(x, ts[i]) for i, x in enumerate(c['tup'])))
        if 'arr' in c:
            et = c['et']
            return ('L', tuple(self.const_value(x, et) for x in c['arr']))
        if 'fn' in c: return ('CL', c['fn'], ()) if c.get('closure') else ('FNK', c['fn'])
        if 'static' in c:
            sd = self.statics.get(c['static'])
            if sd is not None and not sd['mut'] and sd['freeze'] and not sd['tls'] and sd['v'] is not None:
                k = 'static ' + c['static']
                if k not in self._cv: self._cv[k] = self.const_value(sd['v'], sd['t'])
                return ('R', self._cv[k])
            return X('static', c['static'])
        if 'adt' in c:
            v = next(x for x in t['variants'] if x['name'] == c['var'])
            return ('A', t['path'], c['var'], tuple(self.const_value(x, v['fields'][i]['t']) for i, x in enumerate(c['fs'])))
        if 'zst' in c:
            return self.zst(c['zst'])
        if 'clos' in c: return ('CL', t['key'], tuple(V('?cap') for _ in t['up']))
        return X('const', json.dumps(c)[:200], ty=t['s'])

    def zst(self, tid):
        t = self.types[tid]
        if t['k'] == 'fndef': return ('FN', t['path'], tid)
        if t['k'] == 'closure': return ('CL', t['key'], ())
        if t['k'] == 'tuple': return UNIT
        if t['k'] == 'adt' and not t['enum'] and t['variants'] and not t['variants'][0]['fields']:
            return ('A', t['path'], t['variants'][0]['name'], ())
        return X('zst', t['s'])


class Nd:
    """interned decision node (atom, t, f) or leaf (kind, val, trace)"""
    __slots__ = ('atom', 't', 'f', 'kind', 'val', 'trace')

    @property
    def is_leaf(self): return self.atom is None


class MF:
    __slots__ = ('body', 'bb', 'env', 'dst', 'to')

    def __init__(self, body, bb, env, dst=None, to=None):
        self.body = body; self.bb = bb; self.env = env; self.dst = dst; self.to = to

    def clone(self): return MF(self.body, self.bb, dict(self.env), self.dst, self.to)


class PF:
    __slots__ = ('name', 'data', 'env')

    def __init__(self, name, data, env=None): self.name = name; self.data = data; self.env = env or {}

    def clone(self): return PF(self.name, self.data, dict(self.env))


class St:
    __slots__ = ('frames', 'assume', 'trace')

    def __init__(self, frames, assume=None, trace=()):
        self.frames = frames; self.assume = assume if assume is not None else {}; self.trace = trace

    def clone(self): return St([f.clone() for f in self.frames], dict(self.assume), self.trace)


# model results
class Fork:
    def __init__(self, atom, t, f): self.atom = atom; self.t = t; self.f = f   # t, f: functions st -> tree


class Call:
    def __init__(self, callee, args, name=None, data=None, env=None):
        self.callee = callee; self.args = args; self.name = name; self.data = data; self.env = env


class Panic:
    def __init__(self, msg): self.msg = msg


class Exit:
    def __init__(self, v): self.v = v


class Invoke:
    """inline this body key"""
    def __init__(self, key, args): self.key = key; self.args = args


CMP = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'}


def has_mut(v):
    """does a value hold a mutable reference anywhere (closure captures, tuples, options)"""
    if not isinstance(v, tuple) or not v: return False
    if v[0] == 'M': return True
    return any(has_mut(c) for c in v[1:] if isinstance(c, tuple)) if isinstance(v[0], str) else any(has_mut(c) for c in v)


class Engine:
    def __init__(self, prog, models, dom=None, ptr=64, assume=True, memo=False, opaque=(), max_steps=400000, max_leaves=60000, hook=None, max_conds=400):
        self.p = prog; self.models = models; self.dom = dom; self.ptr = ptr; self.use_assume = assume; self.use_memo = memo
        self.opaque = set(opaque); self.max_steps = max_steps; self.steps = 0; self.memo = {}; self.hook = hook
        self.leaves = 0; self.max_leaves = max_leaves; self.unknown_calls = {}; self.visited = set(); self.calls_seen = 0
        self.max_conds = max_conds; self.nodes = {}

    # ---- integer helpers
    def bits(self, ty):
        if ty in INT_BITS: return INT_BITS[ty]
        if ty in ('usize', 'isize'): return self.ptr
        return None

    def rng(self, ty):
        b = self.bits(ty)
        if b is None: return None
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if ty[0] == 'i' else (0, (1 << b) - 1)

    def wrap(self, v, ty):
        b = self.bits(ty)
        v &= (1 << b) - 1
        if ty[0] == 'i' and v >> (b - 1): v -= 1 << b
        return v

    # ---- terms
    def cmp(self, op, a, b, ty=None):
        if a[0] in ('I', 'F', 'C', 'B') and b[0] in ('I', 'F', 'C', 'B') and a[0] == b[0]:
            x, y = a[1], b[1]
            return mkbool({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op])
        isf = (ty or '').startswith('f') or a[0] == 'F' or b[0] == 'F'
        if a == b and not isf:
            return mkbool(op in ('Eq', 'Le', 'Ge'))
        if op == 'Ne': return self.not_(self.cmp('Eq', a, b, ty))
        if op == 'Gt': return self.cmp('Lt', b, a, ty)
        if op == 'Ge': return self.cmp('Le', b, a, ty)
        if ty == 'bool' or a[0] == 'B' or b[0] == 'B':
            if op == 'Eq':
                if b[0] == 'B': return a if b[1] else self.not_(a)
                if a[0] == 'B': return b if a[1] else self.not_(b)
        if op == 'Le' and not isf: return self.not_(self.cmp('Lt', b, a, ty))
        if op == 'Eq' and self.dom is not None and hasattr(self.dom, 'byte_eq'):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'X' and x[1] == 'byte' and y[0] == 'I':
                    r = self.dom.byte_eq(x, y[1])
                    if r is not None: return r
        if op == 'Eq' and repr(a) > repr(b): a, b = b, a
        return X(op, a, b, ty='bool')

    def not_(self, a):
        if a[0] == 'B': return mkbool(not a[1])
        if a[0] == 'X' and a[1] == 'Not': return a[2][0]
        return X('Not', a, ty='bool')

    def and_(self, a, b):
        if a[0] == 'B': return b if a[1] else FALSE
        if b[0] == 'B': return a if b[1] else FALSE
        return X('BitAnd', a, b, ty='bool')

    def or_(self, a, b):
        if a[0] == 'B': return TRUE if a[1] else b
        if b[0] == 'B': return TRUE if b[1] else a
        return X('BitOr', a, b, ty='bool')

    def binop(self, op, a, b, ty):
        if op in CMP: return self.cmp(op, a, b, ty)
        if op == 'Cmp':
            if a[0] == b[0] and a[0] in ('I', 'C', 'B', 'S'):
                return adt(ORD, 'Less' if a[1] < b[1] else 'Equal' if a[1] == b[1] else 'Greater')
            return X('cmp', a, b, ty=ORD)
        if op.endswith('WithOverflow'):
            o = op[:-len('WithOverflow')]
            if a[0] == 'I' and b[0] == 'I':
                r = {'Add': a[1] + b[1], 'Sub': a[1] - b[1], 'Mul': a[1] * b[1]}[o]
                w = self.wrap(r, ty)
                return ('T', (('I', w, ty), mkbool(w != r)))
            return ('T', (self.arith(o, a, b, ty), X('ovf', o, a, b, ty='bool')))
        return self.arith(op.replace('Unchecked', ''), a, b, ty)

    def arith(self, op, a, b, ty):
        if ty == 'bool':
            if op == 'BitAnd': return self.and_(a, b)
            if op == 'BitOr': return self.or_(a, b)
            if op == 'BitXor': return self.not_(self.cmp('Eq', a, b, 'bool'))
        if a[0] == 'I' and b[0] == 'I':
            x, y = a[1], b[1]
            if op in ('Div', 'Rem') and y == 0: raise Undecided('division by zero')
            r = None
            if op == 'Add': r = x + y
            elif op == 'Sub': r = x - y
            elif op == 'Mul': r = x * y
            elif op == 'Div': r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            elif op == 'Rem': r = abs(x) % abs(y) * (-1 if x < 0 else 1)
            elif op == 'BitAnd': r = x & y
            elif op == 'BitOr': r = x | y
            elif op == 'BitXor': r = x ^ y
            elif op == 'Shl': r = x << (y % self.bits(ty))
            elif op == 'Shr': r = x >> (y % self.bits(ty))
            if r is not None: return ('I', self.wrap(r, ty), ty)
        if a[0] == 'F' and b[0] == 'F':
            x, y = a[1], b[1]
            try:
                return ('F', {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x / y}[op]())
            except (KeyError, ZeroDivisionError): pass
        z = lambda v, k: v[0] == 'I' and v[1] == k
        if ty and not ty.startswith('f'):
            if op == 'Add':
                if z(a, 0): return b
                if z(b, 0): return a
                if a[0] == 'I': a, b = b, a
                if b[0] == 'I' and a[0] == 'X' and a[1] == 'Add' and a[2][1][0] == 'I': return self.arith('Add', a[2][0], ('I', a[2][1][1] + b[1], ty), ty)
                if b[0] == 'I' and b[1] < 0: return self.arith('Sub', a, ('I', -b[1], ty), ty)
            if op == 'Sub':
                if z(b, 0): return a
                if a == b: return I(0, ty)
                if b[0] == 'I' and a[0] == 'X' and a[1] == 'Add' and a[2][1][0] == 'I':
                    return self.arith('Add', a[2][0], ('I', a[2][1][1] - b[1], ty), ty)
                if a[0] == 'X' and a[1] == 'Add':
                    if a[2][0] == b: return a[2][1]
                    if a[2][1] == b: return a[2][0]
            if op == 'Mul':
                if z(a, 1): return b
                if z(b, 1): return a
                if z(a, 0) or z(b, 0): return I(0, ty)
            if op == 'Div' and z(b, 1): return a
        return X(op, a, b, ty=ty)

    def cast(self, kind, v, src, dst):
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'FnPtrToPtr'): return v
        s, d = src['s'], dst['s']
        if kind == 'IntToInt':
            if v[0] == 'I': return ('I', self.wrap(v[1], d), d)
            if v[0] == 'B': return ('I', int(v[1]), d)
            if v[0] == 'C': return ('I', self.wrap(ord(v[1]), d), d)
            if d == 'char': return X('asc', v, ty='char')
            if src['k'] == 'bool': return X('b2i', v, ty=d)
            rs, rd = (0, 0x10ffff) if s == 'char' else self.rng(s), self.rng(d)
            if rs and rd and rd[0] <= rs[0] and rs[1] <= rd[1]:
                return X('c2i', v, ty=d) if s == 'char' else v
            # a narrowing of a value that was widened from a type that fits is the identity
            r = self.term_range(v)
            if r and rd[0] <= r[0] and r[1] <= rd[1]: return v
            return X('cast', v, s, d, ty=d)
        if kind == 'IntToFloat':
            if v[0] == 'I': return ('F', float(v[1]))
            return X('i2f', v, ty=d)
        if kind == 'FloatToInt':
            if v[0] == 'F' and v[1] == v[1]: lo, hi = self.rng(d); return ('I', int(max(lo, min(hi, v[1]))) if abs(v[1]) == float('inf') else max(lo, min(hi, int(v[1]))), d)
            return X('f2i', v, d, ty=d)
        if kind == 'FloatToFloat':
            return v if v[0] == 'F' or s == d else X('f2f', v, s, d, ty=d)
        return X('cast:' + kind, v, s, d, ty=d)

    def term_range(self, v):
        if v[0] == 'I': return (v[1], v[1])
        if v[0] in ('X', 'V'):
            ty = v[3] if v[0] == 'X' else v[2]
            if self.dom is not None:
                r = self.dom.range(self, v)
                if r: return r
            if v[0] == 'X' and v[1] == 'Rem' and v[2][1][0] == 'I' and v[2][1][1] > 0:
                r = self.term_range(v[2][0])
                if r and r[0] >= 0: return (0, v[2][1][1] - 1)
            if v[0] == 'X' and v[1] in ('uabs', 'absi'):
                r = self.rng(ty) if ty else None
                if r: return (0, r[1])
            if isinstance(ty, str): return self.rng(ty)
        return None

    # ---- types of operands
    def place_ty(self, fr, p):
        T = self.p.types
        t = T[fr.body.locals[p[0]]]
        for e in p[1]:
            if e[0] == '*':
                t = T[t['t']] if 't' in t else T[t['args'][0]] if t.get('args') else t
            elif e[0] == 'f': t = T[e[2]]
            elif e[0] in ('i', 'ci'): t = T[t['t']] if 't' in t else t
            elif e[0] in ('d', 'ss'): pass
        return t

    def op_ty(self, fr, o):
        if o['o'] in ('cp', 'mv'): return self.place_ty(fr, o['p'])
        if o['o'] == 'c': return self.p.types[o['t']]
        return {'k': 'other', 's': '?'}

    # ---- memory
    def load(self, st, ref):
        _, depth, local, path = ref
        v = st.frames[depth].env.get(local)
        if v is None: raise Undecided('read of unset place')
        for e in path: v = self.project(v, e)
        return v

    def project(self, v, e, tys=None):
        k = e[0]
        if k == 'f':
            if v[0] in ('T',): return v[1][e[1]]
            if v[0] == 'A':
                if e[1] < len(v[3]): return v[3][e[1]]
                raise Undecided('field of other variant')
            if v[0] == 'CL': return v[2][e[1]]
            if v[0] == 'X' and v[1] == 'downcast': return X('fld', v[2][0], e[1], v[2][1], ty=tys)
            return X('fld', v, e[1], '', ty=tys)
        if k == 'd':
            if v[0] == 'A': return v
            return X('downcast', v, e[2])
        if k in ('i', 'ci'):
            idx = e[1]
            if v[0] == 'L':
                if isinstance(idx, tuple):
                    if idx[0] == 'I': idx = idx[1]
                    else: return X('idx', v, idx)
                if k == 'ci' and e[2]: idx = len(v[1]) - idx
                if 0 <= idx < len(v[1]): return v[1][idx]
                raise Undecided('index out of range')
            return X('idx', v, idx if isinstance(idx, tuple) else I(idx if not (k == 'ci' and e[2]) else -idx))
        if k == 'ss':
            if v[0] == 'L':
                n = len(v[1]); to = n - e[2] if e[3] else e[2]
                return ('L', v[1][e[1]:to])
        raise Undecided('projection %s of %s' % (k, v[0]))

    def update(self, v, path, new):
        if not path: return new
        e = path[0]
        if e[0] == 'f':
            if v is None: raise Undecided('field write to unset place')
            if v[0] == 'T':
                l = list(v[1]); l[e[1]] = self.update(l[e[1]], path[1:], new); return ('T', tuple(l))
            if v[0] == 'A':
                l = list(v[3]); l[e[1]] = self.update(l[e[1]], path[1:], new); return ('A', v[1], v[2], tuple(l))
            if v[0] == 'CL':
                l = list(v[2]); l[e[1]] = self.update(l[e[1]], path[1:], new); return ('CL', v[1], tuple(l))
            if is_sym(v):
                old = self.project(v, e)
                return X('upd', v, e[1], self.update(old, path[1:], new), ty=v[3] if v[0] == 'X' else v[2])
        if e[0] == 'd': return self.update(v, path[1:], new)
        if e[0] in ('i', 'ci') and v[0] == 'L':
            idx = e[1][1] if isinstance(e[1], tuple) and e[1][0] == 'I' else e[1]
            if isinstance(idx, int) and 0 <= idx < len(v[1]):
                l = list(v[1]); l[idx] = self.update(l[idx], path[1:], new); return ('L', tuple(l))
        raise Undecided('write through %s' % (e[0],))

    def store(self, st, ref, val):
        _, depth, local, path = ref
        fr = st.frames[depth]
        fr.env[local] = self.update(fr.env.get(local), list(path), val) if path else val

    def deref(self, st, v):
        if v[0] == 'R': return v[1]
        if v[0] == 'M': return self.load(st, v)
        if v[0] == 'A' and v[1] == 'alloc::boxed::Box': return v[3][0]
        return X('deref', v)

    def read_place(self, st, fr, p):
        v = fr.env.get(p[0])
        if v is None:
            raise Undecided('read of unset local _%d in %s' % (p[0], fr.body.key))
        for e in p[1]:
            if e[0] == '*': v = self.deref(st, v)
            elif e[0] == 'i': v = self.project(v, ('i', fr.env[e[1]]))
            elif e[0] == 'f': v = self.project(v, e, self.p.types[e[2]]['s'])
            else: v = self.project(v, e)
        return v

    def addr(self, st, fr, p):
        """address of a place as ('M', depth, local, path)"""
        depth = len(st.frames) - 1
        cur = ('M', depth, p[0], ())
        for e in p[1]:
            if e[0] == '*':
                v = self.load(st, cur)
                if v[0] == 'M': cur = v
                elif v[0] == 'A' and v[1] == 'alloc::boxed::Box': cur = ('M', cur[1], cur[2], cur[3] + (('f', 0),))
                else: raise Undecided('mutable borrow through %s' % v[0])
            elif e[0] == 'i': cur = ('M', cur[1], cur[2], cur[3] + (('i', fr.env[e[1]]),))
            else: cur = ('M', cur[1], cur[2], cur[3] + (tuple(e[:4]),))
        return cur

    def write_place(self, st, fr, p, val):
        if not p[1]: fr.env[p[0]] = val; return
        self.store(st, self.addr(st, fr, p), val)

    def operand(self, st, fr, o):
        if o['o'] in ('cp', 'mv'): return self.read_place(st, fr, o['p'])
        if o['o'] == 'c':
            if 'zst' in o['v']: return self.p.zst(o['v']['zst'])
            t = self.p.types[o['t']]
            if t['k'] == 'fndef': return ('FN', t['path'], o['t'])
            return self.p.const_value(o['v'], o['t'])
        raise Undecided('operand ' + str(o)[:80])

    def rvalue(self, st, fr, r, dty):
        k = r['r']
        if k == 'use': return self.operand(st, fr, r['a'])
        if k == 'ref':
            if r['mut']:
                try: return self.addr(st, fr, r['p'])
                except Undecided:
                    return ('R', self.read_place(st, fr, r['p']))
            v = self.read_place(st, fr, r['p'])
            if v[0] == 'X' and v[1] == 'deref': return v[2][0]
            return ('R', v)
        if k == 'rawptr':
            v = self.read_place(st, fr, r['p'])
            if v[0] == 'X' and v[1] == 'deref': return v[2][0]
            return ('R', v)
        if k == 'bin':
            a = self.operand(st, fr, r['a']); b = self.operand(st, fr, r['b'])
            t = self.op_ty(fr, r['a'])
            return self.binop(r['op'], a, b, t['s'])
        if k == 'un':
            a = self.operand(st, fr, r['a'])
            if r['op'] == 'Not':
                t = self.op_ty(fr, r['a'])
                if t['k'] == 'bool': return self.not_(a)
                if a[0] == 'I': return ('I', self.wrap(~a[1], t['s']), t['s'])
                return X('BitNot', a, ty=t['s'])
            if r['op'] == 'Neg':
                t = self.op_ty(fr, r['a'])
                if a[0] == 'I': return ('I', self.wrap(-a[1], t['s']), t['s'])
                if a[0] == 'F': return ('F', -a[1])
                return X('Neg', a, ty=t['s'])
            if r['op'] == 'PtrMetadata':
                v = self.deref(st, a)
                return self.length(v)
            raise Undecided('unop ' + r['op'])
        if k == 'cast':
            return self.cast(r['k'], self.operand(st, fr, r['a']), self.op_ty(fr, r['a']), self.p.types[r['t']])
        if k == 'discr':
            v = self.read_place(st, fr, r['p'])
            t = self.place_ty(fr, r['p'])
            if v[0] == 'A':
                if t['k'] == 'adt':
                    for x in t['variants']:
                        if x['name'] == v[2]: return ('I', x['discr'], 'isize')
                raise Undecided('discriminant of ' + v[1])
            vs = tuple((x['name'], x['discr']) for x in t.get('variants', [])) if t['k'] == 'adt' else ()
            if not vs: raise Undecided('discriminant of symbolic %s' % t['s'])
            return X('discr', v, vs, t['path'])
        if k == 'agg':
            ops = tuple(self.operand(st, fr, o) for o in r['ops'])
            a = r['k']['a']
            if a == 'tuple': return ('T', ops)
            if a == 'array': return ('L', ops)
            if a == 'adt': return ('A', r['k']['path'], r['k']['var'], ops)
            if a == 'closure': return ('CL', self.p.types[r['k']['t']]['key'], ops)
            raise Undecided('aggregate')
        if k == 'repeat':
            n = r['n']
            if n is None or n > 4096: raise Undecided('repeat')
            return ('L', (self.operand(st, fr, r['a']),) * n)
        if k == 'tls': raise Undecided('thread local ' + r['path'])
        raise Undecided('rvalue ' + json.dumps(r)[:100])

    def length(self, v):
        if v[0] == 'L': return I(len(v[1]))
        if v[0] == 'S': return I(len(v[1].encode()))
        if self.dom is not None:
            r = self.dom.strlen(self, v)
            if r is not None: return r
        return X('len', v, ty='usize')

    # ---- atoms
    def decide(self, st, atom):
        """outcome of a boolean term, or None"""
        if atom[0] == 'B': return atom[1]
        if atom[0] == 'X':
            if atom[1] == 'Not':
                r = self.decide(st, atom[2][0]); return None if r is None else not r
            if atom[1] in ('BitAnd', 'BitOr') and atom[3] == 'bool':
                a = self.decide(st, atom[2][0]); b = self.decide(st, atom[2][1])
                if atom[1] == 'BitAnd':
                    if a is False or b is False: return False
                    if a and b: return True
                else:
                    if a or b: return True
                    if a is False and b is False: return False
        if self.use_assume:
            r = st.assume.get(atom)
            if r is not None: return r
            if atom[0] == 'X' and atom[1] == 'is':
                for (a2, o) in st.assume.items():
                    if o and a2[0] == 'X' and a2[1] == 'is' and a2[2][0] == atom[2][0] and a2[2][1] != atom[2][1]: return False
            if atom[0] == 'X' and atom[1] == 'Eq':
                x, y = atom[2]
                if y[0] in ('I', 'C', 'S', 'F'): x, y = y, x
                if x[0] in ('I', 'C', 'S', 'F'):
                    for (a2, o) in st.assume.items():
                        if o and a2[0] == 'X' and a2[1] == 'Eq' and y in a2[2]:
                            z = a2[2][0] if a2[2][1] == y else a2[2][1]
                            if z[0] == x[0] and z != x: return False
        if self.dom is not None:
            r = self.dom.decide(self, st, atom)
            if r is not None: return r
        return None

    def is_variant(self, v, name):
        """boolean term: symbolic enum value v is variant `name`; canonical for Option/Result"""
        if v[0] == 'A': return mkbool(v[2] == name)
        if name == 'None': return self.not_(X('is', v, 'Some', ty='bool'))
        if name == 'Err': return self.not_(X('is', v, 'Ok', ty='bool'))
        return X('is', v, name, ty='bool')

    def fork(self, st, cond, kt, kf):
        """branch on boolean term; kt/kf: st -> node"""
        d = self.decide(st, cond)
        if d is not None: return (kt if d else kf)(st)
        while cond[0] == 'X' and cond[1] == 'Not':
            cond = cond[2][0]; kt, kf = kf, kt
        if self.use_assume and cond[0] == 'X' and cond[1] == 'BitAnd' and cond[3] == 'bool':
            a, b = cond[2]
            return self.fork(st, a, lambda s: self.fork(s, b, kt, kf), kf)
        if self.use_assume and cond[0] == 'X' and cond[1] == 'BitOr' and cond[3] == 'bool':
            a, b = cond[2]
            return self.fork(st, a, kt, lambda s: self.fork(s, b, kt, kf))
        if len(st.assume) > self.max_conds: return self.undecided(st, 'loop over a symbolic quantity')
        s2 = st.clone()
        if self.use_assume:
            st.assume[cond] = True; s2.assume[cond] = False
        t = kt(st); f = kf(s2)
        if t is f: return t
        k = (cond, id(t), id(f))
        n = self.nodes.get(k)
        if n is None:
            n = Nd(); n.atom = cond; n.t = t; n.f = f; n.kind = None; n.val = None; n.trace = None
            self.nodes[k] = n
        return n

    # ---- running
    def leaf(self, st, kind, val):
        self.leaves += 1
        if self.leaves > self.max_leaves: raise RuntimeError('too many paths')
        k = ('LEAF', kind, val, st.trace)
        n = self.nodes.get(k)
        if n is None:
            n = Nd(); n.atom = None; n.t = n.f = None; n.kind = kind; n.val = val; n.trace = st.trace
            self.nodes[k] = n
        return n

    def panic(self, st, msg):
        """unwind to the innermost catch_unwind, or end the path"""
        for i in range(len(st.frames) - 1, -1, -1):
            f = st.frames[i]
            if isinstance(f, PF) and f.name == 'catch_panic':
                del st.frames[i:]
                return self.deliver(st, Err(adt('alloc::boxed::Box', 'Box', X('panic_payload', ('S', str(msg))))))
        return self.leaf(st, 'panic', msg)

    def undecided(self, st, why, where=''):
        return self.leaf(st, 'undecided', why + (' at ' + where if where else ''))

    def run_fn(self, key, args, trace=(), assume=None):
        b = self.p.bodies[key]
        env = {}
        for i, a in enumerate(args): env[i + 1] = a
        st = St([MF(b, 0, env)], dict(assume or {}), trace)
        self.visited.add(key)
        return self.run(st)

    def run_with_root(self, key, args, root, trace=(), assume=None):
        """like run_fn with an extra bottom frame holding addressable values: refer to them as ('M', 0, name, ())"""
        b = self.p.bodies[key]
        env = {i + 1: a for i, a in enumerate(args)}
        st = St([PF('root', None, dict(root)), MF(b, 0, env)], dict(assume or {}), trace)
        self.visited.add(key)
        return self.run(st)

    def mkey(self, st):
        ks = []
        for f in st.frames:
            if isinstance(f, MF):
                lv = f.body.live()[f.bb] if f is st.frames[-1] else f.body.live()[f.to] if f.to is not None else ()
                ks.append((f.body.key, f.bb, tuple((l, f.env[l]) for l in sorted(lv) if l in f.env), str(f.dst)))
            else:
                ks.append((f.name, f.data, tuple(sorted(f.env.items(), key=lambda x: str(x[0])))))
        return (tuple(ks), st.trace, frozenset(st.assume.items()) if self.use_assume else None)

    def run(self, st):
        while True:
            fr = st.frames[-1]
            if isinstance(fr, PF): raise RuntimeError('py frame on top')
            self.steps += 1
            if self.steps > self.max_steps: return self.undecided(st, 'step budget exhausted')
            key = None
            if self.use_memo and fr.body.preds()[fr.bb] > 1:
                key = self.mkey(st)
                if key in self.memo: return self.memo[key]
            try:
                r = self.block(st, fr)
            except Undecided as e:
                r = self.undecided(st, str(e), fr.body.key)
            except (IndexError, KeyError, TypeError, AttributeError, ValueError) as e:      # a value of a shape the models do not know
                if DEBUG: raise
                r = self.undecided(st, 'unmodelled value (%s %s)' % (type(e).__name__, e), fr.body.key)
            if r is not None:
                if key is not None: self.memo[key] = r
                return r
            if key is not None:
                r = self.run(st)
                self.memo[key] = r
                return r

    def block(self, st, fr):
        """execute one block; returns node when the path ended, None to continue"""
        b = fr.body.blocks[fr.bb]
        if b is None: raise Undecided('cleanup block')
        for s in b['s']:
            if 'rv' in s:
                v = self.rvalue(st, fr, s['rv'], None)
                self.write_place(st, fr, s['p'], v)
            elif 'setd' in s: raise Undecided('set discriminant')
            elif 'dead' in s: fr.env.pop(s['dead'], None) if s['dead'] not in self._addr(fr) else None
        t = b['t']; k = t['t']
        if k == 'goto': fr.bb = t['to']; return None
        if k == 'drop': fr.bb = t['to']; return None
        if k == 'ret': return self.do_return(st, fr.env.get(0, UNIT))
        if k == 'unreachable': return self.leaf(st, 'unreachable', None)
        if k == 'switch': return self.switch(st, fr, t)
        if k == 'assert':
            c = self.operand(st, fr, t['c'])
            if not t['exp']: c = self.not_(c)
            where = t['sp']; msg = t['msg']

            def good(s):
                s.frames[-1].bb = t['to']; return self.run(s)
            d = self.decide(st, c)
            if d is True: fr.bb = t['to']; return None
            if d is False: return self.panic(st, 'assert %s at %s' % (msg, where))

            def bad(s):
                r = self.panic(s, 'assert %s at %s' % (msg, where)); return self.run(s) if r is None else r
            return self.fork(st, c, good, bad)
        if k == 'call': return self.call_term(st, fr, t)
        raise Undecided('terminator ' + t.get('s', k)[:80])

    def _addr(self, fr):
        fr.body.live(); return fr.body.addr_taken

    def switch(self, st, fr, t):
        d = self.operand(st, fr, t['d'])
        vs = t['vs']; els = t['else']
        if d[0] in ('I', 'B', 'C'):
            x = int(d[1]) if d[0] == 'B' else ord(d[1]) if d[0] == 'C' else d[1]
            bits = self.bits(d[2]) if d[0] == 'I' else None
            if bits: x &= (1 << bits) - 1
            for v, b in vs:
                vv = v & ((1 << bits) - 1) if bits else v
                if vv == x: fr.bb = b; return None
            fr.bb = els; return None

        def goto(b):
            def k(s):
                s.frames[-1].bb = b
                return self.run(s)
            return k
        if d[0] == 'X' and d[1] == 'discr':
            base, variants, path = d[2]
            byd = {dv: n for n, dv in variants}
            els_unreach = fr.body.blocks[els] is not None and fr.body.blocks[els]['t']['t'] == 'unreachable' and not fr.body.blocks[els]['s']
            covered = set(v for v, _ in vs)
            els_unreach = els_unreach or covered >= set(byd)
            opts = [(byd[v], b) for v, b in vs if v in byd]

            def chain(i):
                if i == len(opts): return goto(els)
                if i == len(opts) - 1 and els_unreach: return goto(opts[i][1])
                n, b = opts[i]
                return lambda s: self.fork(s, self.is_variant(base, n), goto(b), chain(i + 1))
            return chain(0)(st)
        dt = self.p.types[t['dt']]
        if dt['k'] == 'bool':
            f = next((b for v, b in vs if v == 0), els)
            tr = next((b for v, b in vs if v == 1), els)
            return self.fork(st, d, goto(tr), goto(f))
        tn = dt.get('n', dt['s'])

        def cv(v):
            if dt['k'] == 'char': return ('C', chr(v))
            return ('I', self.wrap(v, tn), tn)

        def chain(i):
            if i == len(vs): return goto(els)
            return lambda s: self.fork(s, self.cmp('Eq', d, cv(vs[i][0]), tn), goto(vs[i][1]), chain(i + 1))
        return chain(0)(st)

    # ---- calls
    def do_return(self, st, val):
        """value returned by the frame on top"""
        st.frames.pop()
        return self.deliver(st, val)

    def deliver(self, st, val):
        if not st.frames: return self.leaf(st, 'ret', val)
        fr = st.frames[-1]
        if isinstance(fr, PF):
            if fr.name == 'root':
                env = tuple(sorted(fr.env.items(), key=lambda x: str(x[0])))
                return self.leaf(st, 'ret', ('T', (val, ('T', tuple(v for _, v in env)))))
            return self.apply(st, HANDLERS[fr.name](self, st, fr, val), from_py=True)
        if fr.to is None: return self.leaf(st, 'unreachable', None)
        try:
            self.write_place(st, fr, fr.dst, val)
        except Undecided as e:
            return self.undecided(st, str(e), fr.body.key)
        fr.bb = fr.to
        return None

    def apply(self, st, tree, from_py=False):
        """result of a model; from_py: top frame is the py frame that produced it"""
        if isinstance(tree, Fork):
            def k(fn):
                def g(s):
                    try: r = self.apply(s, fn(s), from_py)
                    except Undecided as e: return self.undecided(s, str(e))
                    except (IndexError, KeyError, TypeError, AttributeError, ValueError) as e:
                        if DEBUG: raise
                        return self.undecided(s, 'unmodelled value (%s %s)' % (type(e).__name__, e))
                    return self.run(s) if r is None else r
                return g
            return self.fork(st, tree.atom, k(tree.t), k(tree.f))
        if isinstance(tree, Panic): return self.panic(st, tree.msg)
        if isinstance(tree, Exit): return self.leaf(st, 'exit', tree.v)
        if isinstance(tree, Call):
            if tree.name is not None:
                if from_py:
                    st.frames[-1].name = tree.name; st.frames[-1].data = tree.data
                    if tree.env is not None: st.frames[-1].env.update(tree.env)
                else:
                    st.frames.append(PF(tree.name, tree.data, tree.env))
            elif from_py:
                st.frames.pop()
            return self.invoke_value(st, tree.callee, list(tree.args))
        if isinstance(tree, Invoke):
            if from_py: st.frames.pop()
            return self.push_body(st, tree.key, tree.args)
        # plain value
        if from_py: st.frames.pop()
        return self.deliver(st, tree)

    def push_body(self, st, key, args):
        b = self.p.bodies[key]
        if len(st.frames) > 60: raise Undecided('call depth')
        n = sum(1 for f in st.frames if isinstance(f, MF) and f.body is b)
        if n > 6: raise Undecided('recursion in ' + key)
        self.visited.add(key)
        if b.j.get('spread'):
            sp = b.j['spread']
            args = args[:sp - 1] + [('T', tuple(args[sp - 1:]))]
        st.frames.append(MF(b, 0, {i + 1: a for i, a in enumerate(args)}))
        return None

    def invoke_value(self, st, f, args):
        """call function value f with the plain argument list"""
        depth = 0
        while f[0] in ('R', 'M') and depth < 4:
            if f[0] == 'M':
                mref = f
                f = self.load(st, f)
                if f[0] == 'CL': return self.invoke_closure(st, f, args, mref)
            else: f = f[1]
            depth += 1
        if f[0] == 'CL': return self.invoke_closure(st, f, args, None)
        if f[0] == 'FN':
            return self.apply(st, self.dispatch(st, self.p.types[f[2]], args, None, None))
        if f[0] == 'FNK':
            if f[1] in self.p.bodies: return self.push_body(st, f[1], args)
            return self.deliver(st, X('apply', f, *args))
        if self.dom is not None and hasattr(self.dom, 'apply'):
            r = self.dom.apply(self, st, f, args)
            if r is not None: return self.apply(st, r)
        return self.deliver(st, X('apply', f, *args))

    def invoke_closure(self, st, f, args, mref):
        b = self.p.bodies.get(f[1])
        if b is None: return self.deliver(st, X('apply', f, *args))
        t = self.p.types[b.locals[1]]
        if t['k'] == 'ref':
            if t['mut']:
                if mref is None:
                    st.frames.append(PF('ret1', None, {0: f}))
                    mref = ('M', len(st.frames) - 1, 0, ())
                self_ = mref
            else: self_ = ('R', f)
        else: self_ = f
        return self.push_body(st, f[1], [self_] + args)

    def call_term(self, st, fr, t):
        ft = self.p.types[t['ft']]
        args = [self.operand(st, fr, a) for a in t['args']]
        fr.dst = t['dst']; fr.to = t['to']
        self.calls_seen += 1
        if ft['k'] == 'fndef':
            return self.apply(st, self.dispatch(st, ft, args, t, fr))
        f = self.operand(st, fr, t['f'])
        return self.invoke_value(st, f, args)

    def dispatch(self, st, ft, args, term, fr):
        """decide how to treat a call of function type ft; returns a tree"""
        if self.hook:
            r = self.hook(self, st, ft, args, term)
            if r is not None: return r
        if 'ctor' in ft: return ('A', ft['ctor_adt'], ft['ctor'], tuple(args))
        key = ft.get('key')
        name = norm_path(ft['path'])
        if key in self.opaque or ft.get('rpath') in self.opaque or ft['path'] in self.opaque:
            return X('call:' + (ft.get('rpath') or ft['path']), *args, ty=self.ret_ty(term))
        if name in FNCALL:
            f = args[0]; a = args[1]
            if a[0] != 'T': raise Undecided('call with symbolic arguments')
            return Call(f, list(a[1]))
        if key in self.p.bodies and self.p.bodies[key].local: return Invoke(key, args)
        m = self.models.get(name)
        if m is None and ft.get('rpath'):
            m = self.models.get(norm_path(ft['rpath']))
        if m is None and ft.get('crate') not in ('core', 'alloc', 'std'):
            m = self.models.get(ft['path'])
        if m is not None:
            r = m(self, st, args, Ctx(self, ft, term, name))
            if r is not None: return r
        if key in self.p.bodies: return Invoke(key, args)
        return self.unknown(st, ft, args, term)

    def ret_ty(self, term):
        return self.p.types[term['dt']]['s'] if term else None

    def unknown(self, st, ft, args, term):
        nm = ft.get('rpath') or ft['path']
        self.unknown_calls[nm] = self.unknown_calls.get(nm, 0) + 1
        for a in args:
            if a[0] == 'M' or has_mut(a): raise Undecided('unmodelled call with &mut argument: ' + nm)
        if nm.startswith('core::ptr::') or nm.startswith('core::intrinsics::'): raise Undecided('raw memory access: ' + nm)
        if term is not None and term['to'] is None: return Panic('diverging call ' + nm)
        return X('call?:' + nm, *args, ty=self.ret_ty(term))


FNCALL = {'FnOnce::call_once', 'FnMut::call_mut', 'Fn::call'}


class Ctx:
    """context of a modelled call"""
    __slots__ = ('E', 'ft', 'term', 'name')

    def __init__(self, E, ft, term, name): self.E = E; self.ft = ft; self.term = term; self.name = name

    def targ(self, i):
        a = self.ft.get('args', [])
        return self.E.p.types[a[i]] if i < len(a) else None

    @property
    def dty(self): return self.E.p.types[self.term['dt']] if self.term else None


HANDLERS = {}


def handler(f):
    HANDLERS[f.__name__] = f
    return f


@handler
def ret1(E, st, fr, val): return val


@handler
def catch_panic(E, st, fr, val): return Ok(val)


# ---- DAG utilities
def leaves(node, pre=()):
    """all (path, leaf); path: tuple of (atom, outcome)"""
    if node.is_leaf: yield pre, node; return
    yield from leaves(node.t, pre + ((node.atom, True),))
    yield from leaves(node.f, pre + ((node.atom, False),))


def dag_nodes(node):
    seen = {}; todo = [node]
    while todo:
        n = todo.pop()
        if id(n) in seen: continue
        seen[id(n)] = n
        if not n.is_leaf: todo += [n.t, n.f]
    return list(seen.values())


def show_path(path): return ' and '.join((show(a) if o else 'not ' + show(a)) for a, o in path) or 'always'
