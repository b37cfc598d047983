"""Evaluation of summary terms under one instantiation of their symbols (used to confirm a difference with a witness)."""
import re, math, struct
from decimal import Decimal
from engine import *
from strdom import FLOAT_RE

INTS = set(INT_BITS) | {'usize', 'isize'}


class Unk(Exception): pass


def rust_display_f64(x):
    if x != x: return 'NaN'
    if x in (math.inf, -math.inf): return '-inf' if x < 0 else 'inf'
    if x == int(x): 
        s = str(int(x))
        if abs(x) >= 1e16: s = format(Decimal(repr(x)), 'f'); s = s.split('.')[0] if s.endswith('.0') else s
        return '-' + s if math.copysign(1, x) < 0 and not s.startswith('-') else s
    return format(Decimal(repr(x)), 'f')


def f32(x):
    try: return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError: return math.inf if x > 0 else -math.inf


def rust_display_f32(x):
    if x != x or abs(x) == math.inf: return rust_display_f64(x)
    # shortest decimal that reads back as the same f32
    for p in range(1, 18):
        s = '%.*e' % (p - 1, x)
        if f32(float(s)) == x:
            t = format(Decimal(s), 'f')
            if '.' in t: t = t.rstrip('0').rstrip('.')
            if x == 0: return '-0' if math.copysign(1, x) < 0 else '0'
            return t
    raise Unk('f32')


def rust_parse(s, ty, bits):
    """('Ok', value) or ('Err',)"""
    if ty in ('f64', 'f32'):
        if not FLOAT_RE.match(s): return ('Err',)
        v = float(s)
        return ('Ok', f32(v) if ty == 'f32' else v)
    if ty in INTS:
        if not re.match(r'[+-]?[0-9]+\Z' if ty[0] == 'i' else r'[+]?[0-9]+\Z', s): return ('Err',)
        v = int(s)
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if ty[0] == 'i' else (0, (1 << bits) - 1)
        return ('Ok', v) if lo <= v <= hi else ('Err',)
    raise Unk('parse ' + ty)


class Ev:
    def __init__(self, E, inst):
        self.E = E; self.inst = inst; self.memo = {}

    def bits(self, ty):
        b = self.E.bits(ty)
        if b is None: raise Unk('type %s' % ty)
        return b

    def wrap(self, v, ty): return self.E.wrap(v, ty)

    def __call__(self, t):
        if t in self.memo:
            r = self.memo[t]
            if isinstance(r, Unk): raise r
            return r
        try: r = self.go(t)
        except Unk as e: self.memo[t] = e; raise
        self.memo[t] = r
        return r

    def go(self, t):
        k = t[0]
        if k in ('I', 'B', 'C', 'F', 'S'): return t[1]
        if k == 'R': return self(t[1])
        if k in ('T', 'L'): return tuple(self(x) for x in t[1])
        if k == 'A': return (t[2],) + tuple(self(x) for x in t[3])
        if k == 'V':
            if t[1] in self.inst: return self.inst[t[1]]
            raise Unk(t[1])
        if k != 'X': raise Unk(k)
        op, a, ty = t[1], t[2], t[3]
        if op == 'cat': return ''.join(str(self(x)) for x in a)
        if op == 'num': return int(self(a[0]))
        if op == 'pf64':
            v = float(self(a[0])); return f32(v) if a[1] == 'f32' else v
        if op == 'len':
            s = self(a[0]); return len(s.encode()) if isinstance(s, str) else len(s)
        if op == 'display':
            v = self(a[0])
            if a[1] == 'f64': return rust_display_f64(v)
            if a[1] == 'f32': return rust_display_f32(v)
            if a[1] in INTS: return str(v)
            if isinstance(v, str): return v
            raise Unk('display')
        if op == 'fmtopt':
            v = self(a[0]); fl, wd, pr = eval(a[3], {})
            if fl is not None and fl & ~(1 << 28) == 0x60000020: fl = None
            if fl or wd is not None or not isinstance(v, float): raise Unk('fmtopt')
            disp = rust_display_f32 if a[1] == 'f32' else rust_display_f64
            if v != v or v in (float('inf'), float('-inf')):
                if pr is None: return disp(v)
                raise Unk('fmtopt')
            if a[2] == 'display' and pr is None: return disp(v)
            if a[2] == 'display' and pr is not None: return '%.*f' % (pr & 0x7fff if pr >= 1 << 15 else pr, v)
            how = a[2]
            if how == 'debug' and pr is None:
                if v == 0 or 1e-4 <= abs(v) < 1e16:
                    d = disp(v)
                    return d if '.' in d else d + '.0'
                how = 'lower_exp'
            if how in ('lower_exp', 'upper_exp') and pr is None:
                d = disp(v)
                sg, dg, ex = Decimal(d).as_tuple()
                ds = ''.join(map(str, dg)).lstrip('0') or '0'; e = len(ds) - 1 + ex; ds = ds.rstrip('0') or '0'
                if ds == '0': e = 0
                return ('-' if sg else '') + ds[0] + ('.' + ds[1:] if len(ds) > 1 else '') + ('e' if how == 'lower_exp' else 'E') + str(e)
            raise Unk('fmtopt')
        if op == 'sub':
            s = self(a[0])
            if a[1] == 'tail': return s[1:]
            i = s.find(a[2])
            if i < 0: raise Unk('sub')
            return s[:i] if a[1] == 'before' else s[i + 1:]
        if op == 'strsub':
            b = self(a[0]).encode(); r = a[1]; f = [self(x) for x in r[3] if x[0] != 'B']
            lo, hi = {'RangeFrom': lambda: (f[0], len(b)), 'RangeTo': lambda: (0, f[0]), 'Range': lambda: (f[0], f[1])}[r[2]]()
            try:
                if lo <= hi <= len(b): return b[lo:hi].decode()
            except UnicodeDecodeError: pass
            raise Unk('index')
        if op == 'byte':
            b = self(a[0]).encode()
            if not b: raise Unk('byte')
            return b[0 if a[1] == 'first' else -1]
        if op == 'boundary':
            b = self(a[0]).encode()
            c, m = eval(a[1], {})
            pos = c + sum(k2 * len(str(self(p)).encode()) for p, k2 in m.items())
            if not 0 <= pos <= len(b): return False
            try: b[:pos].decode(); return True
            except UnicodeDecodeError: return False
        if op == 'starts': return self(a[0]).startswith(self(a[1]))
        if op == 'starts_with': return self(a[0]).startswith(self(a[1])) if a[1][0] in ('C', 'S') else self.unk(t)
        if op == 'ends_with': return self(a[0]).endswith(self(a[1])) if a[1][0] in ('C', 'S') else self.unk(t)
        if op == 'has': return self(a[1]) in self(a[0])
        if op == 'fits':
            v = int(self(a[0])); b = self.bits(a[1]); return v < (1 << (b - 1 if a[1][0] == 'i' else b))
        if op == 'parse': return rust_parse(self(a[0]), a[1], self.E.bits(a[1]))
        if op == 'is': return self(a[0])[0] == a[1]
        if op == 'fld':
            v = self(a[0])
            if isinstance(v, tuple):
                off = 1 if v and isinstance(v[0], str) and len(a) > 2 and a[2] else 0
                if a[1] + off < len(v): return v[a[1] + off]
            raise Unk('fld')
        if op in ('deref', 'c2i'): return self(a[0]) if op == 'deref' else ord(self(a[0]))
        if op.startswith('str.'):
            s = self(a[0]); r = [self(x) for x in a[1:]]; n = op[4:]
            if not all(isinstance(x, (str, int)) for x in r): raise Unk(op)
            if n == 'trim_end_matches' and len(r[0]) == 1: return s.rstrip(r[0])
            if n == 'trim_start_matches' and len(r[0]) == 1: return s.lstrip(r[0])
            if n == 'trim_matches' and len(r[0]) == 1: return s.strip(r[0])
            if n == 'trim': return s.strip()
            if n == 'trim_end': return s.rstrip()
            if n == 'trim_start': return s.lstrip()
            if n == 'find': i = s.find(r[0]); return ('None',) if i < 0 else ('Some', len(s[:i].encode()))
            if n == 'rfind': i = s.rfind(r[0]); return ('None',) if i < 0 else ('Some', len(s[:i].encode()))
            if n == 'contains': return r[0] in s
            if n == 'replace': return s.replace(r[0], r[1])
            if n == 'ends_with': return s.endswith(r[0])
            if n == 'starts_with': return s.startswith(r[0])
            if n == 'strip_suffix': return ('Some', s[:-len(r[0])]) if s.endswith(r[0]) else ('None',)
            if n == 'strip_prefix': return ('Some', s[len(r[0]):]) if s.startswith(r[0]) else ('None',)
            if n == 'rsplit_once': return ('Some', tuple(s.rsplit(r[0], 1))) if r[0] in s else ('None',)
            if n == 'split_once': return ('Some', tuple(s.split(r[0], 1))) if r[0] in s else ('None',)
            raise Unk(op)
        if op in ('Eq', 'Lt', 'Le', 'Ne', 'Gt', 'Ge'):
            x, y = self(a[0]), self(a[1])
            if isinstance(x, str) and isinstance(y, str): x, y = x.encode(), y.encode()
            return {'Eq': lambda: x == y, 'Ne': lambda: x != y, 'Lt': lambda: x < y, 'Le': lambda: x <= y, 'Gt': lambda: x > y, 'Ge': lambda: x >= y}[op]()
        if op == 'Not': return not self(a[0])
        if op == 'BitNot': return self.wrap(~self(a[0]), ty)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = self(a[0]), self(a[1])
            return x & y if op == 'BitAnd' else x | y if op == 'BitOr' else x ^ y
        if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'Shl', 'Shr'):
            x, y = self(a[0]), self(a[1])
            if isinstance(x, float) or isinstance(y, float):
                try: return {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x / y, 'Rem': lambda: math.fmod(x, y)}[op]()
                except (ZeroDivisionError, ValueError, KeyError): raise Unk(op)
            if op in ('Div', 'Rem') and y == 0: raise Unk('div by zero')
            r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1),
                 'Rem': lambda: abs(x) % abs(y) * (-1 if x < 0 else 1), 'Shl': lambda: x << (y % 128), 'Shr': lambda: x >> (y % 128)}[op]()
            return self.wrap(r, ty) if ty in INTS else r
        if op == 'ovf':
            x, y = self(a[1]), self(a[2])
            r = {'Add': x + y, 'Sub': x - y, 'Mul': x * y}[a[0]]
            tt = a[1][3] if a[1][0] == 'X' else a[1][2]
            return r != self.wrap(r, tt)
        if op == 'Neg':
            v = self(a[0]); return -v if isinstance(v, float) else self.wrap(-v, ty)
        if op == 'absi':
            return abs(self(a[0]))
        if op == 'signum': v = self(a[0]); return (v > 0) - (v < 0)
        if op == 'i2f':
            v = float(self(a[0])); return f32(v) if ty == 'f32' else v
        if op == 'f2f': v = self(a[0]); return f32(v) if a[2] == 'f32' else v
        if op == 'f2i':
            v = self(a[0]); b = self.bits(a[1])
            lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if a[1][0] == 'i' else (0, (1 << b) - 1)
            if v != v: return 0
            if v == math.inf: return hi
            if v == -math.inf: return lo
            return max(lo, min(hi, int(v)))
        if op == 'cast': return self.wrap(self(a[0]), a[2])
        if op == 'b2i': return int(self(a[0]))
        if op == 'fabs': return abs(self(a[0]))
        if op in ('ftrunc', 'ffloor', 'fceil', 'fround', 'ffract', 'fsqrt'):
            v = self(a[0])
            if v != v or abs(v) == math.inf: return math.nan if op == 'ffract' else v
            return {'ftrunc': lambda: float(math.trunc(v)), 'ffloor': lambda: float(math.floor(v)), 'fceil': lambda: float(math.ceil(v)),
                    'fround': lambda: float(math.floor(abs(v) + .5)) * (1 if v >= 0 else -1), 'ffract': lambda: v - math.trunc(v), 'fsqrt': lambda: math.sqrt(v)}[op]()
        if op == 'is_nan': v = self(a[0]); return v != v
        if op == 'is_infinite': return abs(self(a[0])) == math.inf
        if op == 'is_finite': v = self(a[0]); return v == v and abs(v) != math.inf
        if op == 'is_sign_negative': return math.copysign(1, self(a[0])) < 0
        if op == 'is_sign_positive': return math.copysign(1, self(a[0])) > 0
        if op in ('ParseFloatError', 'ParseIntError', 'TryFromIntError'): return op
        raise Unk(op)

    def unk(self, t): raise Unk(show(t))


def eval_dag(root, ev):
    """leaf reached under the instantiation; None when an atom cannot be evaluated"""
    n = root
    while not n.is_leaf:
        try: n = n.t if ev(n.atom) else n.f
        except Unk: return None
        except (TypeError, ValueError, OverflowError): return None
    return n


def consts_of(root):
    """integer, float and text constants in the atoms and results of a DAG"""
    out = set()
    for n in dag_nodes(root):
        t = n.atom if not n.is_leaf else n.val
        if not isinstance(t, tuple): continue
        for s in subterms(t):
            if s[0] in ('I', 'F', 'S', 'C'): out.add(s)
    return out
