"""Semantics of plural rules over finitely many classes of numbers.

A decimal number is a pair (integer part i, visible fraction digits).  Every
comparison a rule makes depends on i only through its order against finitely
many constants and its residues modulo finitely many moduli, and on the
fraction through (v, w, f, t) likewise; so the infinitely many numbers fall
into finitely many classes on which code and specification are constant.
The classes are computed from the comparisons found in both."""
import re, math, itertools
import numpy as np
from engine import show, children, is_sym

CATS = ['zero', 'one', 'two', 'few', 'many', 'other']


class NotExact(Exception): pass


# ---------------------------------------------------------------- CLDR text
class RuleSyntax(Exception): pass


TOK = re.compile(r'\s*(\.\.|\.\.\.|…|!=|==|[=%,~]|[a-z]+|\d+)')


def parse_rule(text):
    """condition part of a CLDR rule -> list (or) of lists (and) of relations
    relation = (operand, modulus or None, negated, [(lo,hi)...]); also 'within' integers-only flag"""
    cond = text.split('@')[0].strip()
    if not cond: return []
    pos = 0; toks = []
    while pos < len(cond):
        m = TOK.match(cond, pos)
        if not m:
            if cond[pos:].strip() == '': break
            raise RuleSyntax(cond[pos:])
        toks.append(m.group(1)); pos = m.end()
    i = 0

    def peek(): return toks[i] if i < len(toks) else None
    ors = []
    while True:
        ands = []
        while True:
            op = toks[i]; i += 1
            if op not in ('n', 'i', 'f', 't', 'v', 'w'): raise RuleSyntax('operand ' + op)
            mod = None
            if peek() in ('%', 'mod'): mod = int(toks[i + 1]); i += 2
            neg = False; within = False
            if peek() in ('=', '!='):
                neg = toks[i] == '!='; i += 1
            elif peek() == 'is':
                i += 1
                if peek() == 'not': neg = True; i += 1
            else:
                if peek() == 'not': neg = True; i += 1
                if peek() == 'within': within = True
                elif peek() != 'in': raise RuleSyntax('relation ' + str(peek()))
                i += 1
            rs = []
            while True:
                lo = int(toks[i]); i += 1; hi = lo
                if peek() == '..': hi = int(toks[i + 1]); i += 2
                rs.append((lo, hi))
                if peek() == ',': i += 1
                else: break
            ands.append((op, mod, neg, tuple(rs), within))
            if peek() == 'and': i += 1
            else: break
        ors.append(ands)
        if peek() == 'or': i += 1
        else: break
    if i != len(toks): raise RuleSyntax('leftover ' + ' '.join(toks[i:]))
    return ors


# ---------------------------------------------------------------- term shapes
INTVARS = ('i', 'v', 'w', 'f', 't')


class Need:
    """per variable: thresholds and periods found in the comparisons"""
    def __init__(self):
        self.thr = {k: {0, 1} for k in INTVARS}; self.per = {k: {1} for k in INTVARS}; self.wide = set(); self.inexact = []
        self.nthr = {0}; self.nper = {1}; self.upto = 0

    def merge(self, o):
        for k in INTVARS: self.thr[k] |= o.thr[k]; self.per[k] |= o.per[k]
        self.upto = max(self.upto, o.upto); self.nthr |= o.nthr; self.nper |= o.nper; self.wide |= o.wide; self.inexact += o.inexact


def int_shape(t):
    """(var, scale, period or None) of an integer term built from one operand, or ('const', value), or None"""
    if t[0] == 'I': return ('const', t[1])
    if t[0] == 'V': return (t[1], 1, None)
    if t[0] != 'X': return None
    op, a = t[1], t[2]
    if op == 'Rem' and a[1][0] == 'I' and a[1][1] > 0:
        s = int_shape(a[0])
        if s and s[0] != 'const':
            p = a[1][1] * s[1]
            return (s[0], s[1], p if s[2] is None else (s[2] * p // math.gcd(s[2], p)))
        return s
    if op == 'Div' and a[1][0] == 'I' and a[1][1] > 0:
        s = int_shape(a[0])
        if s and s[0] != 'const' and s[2] is None: return (s[0], s[1] * a[1][1], None)
        if s and s[0] != 'const': return s
        return None
    if op == 'BitAnd' and a[1][0] == 'I':
        s = int_shape(a[0]); p = 1 << a[1][1].bit_length()
        if s and s[0] != 'const': return (s[0], s[1], p * s[1] if s[2] is None else s[2] * p * s[1] // math.gcd(s[2], p * s[1]))
    if op == 'Shr' and a[1][0] == 'I':
        s = int_shape(a[0])
        if s and s[0] != 'const' and s[2] is None: return (s[0], s[1] << a[1][1], None)
    if op in ('Add', 'Sub') and a[1][0] == 'I':
        s = int_shape(a[0])
        if s and s[0] != 'const': return s
    if op == 'Mul' and a[1][0] == 'I' and a[1][1] > 0:
        return int_shape(a[0])
    if op == 'cast' and t[3]:
        s = int_shape(a[0])
        bits = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64}.get(t[3])
        if s and s[0] != 'const' and bits:
            if bits >= 63: return s
            p = 1 << bits
            return (s[0], s[1], p if s[2] is None else s[2] * p // math.gcd(s[2], p))
    return None


def nvar(t): return t[0] == 'V' and t[1] == 'n'


def float_shape(t):
    if t[0] == 'F': return ('const', t[1])
    if nvar(t): return ('n', None)
    if t[0] == 'X' and t[1] in ('fabs', 'ftrunc', 'ffloor', 'ffract', 'fceil', 'fround'):
        return float_shape(t[2][0])
    if t[0] == 'X' and t[1] == 'Rem' and t[2][1][0] == 'F' and t[2][1][1] == int(t[2][1][1]) and t[2][1][1] > 0:
        s = float_shape(t[2][0])
        if s and s[0] == 'n': p = int(t[2][1][1]); return ('n', p if s[1] is None else s[1] * p // math.gcd(s[1], p))
    if t[0] == 'X' and t[1] == 'i2f':
        return ('int', t[2][0])
    return None


def needs(t, out, slack=0):
    """collect what comparison term t depends on"""
    if t[0] == 'B': return
    if t[0] != 'X': out.inexact.append(show(t)); return
    op, a = t[1], t[2]
    if op in ('Not',): return needs(a[0], out)
    if op in ('BitAnd', 'BitOr') and t[3] == 'bool': needs(a[0], out); needs(a[1], out); return
    if op == 'ovf':
        s = int_shape(a[1])
        if s: return
        out.inexact.append(show(t)); return
    if op in ('Eq', 'Lt', 'Le'):
        if isfloat(a[0]) or isfloat(a[1]):
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                s = float_shape(x)
                if s is None: out.inexact.append(show(t)); return
                if s[0] == 'const':
                    c = s[1]
                    if c == c and abs(c) < 1e15: out.nthr |= {int(math.floor(c)), int(math.floor(c)) + 1}
                    if c != math.floor(c): out.inexact.append(show(t))
                elif s[0] == 'n':
                    if s[1]: out.nper.add(s[1])
                elif s[0] == 'int':
                    si = int_shape(s[1])
                    if si is None: out.inexact.append(show(t)); return
                    if si[0] != 'const':
                        if si[2]: out.per[si[0]].add(si[2])
                        oth = float_shape(y)
                        if oth and oth[0] == 'const': out.thr[si[0]].add(int(oth[1]) + 1)
                        elif oth and oth[0] == 'n': pass
                        else: out.inexact.append(show(t))
            return
        sa, sb = int_shape(a[0]), int_shape(a[1])
        if sa is None or sb is None: out.inexact.append(show(t)); return
        if sa[0] != 'const' and sb[0] != 'const':
            if sa[0] == sb[0] and sa[2] and sb[2]:
                out.per[sa[0]] |= {sa[2], sb[2]}
            else: out.inexact.append(show(t))
            return
        for s, o, x in ((sa, sb, a[0]), (sb, sa, a[1])):
            if s[0] == 'const': continue
            if s[0] not in INTVARS: out.inexact.append(show(t)); continue
            if s[2]: out.per[s[0]].add(s[2])
            off = max([0] + [abs(z[2][1][1]) for z in walk(x) if z[0] == 'X' and z[1] in ('Add', 'Sub') and z[2][1][0] == 'I'])
            k = (abs(o[1]) + off + 2) * s[1] if o[0] == 'const' else 1
            if s[0] == 'i' and (s[2] is None or off):
                c = abs(o[1]) if o[0] == 'const' else 0
                out.thr['i'] |= {max(0, (c + d) * s[1] + e) for d in (0, 1) for e in ((0, off, -off) if off else (0,))}
                if s[1] > 1 or off: out.upto = max(out.upto, k)
            elif s[2] is None or off: out.thr[s[0]].add(k)
        return
    out.inexact.append(show(t))


def walk(t):
    yield t
    for c in children(t):
        if isinstance(c, tuple): yield from walk(c)


def isfloat(t):
    return t[0] == 'F' or nvar(t) or (t[0] == 'X' and (t[1] in ('i2f', 'fabs', 'ftrunc', 'ffloor', 'ffract', 'fceil', 'fround') or (t[1] in ('Rem', 'Add', 'Sub', 'Mul', 'Div', 'Neg') and any(isfloat(c) for c in t[2]))))


def rule_needs(ors, out):
    for ands in ors:
        for (op, mod, neg, rs, within) in ands:
            for lo, hi in rs:
                k = {lo, hi, hi + 1}
                if op == 'n':
                    if mod: out.nper.add(mod)
                    out.nthr |= k
                else:
                    if mod: out.per[op].add(mod)
                    out.thr[op] |= k


# ---------------------------------------------------------------- evaluation
def ev_int(t, env):
    if t[0] == 'I': return np.int64(t[1]) if abs(t[1]) < (1 << 62) else np.float64(t[1])
    if t[0] == 'V':
        if t[1] in env: return env[t[1]]
        raise NotExact(show(t))
    if t[0] == 'X':
        op, a = t[1], t[2]
        if op == 'Rem': return ev_int(a[0], env) % ev_int(a[1], env)
        if op == 'Div': return ev_int(a[0], env) // ev_int(a[1], env)
        if op == 'Add': return ev_int(a[0], env) + ev_int(a[1], env)
        if op == 'Sub': return ev_int(a[0], env) - ev_int(a[1], env)
        if op == 'Mul': return ev_int(a[0], env) * ev_int(a[1], env)
        if op == 'BitAnd': return ev_int(a[0], env) & ev_int(a[1], env)
        if op == 'BitOr': return ev_int(a[0], env) | ev_int(a[1], env)
        if op == 'BitXor': return ev_int(a[0], env) ^ ev_int(a[1], env)
        if op == 'Shr': return ev_int(a[0], env) >> ev_int(a[1], env)
        if op == 'cast':
            x = ev_int(a[0], env)
            b = {'u8': np.uint8, 'i8': np.int8, 'u16': np.uint16, 'i16': np.int16, 'u32': np.uint32, 'i32': np.int32}.get(t[3])
            return x if b is None else np.asarray(x).astype(b).astype(np.int64)
        if op == 'f2i': return np.floor(ev_float(a[0], env)).astype(np.int64)
        if op == 'b2i': return np.asarray(ev_bool(a[0], env)).astype(np.int64)
    raise NotExact(show(t))


def ev_float(t, env):
    if t[0] == 'F': return np.float64(t[1])
    if nvar(t): return env['n']
    if t[0] == 'X':
        op, a = t[1], t[2]
        if op == 'i2f': return np.asarray(ev_int(a[0], env)).astype(np.float64)
        if op == 'fabs': return np.abs(ev_float(a[0], env))
        if op in ('ftrunc', 'ffloor'): return np.floor(ev_float(a[0], env))
        if op == 'fceil': return np.ceil(ev_float(a[0], env))
        if op == 'fround': return np.floor(ev_float(a[0], env) + 0.5)
        if op == 'ffract': x = ev_float(a[0], env); return x - np.floor(x)
        if op == 'Rem': return np.fmod(ev_float(a[0], env), ev_float(a[1], env))
        if op == 'Add': return ev_float(a[0], env) + ev_float(a[1], env)
        if op == 'Sub': return ev_float(a[0], env) - ev_float(a[1], env)
        if op == 'Mul': return ev_float(a[0], env) * ev_float(a[1], env)
        if op == 'Div': return ev_float(a[0], env) / ev_float(a[1], env)
    raise NotExact(show(t))


def ev_bool(t, env):
    if t[0] == 'B': return np.bool_(t[1])
    if t[0] == 'X':
        op, a = t[1], t[2]
        if op == 'Not': return ~np.asarray(ev_bool(a[0], env))
        if op == 'BitAnd': return ev_bool(a[0], env) & ev_bool(a[1], env)
        if op == 'BitOr': return ev_bool(a[0], env) | ev_bool(a[1], env)
        if op in ('Eq', 'Lt', 'Le'):
            if isfloat(a[0]) or isfloat(a[1]): x, y = ev_float(a[0], env), ev_float(a[1], env)
            elif a[0][0] == 'X' and a[0][3] == 'bool' and op == 'Eq': x, y = ev_bool(a[0], env), ev_bool(a[1], env)
            else: x, y = ev_int(a[0], env), ev_int(a[1], env)
            return x == y if op == 'Eq' else x < y if op == 'Lt' else x <= y
        if op == 'ovf':
            o = a[0]; x, y = ev_int(a[1], env), ev_int(a[2], env)
            if o == 'Sub': return np.asarray(x - y) < 0
            if o in ('Add', 'Mul'): return np.zeros(np.broadcast(x, y).shape, bool)
    raise NotExact(show(t))


def ev_rule(ors, env):
    """truth of a CLDR condition: n stands for the exact value, ranges hold integers only (except within)"""
    res = False
    for ands in ors:
        r = True
        for (op, mod, neg, rs, within) in ands:
            if op == 'n':
                x = env['n']
                if mod: x = np.fmod(x, mod)
            else:
                x = env[op]
                if mod: x = x % mod
            h = False
            for lo, hi in rs:
                q = (x >= lo) & (x <= hi)
                if op == 'n' and not within and lo != hi: q = q & (x == np.floor(x))
                h = h | q
            if neg: h = ~np.asarray(h)
            r = r & h
        res = res | r
    return res


MAXI = 1 << 24


def uniq_cols(sig):
    """indices of one column per distinct column"""
    n = sig.shape[1]
    key = np.zeros(n, np.int64)
    for k in range(0, len(sig), 40):
        c = np.zeros(n, np.int64)
        for r in sig[k:k + 40]: c = (c << 1) | r
        c = np.unique(c, return_inverse=True)[1].reshape(-1).astype(np.int64)
        key = np.unique(key * (int(c.max()) + 1) + c, return_inverse=True)[1].reshape(-1).astype(np.int64)
    return np.unique(key, return_index=True)[1]


class Grid:
    """representatives of every class of decimal numbers for the given needs"""
    def __init__(self, need, truths):
        """truths: list of functions env -> bool array, every comparison of code and specification"""
        self.exact = not need.inexact
        self.notes = list(need.inexact)
        self.need = need
        L = 1
        for p in need.per['i'] | need.nper: L = L * p // math.gcd(L, p)
        pts = sorted({abs(int(x)) for x in need.thr['i'] | need.nthr})
        if pts[-1] >= 1 << 62:
            self.exact = False; self.notes.append('constant %d' % pts[-1]); pts = [x for x in pts if x < 1 << 62]
        up = need.upto
        if up > MAXI // 4: self.exact = False; self.notes.append('scaled constant up to %d' % up); up = 0
        T = max(x for x in pts if x < 1 << 21) + 2
        # between two neighbouring thresholds everything is periodic: one period after each threshold meets every class
        W = L + 2
        merged = []
        for t in [0] + pts:
            lo, hi = max(0, t - 2), t + W
            if merged and lo <= merged[-1][1]: merged[-1][1] = max(merged[-1][1], hi)
            else: merged.append([lo, hi])
        if up: merged[0][1] = max(merged[0][1], up + W)
        if sum(h - l for l, h in merged) <= MAXI: iv = np.unique(np.concatenate([np.arange(l, h, dtype=np.int64) for l, h in merged]))
        else:
            # windows around every multiple of a long period, far enough to meet every short residue
            short = 1
            for p in sorted(need.per['i'] | need.nper):
                q = short * p // math.gcd(short, p)
                if q <= 1 << 20: short = q
            parts = []
            for t in [0] + pts: parts.append(np.arange(max(0, t - 2), t + 2 * short, dtype=np.int64))
            if up: parts.append(np.arange(0, up + short, dtype=np.int64))
            for p in need.per['i'] | need.nper:
                if p > 1 << 20:
                    for k in (1, 2, 3): parts.append(np.arange(max(0, k * p - short), k * p + short, dtype=np.int64))
            iv = np.unique(np.concatenate(parts)); self.exact = False; self.notes.append('period %d' % L)
        # fraction strings
        maxd = 3
        for k in ('f', 't'):
            m = max([abs(x) for x in need.thr[k]] + list(need.per[k]))
            maxd = max(maxd, len(str(m)) + 1)
            for p in need.per[k]:
                if 10 ** len(str(p - 1)) % p and p > 1 and p not in (2, 5): maxd = max(maxd, len(str(p)) + 2)
        if maxd > 5: self.exact = False; self.notes.append('fraction constants with more than 4 digits'); maxd = 5
        vmax = max([x for k in ('v', 'w') for x in need.thr[k] if x < 40] + [0]) + max([p for k in ('v', 'w') for p in need.per[k]]) + 1
        fr = [(0, 0, 0, 0)]
        for v in range(1, maxd + 1):
            for f in range(10 ** v):
                if f == 0: fr.append((v, 0, 0, 0)); continue
                t, w = f, v
                while t % 10 == 0: t //= 10; w -= 1
                fr.append((v, w, f, t))
        # longer strings: leading or trailing zeros around a core, so that v and w reach their thresholds
        if vmax > maxd:
            core = [(v, w, f, t) for (v, w, f, t) in fr if v <= 3]
            for (v, w, f, t) in core:
                for z in range(maxd - v + 1, vmax - v + 1):
                    if f: fr.append((v + z, w + z, f, t))                      # leading zeros
                    if v + z + len(str(f)) <= 18: fr.append((v + z, w, f * 10 ** z, t))   # trailing zeros
        fr = np.array(fr, dtype=np.int64)
        frv = {'v': fr[:, 0], 'w': fr[:, 1], 'f': fr[:, 2], 't': fr[:, 3]}
        half = np.where(fr[:, 3] != 0, 0.5, 0.0)
        # classes of i: signature under every comparison, for the fraction being zero and non-zero
        zero = {k: np.int64(0) for k in 'vwft'}; one = {'v': np.int64(1), 'w': np.int64(1), 'f': np.int64(5), 't': np.int64(5)}
        sigs = []
        frsig = []
        iset = list(dict.fromkeys([0, 1, 2, 3, 5, 10, 11, 21, 100, 101, 1000, 1000000, T, T + L - 1]))
        for tr in truths:
            for h, fz in ((0.0, zero), (0.5, one)):
                env = dict(fz); env['i'] = iv; env['n'] = iv + h
                sigs.append(np.broadcast_to(np.asarray(tr(env)), iv.shape))
        sig = np.array(sigs, dtype=bool) if sigs else np.zeros((1, len(iv)), bool)
        idx = uniq_cols(sig)
        self.iv = iv[np.sort(idx)]
        # classes of the fraction: signature under every comparison for each i representative (capped)
        reps = self.iv if len(self.iv) <= 300 else self.iv[np.linspace(0, len(self.iv) - 1, 300).astype(int)]
        fs = []
        for tr in truths:
            for i in reps:
                env = dict(frv); env['i'] = np.int64(i); env['n'] = i + half
                fs.append(np.broadcast_to(np.asarray(tr(env)), half.shape))
            # squash duplicates now and then
            if len(fs) > 2000: fs = [np.array(x) for x in {a.tobytes(): a for a in fs}.values()]
        fs.append(fr[:, 3] != 0); fs.append(fr[:, 0] != 0)
        fs = list({np.ascontiguousarray(a).tobytes(): a for a in fs}.values())
        fsig = np.packbits(np.array(fs, dtype=bool), axis=0)
        _, idx = np.unique(fsig, axis=1, return_index=True)
        idx = np.sort(idx)
        self.fr = fr[idx]
        self.env = {'i': self.iv[:, None], 'v': self.fr[None, :, 0], 'w': self.fr[None, :, 1], 'f': self.fr[None, :, 2], 't': self.fr[None, :, 3]}
        # exact fraction value keeps n consistent with t/10^w
        self.env['n'] = self.iv[:, None] + np.where(self.fr[None, :, 3] != 0, 0.5, 0.0)
        self.shape = (len(self.iv), len(self.fr))

    def number(self, a, b):
        v, w, f, t = [int(x) for x in self.fr[b]]
        return '%d%s' % (int(self.iv[a]), '' if v == 0 else '.' + str(f).zfill(v))


def eval_dag(root, env, shape, order=None):
    """propagate the set of classes through the decision DAG; returns {leaf: bool array}"""
    # topological order
    indeg = {}; todo = [root]; seen = {}
    while todo:
        n = todo.pop()
        if id(n) in seen: continue
        seen[id(n)] = n
        if not n.is_leaf:
            for c in (n.t, n.f): indeg[id(c)] = indeg.get(id(c), 0) + 1; todo.append(c)
    sets = {id(root): np.ones(shape, bool)}
    out = {}
    ready = [root]
    truth = {}
    while ready:
        n = ready.pop()
        s = sets.pop(id(n))
        if n.is_leaf:
            out[n] = s; continue
        if n.atom not in truth: truth[n.atom] = np.broadcast_to(np.asarray(ev_bool(n.atom, env)), shape)
        tv = truth[n.atom]
        for c, m in ((n.t, s & tv), (n.f, s & ~tv)):
            if id(c) in sets: sets[id(c)] = sets[id(c)] | m
            else: sets[id(c)] = m
            indeg[id(c)] -= 1
            if indeg[id(c)] == 0: ready.append(c)
    return out
