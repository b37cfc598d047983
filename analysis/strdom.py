"""Abstract domain of numeric texts.

A text is a concatenation of parts: literal pieces and symbolic segments.
Segment kinds:
  D    one or more decimal digits
  FNZ  one or more decimal digits, the last one not 0
  Z    one or more zeros
  J    one or more characters that occur in no number
  ANY  arbitrary text (refined along a path by what was tested)
Lengths and offsets are linear sums of segment lengths."""
import re
from engine import *
import models
from models import str_concat, strip, it, where

DIG = '0123456789'
OUT = ['x', '_', ',', '*', '\u0661', '\uff15']     # representatives of characters that occur in no number
FLOAT_RE = re.compile(r'[+-]?(inf|infinity|nan|(\d+\.?\d*|\.\d+)(e[+-]?\d+)?)\Z', re.I)


class Opq(Exception): pass


class StrDom:
    def __init__(self, segs, fits=None):
        self.segs = dict(segs)          # name -> kind
        self.fits = dict(fits or {})    # (tuple of part names) -> bool, for 64-bit unsigned
        self._pred = {}

    # ---- structure
    def kind(self, v):
        if v[0] == 'V': return self.segs.get(v[1])
        if v[0] == 'X' and v[1] == 'sub': return 'ANY'
        return None

    def flat(self, st, v):
        """list of parts, or None"""
        if v[0] == 'S': return [v] if v[1] else []
        if v[0] == 'C': return [('S', v[1])]
        if v[0] == 'X' and v[1] == 'cat':
            out = []
            for p in v[2]:
                q = self.flat(st, p)
                if q is None: return None
                out += q
            return out
        k = self.kind(v)
        if k is None: return None
        if k == 'ANY' and st is not None:
            for a, o in st.assume.items():
                if not o or a[0] != 'X' or a[2][0] != v: continue
                if a[1] == 'starts': return [('S', a[2][1][1])] + self.flat(st, X('sub', v, 'tail', ty='str'))
            for a, o in st.assume.items():
                if not o or a[0] != 'X' or a[2][0] != v: continue
                if a[1] == 'has':
                    d = a[2][2]
                    if d == 'first': return self.flat(st, X('sub', v, 'before', a[2][1][1], ty='str')) + [('S', a[2][1][1])] + self.flat(st, X('sub', v, 'after', a[2][1][1], ty='str'))
        return [v]

    def build(self, parts):
        r = ('S', '')
        for p in parts: r = str_concat(r, p)
        return r

    def lin(self, st, t):
        """(constant, {part: multiplicity}) of a length term, or None"""
        if t[0] == 'I': return (t[1], {})
        if t[0] == 'X':
            if t[1] == 'len':
                ps = self.flat(st, t[2][0])
                if ps is None: return None
                c = 0; m = {}
                for p in ps:
                    if p[0] == 'S': c += len(p[1].encode())
                    else: m[p] = m.get(p, 0) + 1
                return (c, m)
            if t[1] in ('Add', 'Sub'):
                a, b = self.lin(st, t[2][0]), self.lin(st, t[2][1])
                if a is None or b is None: return None
                s = 1 if t[1] == 'Add' else -1
                m = dict(a[1])
                for k, x in b[1].items():
                    m[k] = m.get(k, 0) + s * x
                    if m[k] == 0: del m[k]
                return (a[0] + s * b[0], m)
        return None

    def len_term(self, parts):
        """engine term for the total length of the parts"""
        c = 0; r = None
        for p in parts:
            if p[0] == 'S': c += len(p[1].encode())
            else:
                l = X('len', p, ty='usize')
                r = l if r is None else X('Add', r, l, ty='usize')
        if r is None: return I(c)
        return r if c == 0 else X('Add', r, I(c), ty='usize')

    def minlen(self, p):
        k = self.kind(p)
        return 0 if k == 'ANY' else 1

    def lin_range(self, l):
        c, m = l
        lo = hi = c
        for p, k in m.items():
            if k > 0: lo += k * self.minlen(p); hi = None
            else: hi = None if hi is None else hi + k * self.minlen(p); lo = None
        if any(k < 0 for k in m.values()): lo = None
        if any(k > 0 for k in m.values()): hi = None
        return lo, hi

    def strlen(self, E, v):
        ps = self.flat(None, v)
        if ps is None: return None
        return self.len_term(ps)

    def position(self, st, parts, off):
        """(index of part, offset inside it) for the linear offset, matching prefix lengths of the parts; None if it cannot be placed"""
        c, m = off
        need = dict(m); i = 0
        # walk the parts; consume segments of the offset
        while True:
            if not need:
                # constant left: must fall in literal parts or inside a digit segment
                while i < len(parts):
                    p = parts[i]
                    if c == 0: return (i, 0)
                    if p[0] == 'S':
                        n = len(p[1].encode())
                        if c < n: return (i, c)
                        c -= n; i += 1
                    else:
                        return (i, c)
                return (i, 0) if c == 0 else (i, c)
            if i >= len(parts): return None
            p = parts[i]
            if p[0] == 'S': c -= len(p[1].encode()); i += 1; continue
            if need.get(p, 0) >= 1:
                need[p] -= 1
                if need[p] == 0: del need[p]
                i += 1; continue
            return None

    # ---- character sets
    def pred(self, E, st, p):
        """pattern -> predicate on a concrete character (True/False/None), plus a canonical key"""
        p = strip(E, st, p) if p[0] in ('R', 'M') else p
        if p[0] == 'C': return (lambda c: c == p[1]), p
        if p[0] == 'S' and len(p[1]) == 1: return (lambda c: c == p[1]), ('C', p[1])
        if p[0] == 'L' and all(x[0] == 'C' for x in p[1]):
            s = {x[1] for x in p[1]}
            return (lambda c: c in s), p
        if p[0] in ('CL', 'FN', 'FNK'):
            def f(c):
                k = (p, c)
                if k not in self._pred:
                    S = Engine(E.p, E.models, dom=None, ptr=E.ptr)
                    st2 = St([PF('ret1', None, {})])
                    try:
                        r = S.invoke_value(st2, p, [('C', c)])
                        if r is None: r = S.run(st2)
                        self._pred[k] = r.val[1] if r.is_leaf and r.kind == 'ret' and r.val[0] == 'B' else None
                    except Undecided: self._pred[k] = None
                return self._pred[k]
            return f, p
        return None, None

    def chars(self, p, pos='any'):
        """possible characters of a segment (first/last/any)"""
        k = self.kind(p)
        if k == 'D': return DIG
        if k == 'FNZ': return DIG[1:] if pos == 'last' else DIG
        if k == 'Z': return '0'
        if k == 'J': return OUT
        return None

    def uniform(self, pr, p, pos='any'):
        """True/False when the predicate is the same on every character the segment may have there; else None"""
        cs = self.chars(p, pos)
        if cs is None: return None
        rs = {pr(c) for c in cs}
        return rs.pop() if len(rs) == 1 else None

    # ---- strings
    def str_method(self, E, st, n, v, rest, cx, ty=None):
        try: return self._m(E, st, n, v, rest, cx, ty)
        except Opq: return None

    def _m(self, E, st, n, v, rest, cx, ty):
        parts = self.flat(st, v)
        if parts is None: return None
        n = {'trim_right_matches': 'trim_end_matches', 'trim_left_matches': 'trim_start_matches', 'trim_left': 'trim_start', 'trim_right': 'trim_end'}.get(n, n)
        S = lambda ps: ('R', self.build(ps))
        again = lambda s: self._again(E, s, n, v, rest, cx, ty)
        if n == 'parse':
            t = ty
            if t is None:
                for i in range(len(cx.ft.get('args', []))): t = cx.targ(i)['s']
            return self.parse(E, st, v, parts, t)
        if n in ('starts_with', 'strip_prefix', 'ends_with', 'strip_suffix'):
            front = n in ('starts_with', 'strip_prefix')
            p = rest[0]
            if p[0] == 'S' and len(p[1]) != 1:
                if p[1] == '': return TRUE if n.endswith('with') else Some(S(parts))
                if not front: raise Opq
                # literal prefix
                s = p[1]; i = 0; lit = ''
                while i < len(parts) and parts[i][0] == 'S' and len(lit) < len(s): lit += parts[i][1]; i += 1
                if lit.startswith(s): return TRUE if n == 'starts_with' else Some(S([('S', lit[len(s):])] + parts[i:]))
                if not s.startswith(lit) or i == len(parts): return FALSE if n == 'starts_with' else NONE
                c = s[len(lit)]
                if self.uniform(lambda x: x == c, parts[i], 'first') is False: return FALSE if n == 'starts_with' else NONE
                raise Opq
            pr, key = self.pred(E, st, p)
            if pr is None: raise Opq
            if not parts: return FALSE if n.endswith('with') else NONE
            e = parts[0] if front else parts[-1]
            if e[0] == 'S': r = pr(e[1][0] if front else e[1][-1])
            else: r = self.uniform(pr, e, 'first' if front else 'last')
            if r is None:
                if self.kind(e) == 'ANY' and front and key[0] == 'C':
                    a = X('starts', e, key, ty='bool')
                    d = E.decide(st, a)
                    if d is None:
                        if n == 'starts_with' : return Fork(a, lambda s: TRUE, lambda s: FALSE)
                        return Fork(a, again, again)
                    # decided False (True would have been expanded); an empty ANY may hide the next part
                    if d is False: return FALSE if n == 'starts_with' else NONE
                if n.endswith('with') and e[0] != 'S': return X(n, v, key, ty='bool')
                raise Opq
            if n.endswith('with'): return mkbool(r)
            if not r: return NONE
            if e[0] != 'S': raise Opq
            return Some(S([('S', e[1][1:])] + parts[1:])) if front else Some(S(parts[:-1] + [('S', e[1][:-1])]))
        if n in ('find', 'contains', 'split_once', 'rfind', 'rsplit_once'):
            back = n in ('rfind', 'rsplit_once')
            pr, key = self.pred(E, st, rest[0])
            if pr is None: raise Opq
            order = list(range(len(parts)))
            if back: order.reverse()
            hit = None
            for i in order:
                p = parts[i]
                if p[0] == 'S':
                    cs = [j for j, c in enumerate(p[1]) if pr(c)]
                    if any(pr(c) is None for c in p[1]): raise Opq
                    if cs: hit = (i, cs[-1] if back else cs[0]); break
                    continue
                u = self.uniform(pr, p)
                if u is False: continue
                if u is True and not back: hit = (i, 0); break
                if self.kind(p) == 'ANY' and key[0] == 'C' and not back:
                    # parts of a split text hold no such character before the split
                    if p[0] == 'X' and p[1] == 'sub' and p[2][1] == 'before' and p[2][2] == key[1]: continue
                    if p[0] == 'X' and p[1] == 'sub' and p[2][1] == 'tail' and False: continue
                    a = X('has', p, key, 'first', ty='bool')
                    d = E.decide(st, a)
                    if d is None: return Fork(a, again, again)
                    if d is False: continue
                raise Opq
            if hit is None:
                return FALSE if n == 'contains' else NONE
            if n == 'contains': return TRUE
            i, j = hit
            p = parts[i]
            if p[0] == 'S': pre = parts[:i] + ([('S', p[1][:j])] if j else []); post = ([('S', p[1][j + 1:])] if p[1][j + 1:] else []) + parts[i + 1:]
            else: pre = parts[:i]; post = None
            if n in ('find', 'rfind'): return Some(self.len_term(pre))
            if post is None: raise Opq
            return Some(('T', (S(pre), S(post))))
        if n in ('split', 'splitn'):
            pr, key = self.pred(E, st, rest[-1])
            if pr is None: raise Opq
            lim = None
            if n == 'splitn':
                if rest[0][0] != 'I': raise Opq
                lim = rest[0][1]
            out = [[]]
            for p in parts:
                if p[0] == 'S':
                    for c in p[1]:
                        r = pr(c)
                        if r is None: raise Opq
                        if r and (lim is None or len(out) < lim): out.append([])
                        else: out[-1].append(('S', c))
                else:
                    if lim is not None and len(out) >= lim or p[0] == 'X' and p[1] == 'sub' and p[2][1] == 'before' and ('C', p[2][2]) == key: pass
                    elif self.kind(p) == 'ANY' and key[0] == 'C':
                        a = X('has', p, key, 'first', ty='bool')
                        d = E.decide(st, a)
                        if d is None:
                            k = 0; q = p
                            while q[0] == 'X' and q[1] == 'sub': k += 1; q = q[2][0]
                            if k > 4: raise Opq
                            return Fork(a, again, again)
                        if d is True: raise Opq
                    elif self.uniform(pr, p) is not False: raise Opq
                    out[-1].append(p)
            return it('list', ('L', tuple(S(x) for x in out)), I(0))
        if n in ('trim_end_matches', 'trim_start_matches', 'trim_matches', 'trim', 'trim_start', 'trim_end'):
            if n in ('trim', 'trim_start', 'trim_end'): pr = lambda c: c.isspace()
            else:
                pr, key = self.pred(E, st, rest[0])
                if pr is None: raise Opq
            ps = list(parts)
            if n in ('trim_end_matches', 'trim_matches', 'trim', 'trim_end'):
                while ps:
                    e = ps[-1]
                    if e[0] == 'S':
                        s = e[1]
                        while s and pr(s[-1]): s = s[:-1]
                        if s: ps[-1] = ('S', s); break
                        ps.pop(); continue
                    if self.uniform(pr, e, 'last') is False: break
                    if self.uniform(pr, e) is True: ps.pop(); continue
                    raise Opq
            if n in ('trim_start_matches', 'trim_matches', 'trim', 'trim_start'):
                while ps:
                    e = ps[0]
                    if e[0] == 'S':
                        s = e[1]
                        while s and pr(s[0]): s = s[1:]
                        if s: ps[0] = ('S', s); break
                        ps.pop(0); continue
                    if self.uniform(pr, e, 'first') is False: break
                    if self.uniform(pr, e) is True: ps.pop(0); continue
                    raise Opq
            return S(ps)
        if n == 'split_at':
            pos = self.lin(st, rest[0])
            if pos is None: raise Opq
            at = self.position(st, parts, pos)
            r = self.cut(st, parts, at)
            if r is None: raise Opq
            return ('T', (S(r[0]), S(r[1])))
        if n == 'get' and rest and rest[0][0] == 'A':
            r = self.str_index(E, st, v, rest[0], '')
            if r is None: raise Opq
            if isinstance(r, Panic): return NONE
            if isinstance(r, Fork): raise Opq
            return Some(r)
        if n in ('chars', 'bytes'):
            if all(p[0] == 'S' for p in parts): return None
            return it('schars' if n == 'chars' else 'sbytes', self.build(parts))
        if n in ('eq', 'ne'): return None
        if n in ('to_lowercase', 'to_ascii_lowercase', 'to_uppercase', 'to_ascii_uppercase', 'to_string'):
            if all(p[0] == 'S' or self.kind(p) in ('D', 'FNZ', 'Z') for p in parts):
                return self.build([('S', p[1].lower() if 'lower' in n else p[1].upper()) if p[0] == 'S' else p for p in parts])
        return None

    def _again(self, E, s, n, v, rest, cx, ty):
        r = self.str_method(E, s, n, v, rest, cx, ty)
        if r is None:
            t = X('str.' + n, v, *rest, ty=None)
            return t
        return r

    def cut(self, st, parts, at):
        if at is None: return None
        i, c = at
        if i >= len(parts): return (parts, []) if c == 0 else None
        if c == 0: return parts[:i], parts[i:]
        p = parts[i]
        if p[0] == 'S':
            b = p[1].encode()
            try: return parts[:i] + [('S', b[:c].decode())], [('S', b[c:].decode())] + parts[i + 1:]
            except UnicodeDecodeError: return None
        return None

    def str_index(self, E, st, v, r, where_):
        parts = self.flat(st, v)
        if parts is None or r[0] != 'A': return None
        k = r[2]; f = r[3]
        lo = (0, {}); hi = None
        if k == 'RangeFrom': lo = self.lin(st, f[0])
        elif k == 'RangeTo': hi = self.lin(st, f[0])
        elif k == 'Range': lo, hi = self.lin(st, f[0]), self.lin(st, f[1])
        elif k == 'RangeFull': return ('R', self.build(parts))
        elif k == 'RangeToInclusive':
            hi = self.lin(st, f[0])
            if hi is not None: hi = (hi[0] + 1, hi[1])
        else: return None
        if lo is None or (k in ('RangeTo', 'Range', 'RangeToInclusive') and hi is None): return None
        out = parts
        if hi is not None:
            c = self.cut(st, out, self.position(st, out, hi))
            if c is None: return self.bad_index(E, st, v, parts, hi, r, where_)
            out = c[0]
        c = self.cut(st, out, self.position(st, out, lo))
        if c is None: return self.bad_index(E, st, v, parts, lo, r, where_)
        return ('R', self.build(c[1]))

    def bad_index(self, E, st, v, parts, off, r, where_):
        """an index that is not known to be a character boundary"""
        total = self.lin(st, self.len_term(parts))
        c, m = off
        # beyond the end for certain?
        d = dict(m)
        for p, k in total[1].items(): d[p] = d.get(p, 0) - k
        d = {p: k for p, k in d.items() if k}
        if not d and c > total[0]: return Panic('string index out of bounds at ' + where_)
        # inside a digit segment
        at = self.position(st, parts, off)
        if at is not None and at[0] < len(parts) and self.kind(parts[at[0]]) in ('D', 'FNZ', 'Z') and at[1] >= 0 and at[1] <= 1:
            return ('R', X('strsub', v, r, ty='str'))
        atom = X('boundary', v, repr(off), ty='bool')
        return Fork(atom, lambda s: ('R', X('strsub', v, r, ty='str')), lambda s: Panic('string index not known to be in bounds and on a character boundary at ' + where_))

    # ---- numbers
    def parse(self, E, st, v, parts, ty):
        INTS = set(INT_BITS) | {'usize', 'isize'}
        if any(self.kind(p) == 'ANY' for p in parts if p[0] != 'S'):
            return X('parse', self.build(parts) if not (v[0] == 'V') else v, ty)
        img = ''.join(p[1] if p[0] == 'S' else {'D': '9', 'FNZ': '9', 'Z': '0', 'J': '?'}[self.kind(p)] for p in parts)
        if ty in ('f64', 'f32'):
            if not FLOAT_RE.match(img): return Err(X('ParseFloatError'))
            ps = list(parts); neg = False
            if ps[0][0] == 'S' and ps[0][1][0] in '+-':
                neg = ps[0][1][0] == '-'
                ps[0] = ('S', ps[0][1][1:])
                if not ps[0][1]: ps.pop(0)
            t = X('pf64', self.build(ps), ty, ty=ty)
            return Ok(X('Neg', t, ty=ty) if neg else t)
        if ty in INTS:
            signed = ty[0] == 'i'
            if not re.match(r'[+-]?\d+\Z' if signed else r'[+]?\d+\Z', img): return Err(X('ParseIntError'))
            ps = list(parts); neg = False
            if ps[0][0] == 'S' and ps[0][1][0] in '+-':
                neg = ps[0][1][0] == '-'
                ps[0] = ('S', ps[0][1][1:])
                if not ps[0][1]: ps.pop(0)
            if all(p[0] == 'S' or self.kind(p) == 'Z' for p in ps) and all(p[0] != 'S' or set(p[1]) <= {'0'} for p in ps): return Ok(('I', 0, ty))
            if all(p[0] == 'S' for p in ps):
                val = int(''.join(p[1] for p in ps)); val = -val if neg else val
                lo, hi = E.rng(ty)
                return Ok(('I', val, ty)) if lo <= val <= hi else Err(X('ParseIntError'))
            txt = self.build(ps)
            val = X('num', txt, ty=ty)
            if neg: val = X('Neg', val, ty=ty)
            atom = X('fits', txt, ty, ty='bool')
            return Fork(atom, lambda s: Ok(val), lambda s: Err(X('ParseIntError')))
        if ty == 'char': return None
        return None

    def fit(self, txt, bits):
        """does the digit text fit in an unsigned integer of that many bits (None: unknown)"""
        ps = txt[2] if txt[0] == 'X' and txt[1] == 'cat' else (txt,)
        names = tuple(p[1] for p in ps)
        r = self.fits.get(names)
        if r is True and bits >= 64: return True
        if r is False and bits <= 64: return False
        if bits >= 64:
            for k, o in self.fits.items():
                if o and len(names) < len(k) and any(k[i:i + len(names)] == names for i in range(len(k))): return True
        return None

    def range(self, E, v):
        if v[0] == 'X':
            if v[1] == 'num':
                ps = v[2][0][2] if v[2][0][0] == 'X' and v[2][0][1] == 'cat' else (v[2][0],)
                nz = any(self.kind(p) == 'FNZ' for p in ps)
                b = E.bits(v[3])
                hi = (1 << (b - 1 if v[3][0] == 'i' else b)) - 1
                if self.fit(v[2][0], 64): hi = min(hi, (1 << 64) - 1)
                return (1 if nz else 0, hi)
            if v[1] in ('len', 'Add', 'Sub'):
                l = self.lin(None, v)
                if l is not None and l[1]:
                    lo, hi = self.lin_range(l)
                    return (lo if lo is not None else 0, hi if hi is not None else (1 << 62) if E.ptr == 64 else (1 << 30))
            if v[1] == 'f2i': return None
        return None

    def fabs(self, E, v):
        if v[0] == 'X' and v[1] == 'pf64': return v
        if v[0] == 'X' and v[1] == 'Neg' and v[2][0][0] == 'X' and v[2][0][1] == 'pf64': return v[2][0]
        return None

    def decide(self, E, st, atom):
        if atom[0] != 'X': return None
        op, a = atom[1], atom[2]
        if op == 'fits':
            ty = a[1]; b = E.bits(ty); b = b - 1 if ty[0] == 'i' else b
            if b >= 64: return self.fit(a[0], b)
            if self.fit(a[0], 64) is False: return False
            return None
        if op == 'ovf':
            la, lb = self.lin(st, a[1]), self.lin(st, a[2])
            if la is not None and lb is not None and (la[1] or lb[1]):
                if a[0] == 'Add' and la[0] < 1 << 20 and lb[0] < 1 << 20: return False
                if a[0] == 'Sub':
                    d = self.lin(st, X('Sub', a[1], a[2]))
                    lo, hi = self.lin_range(d)
                    if lo is not None and lo >= 0: return False
                    if hi is not None and hi < 0: return True
            return None
        if op in ('Eq', 'Lt', 'Le'):
            x, y = a
            la, lb = self.lin(st, x), self.lin(st, y)
            if la is not None and lb is not None:
                d = self.lin(st, X('Sub', x, y))
                lo, hi = self.lin_range(d)
                if op == 'Eq':
                    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
                    if lo == 0 and hi == 0: return True
                else:
                    k = 0 if op == 'Lt' else 1
                    if hi is not None and hi < k: return True
                    if lo is not None and lo >= k: return False
            rx, ry = E.term_range(x), E.term_range(y)
            if rx and ry:
                if op == 'Eq' and (rx[1] < ry[0] or ry[1] < rx[0]): return False
                if op == 'Lt':
                    if rx[1] < ry[0]: return True
                    if rx[0] >= ry[1]: return False
            # equality of texts by their first difference in literal/digit class
            if op == 'Eq':
                p, q = self.flat(st, x), self.flat(st, y)
                if p is not None and q is not None: return self.text_eq(p, q)
            if op == 'Lt':
                # signed floats: a parsed text without a minus sign is not negative
                if y[0] == 'F' and y[1] == 0.0 and x[0] == 'X' and x[1] == 'pf64': return False
        if op == 'is_sign_negative':
            if a[0][0] == 'X' and a[0][1] == 'pf64': return False
            if a[0][0] == 'X' and a[0][1] == 'Neg' and a[0][2][0][0] == 'X' and a[0][2][0][1] == 'pf64': return True
        if op in ('is_nan', 'is_infinite', 'is_finite'):
            x = a[0]
            if x[0] == 'X' and x[1] == 'Neg': x = x[2][0]
            if x[0] == 'X' and x[1] == 'pf64' and op == 'is_nan': return False
        return None

    def text_eq(self, p, q):
        if p == q: return True
        if not p or not q:
            r = p or q
            return False if any(e[0] == 'S' or self.minlen(e) > 0 for e in r) else None
        a, b = p[0], q[0]
        ca = a[1][0] if a[0] == 'S' else self.chars(a, 'first')
        cb = b[1][0] if b[0] == 'S' else self.chars(b, 'first')
        if ca is None or cb is None: return None
        if not (set(ca) & set(cb)): return False
        return None

    def payload(self, E, v, name): return None

    def as_bytes(self, E, st, v): return None

    def end_byte(self, E, st, v, front):
        """first or last byte of a text: Option<&u8>"""
        parts = self.flat(st, v)
        if parts is None: raise Undecided('first of symbolic slice')
        if not parts: return NONE
        e = parts[0 if front else -1]
        if e[0] == 'S':
            b = e[1].encode()
            return Some(('R', ('I', b[0 if front else -1], 'u8')))
        some = Some(('R', X('byte', e, 'first' if front else 'last', ty='u8')))
        if self.minlen(e) > 0: return some
        if len(parts) > 1: raise Undecided('end byte of symbolic text')
        return Fork(E.cmp('Eq', E.length(v), I(0), 'usize'), lambda s: NONE, lambda s: some)

    def byte_eq(self, b, c):
        e, end = b[2][0], b[2][1]
        if c >= 128: return None
        r = self.uniform(lambda x: x == chr(c), e, end)
        if r is not None: return mkbool(r)
        if self.kind(e) == 'ANY' and end == 'first': return X('starts', e, ('C', chr(c)), ty='bool')
        return X('ends_with' if end == 'last' else 'starts_with', e, ('C', chr(c)), ty='bool')


# consumers of symbolic character iterators
def _quant(name):
    old = models.M['Iterator::' + name]

    def f(E, st, a, cx):
        v = a[0]
        w = E.load(st, v) if v[0] == 'M' else v
        if w[0] == 'A' and w[1] == models.ITER and w[2] in ('schars', 'sbytes') and isinstance(E.dom, StrDom):
            parts = E.dom.flat(st, w[3][0])
            if parts is None: raise Undecided('characters of symbolic text')
            clo = strip(E, st, a[1])

            def pr(c):
                S = Engine(E.p, E.models, dom=None, ptr=E.ptr)
                st2 = St([PF('ret1', None, {})])
                try:
                    r = S.invoke_value(st2, clo, [('C', c) if w[2] == 'schars' else ('I', c.encode()[0], 'u8')])
                    if r is None: r = S.run(st2)
                except Undecided: return None
                return r.val[1] if r.is_leaf and r.kind == 'ret' and r.val[0] == 'B' else None
            unk = False
            for p in parts:
                us = [pr(c) for c in p[1]] if p[0] == 'S' else [E.dom.uniform(pr, p)]
                for u in us:
                    if u is None: unk = True
                    elif u != (name == 'all'): return mkbool(u)
            if unk: return X('chars_' + name, w[3][0], clo, ty='bool')
            return mkbool(name == 'all')
        return old(E, st, a, cx)
    models.M['Iterator::' + name] = f


_quant('all'); _quant('any')

_old_next = models.nxt


def _nxt(E, st, mref):
    v = E.load(st, mref)
    if v[0] == 'A' and v[1] == models.ITER and v[2] in ('schars', 'sbytes') and isinstance(E.dom, StrDom):
        parts = E.dom.flat(st, v[3][0])
        if parts is not None:
            if not parts: return NONE
            p = parts[0]
            if p[0] == 'S' and (v[2] == 'schars' or ord(p[1][0]) < 128):
                E.store(st, mref, ('A', v[1], v[2], (E.dom.build([('S', p[1][1:])] + parts[1:]),)))
                return Some(('C', p[1][0]) if v[2] == 'schars' else ('I', ord(p[1][0]), 'u8'))
        raise Undecided('next character of symbolic text')
    return _old_next(E, st, mref)


models.nxt = _nxt
