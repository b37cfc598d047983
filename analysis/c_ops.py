"""C07-C11 (conversion part): operands of integers, texts, floats and strings."""
import common, math
from engine import *
from rt import *
from models import M, strip
from strdom import StrDom
import strdom, evalt
from evalt import Ev, eval_dag, Unk, consts_of

FIELDS = 'nivwft'


def convs(rt):
    """source type -> (key, trait kind) for the conversions into PluralOperands"""
    out = {}
    for f in rt.p.fns:
        if f['impl_self'] == PO and f['impl_trait'] and f['name'] in ('from', 'try_from'):
            m = re.match(r'core::convert::(Try)?From<(.*)>$', f['impl_trait'])
            if m: out[re.sub(r"'\w+ ", '', m.group(2))] = (f['key'], 'try' if m.group(1) else 'from', f['span'])
    return out


def field_order(rt):
    t = next(a for a in rt.p.d['adts'] if a['path'] == PO)
    return [f['name'] for f in rt.p.types[t['t']]['variants'][0]['fields']]


def po_fields(rt, v):
    return dict(zip(field_order(rt), v[3]))


def outcome(rt, leaf):
    """('ok', fields) | ('err',) | ('panic', msg) | ('und', why)"""
    if leaf.kind == 'panic': return ('panic', leaf.val)
    if leaf.kind != 'ret': return ('und', '%s %s' % (leaf.kind, leaf.val))
    v = leaf.val
    if v[0] == 'A' and v[1] == PO: return ('ok', po_fields(rt, v))
    if v[0] == 'A' and v[1] == RES:
        if v[2] == 'Err': return ('err',)
        w = v[3][0]
        if w[0] == 'A' and w[1] == PO: return ('ok', po_fields(rt, w))
    return ('und', 'result ' + show(v)[:120])


# ------------------------------------------------------------------ integers
def c07(rep, absorb=False):
    total = 0
    for ptr in (64, 32):
        rt = RT(ptr=ptr)
        cv = convs(rt)
        for ty in ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'u128', 'i128'):
            if ty not in cv:
                if ty in ('u128', 'i128'): continue
                rep.bad(); rep.violation('no conversion from the built-in integer type %s' % ty, 'operands.rs'); continue
            key, kind, span = cv[ty]
            E = Engine(rt.p, M, ptr=ptr)
            root = E.run_fn(key, [V('x', ty)])
            lo, hi = E.rng(ty)
            reps = {lo, lo + 1, hi, hi - 1, 0, 1, -1, 2, -2, 7, -7}
            for k in range(0, E.bits(ty) + 1):
                for d in (-1, 0, 1): reps |= {(1 << k) + d, -(1 << k) + d}
            for c in consts_of(root):
                if c[0] == 'I': reps |= {c[1] + d for d in (-1, 0, 1)} | {-c[1] + d for d in (-1, 0, 1)}
            reps = sorted(r for r in reps if lo <= r <= hi)
            bits_op = 64
            bad = None; und = None
            for n in dag_nodes(root):
                if n.is_leaf and n.kind == 'undecided': und = n.val
            for x in reps:
                total += 1
                ev = Ev(E, {'x': x})
                leaf = eval_dag(root, ev)
                if leaf is None: und = und or 'condition'; continue
                o = outcome(rt, leaf)
                if o[0] == 'und': und = o[1]; continue
                A = abs(x)
                if o[0] == 'panic': bad = bad or (x, 'panics: %s' % o[1]); continue
                if o[0] == 'err':
                    fitting = A < (1 << 64) and not (x == -(1 << 63))
                    if fitting: bad = bad or (x, 'is refused although its absolute value fits')
                    continue
                if A >= 1 << 64: bad = bad or (x, 'is accepted although its absolute value does not fit'); continue
                exp = {'n': float(A), 'i': A, 'v': 0, 'w': 0, 'f': 0, 't': 0}
                for f in FIELDS:
                    try: g = ev(o[1][f])
                    except Unk as e: und = und or 'operand %s: %s' % (f, e); continue
                    if g != exp[f]: bad = bad or (x, 'gives %s = %r instead of %r' % (f, g, exp[f]))
            if bad: rep.bad(); rep.violation('%s value %d %s (on a %d-bit target)' % (ty, bad[0], bad[1], ptr), span, type=ty, value=str(bad[0]), pointer_width=ptr)
            elif und: rep.open('%s (%d-bit): %s' % (ty, ptr, und))
            else:
                # every operation on the path is exact at the breakpoints; remember what the summary is
                rep.ok()
                if ptr == 64 and len(rep.samples) < 4: rep.samples.append({'type': ty, 'function': key, 'leaves': [(show_path(p)[:120], show(l.val)[:200] if isinstance(l.val, tuple) else str(l.val)) for p, l in leaves(root)]})
    rep.cov.update({'conversions': rep.obl, 'boundary_values': total, 'explanation': 'MIR summary of each integer conversion (path conditions and operand terms over the symbolic input), for 32- and 64-bit pointers; terms are piecewise abs/neg/cast/int-to-float, compared with |x| at every breakpoint of the type and of the constants in the summary.'})


# ------------------------------------------------------------------ texts
def shapes():
    """(name, text term, segments, fits, expectation)"""
    D, F, Z = V('INT', 'str'), V('FNZ', 'str'), V('Z', 'str')
    cat = lambda *p: X('cat', *p, ty='str') if len(p) > 1 else p[0]
    S = lambda s: ('S', s)
    L = lambda p: X('len', p, ty='usize')
    num = lambda *p: X('num', cat(*p), ty='u64')
    k = {'INT': 'D', 'FNZ': 'FNZ', 'Z': 'Z'}
    out = []
    for sg in ('', '-'):
        pre = [S(sg)] if sg else []
        bodies = {
            'digits': ([D], {('INT',): True}, dict(n=X('pf64', D, 'f64', ty='f64'), i=num(D), v=I(0), w=I(0), f=I(0), t=I(0))),
            'digits.fraction': ([D, S('.'), F], {('INT',): True, ('FNZ',): True}, dict(n=None, i=num(D), v=L(F), w=L(F), f=num(F), t=num(F))),
            'digits.fraction+zeros': ([D, S('.'), F, Z], {('INT',): True, ('FNZ', 'Z'): True}, dict(n=None, i=num(D), v=X('Add', L(F), L(Z), ty='usize'), w=L(F), f=num(F, Z), t=num(F))),
            'digits.zeros': ([D, S('.'), Z], {('INT',): True}, dict(n=None, i=num(D), v=L(Z), w=I(0), f=I(0), t=I(0))),
        }
        for nm, (ps, fits, exp) in bodies.items():
            exp = dict(exp); exp['n'] = X('pf64', cat(*ps), 'f64', ty='f64')
            out.append((('minus ' if sg else '') + nm, cat(*(pre + ps)), k, fits, exp))
    return out


def bad_shapes():
    """texts that must be refused: (name, text, segments, fits)"""
    D, F, Z, J, D2 = V('INT', 'str'), V('FNZ', 'str'), V('Z', 'str'), V('J', 'str'), V('INT2', 'str')
    cat = lambda *p: X('cat', *p, ty='str') if len(p) > 1 else p[0]
    S = lambda s: ('S', s)
    k = {'INT': 'D', 'INT2': 'D', 'FNZ': 'FNZ', 'Z': 'Z', 'J': 'J'}
    ok = {('INT',): True, ('INT2',): True, ('FNZ',): True, ('FNZ', 'Z'): True}
    out = []
    for nm, ps in [('empty', []), ('minus only', [S('-')]), ('dot only', [S('.')]), ('minus dot', [S('-.')]), ('plus only', [S('+')]),
                   ('double minus', [S('--'), D]), ('double minus with fraction', [S('--'), D, S('.'), F]), ('double minus with zeros', [S('--'), D, S('.'), Z]), ('triple minus', [S('---'), D]), ('minus plus', [S('-+'), D]), ('plus minus', [S('+-'), D]),
                   ('minus plus with fraction', [S('-+'), D, S('.'), F]), ('plus minus with fraction', [S('+-'), D, S('.'), F]),
                   ('junk', [J]), ('minus junk', [S('-'), J]), ('digits junk', [D, J]), ('junk digits', [J, D]), ('digits junk digits', [D, J, D2]), ('minus digits junk', [S('-'), D, J]),
                   ('digits.fraction junk', [D, S('.'), F, J]), ('digits.junk', [D, S('.'), J]), ('junk.digits', [J, S('.'), D]), ('digits junk.fraction', [D, J, S('.'), F]), ('digits.junk fraction', [D, S('.'), J, F]),
                   ('two dots', [D, S('.'), D2, S('.'), F]), ('adjacent dots', [D, S('..'), F]), ('two dots and zeros', [D, S('.'), F, S('.'), Z]),
                   ('dot after zeros', [D, S('.'), Z, S('.')]), ('trailing minus', [D, S('-')]), ('minus inside', [D, S('-'), D2]), ('signed fraction', [D, S('.-'), F]), ('plus fraction', [D, S('.+'), F]), ('signed zeros', [D, S('.-'), Z]), ('plus zeros', [D, S('.+'), Z]), ('fraction minus', [D, S('.'), F, S('-')]),
                   ('leading space', [S(' '), D]), ('trailing space', [D, S(' ')]), ('space inside', [D, S(' '), D2]), ('trailing newline', [D, S('\n')]), ('space after dot', [D, S('. '), F]), ('space in fraction', [D, S('.'), F, S(' ')]), ('minus space', [S('- '), D]),
                   ('thousands separator', [D, S(','), D2]), ('hexadecimal', [S('0x'), D]), ('underscore', [D, S('_'), D2]), ('exponent without digits', [D, S('e')]), ('fraction exponent without digits', [D, S('.'), F, S('e')])]:
        out.append((nm, cat(*ps) if ps else S(''), k, ok))
    for sg in ('', '-'):
        pre = [S(sg)] if sg else []
        m = 'minus ' if sg else ''
        out.append((m + 'integer part too large with fraction', cat(*(pre + [D, S('.'), F])), k, {('INT',): False, ('FNZ',): True}))
        out.append((m + 'integer part too large with zeros', cat(*(pre + [D, S('.'), Z])), k, {('INT',): False}))
        out.append((m + 'fraction too large', cat(*(pre + [D, S('.'), F])), k, {('INT',): True, ('FNZ',): False}))
        out.append((m + 'fraction with zeros too large', cat(*(pre + [D, S('.'), F, Z])), k, {('INT',): True, ('FNZ', 'Z'): False}))
        out.append((m + 'both too large', cat(*(pre + [D, S('.'), F])), k, {('INT',): False, ('FNZ',): False}))
    return out


INT_S = ['0', '1', '7', '12', '10', '100', '007', '1000000', '4294967295', '4294967296', '9007199254740993', '9223372036854775807', '9223372036854775808', '18446744073709551615', '18446744073709551616', '99999999999999999999999', '0000000000000000000000000000012', '2147483648', '340282366920938463463374607431768211456', '0' * 300 + '12']
FNZ_S = ['1', '5', '05', '25', '101', '1001', '123456', '4294967296', '4294967297', '0000000000000000000000007', '9007199254740993', '9223372036854775809', '18446744073709551615', '1844674407370955161', '18446744073709551617', '99999999999999999999999', '000000000000000000005', '1234567890123456789', '0' * 299 + '7', '0' * 69999 + '3']
Z_S = ['0', '00', '000000', '0' * 20, '0' * 25, '0' * 300]
sys.set_int_max_str_digits(0)
J_S = ['x', '_', '\u0661', 'xyz']


def insts(names, extra, fits):
    """instantiations of the segments that respect the size assumptions"""
    from itertools import product
    pools = []
    for n in names:
        base = {'INT': INT_S, 'INT2': INT_S[:6], 'FNZ': FNZ_S, 'Z': Z_S, 'J': J_S}[n]
        pool = list(base)
        for e in extra:
            if n.startswith('INT') and e.isdigit(): pool.append(e)
            if n == 'FNZ' and e.isdigit() and not e.endswith('0'): pool.append(e)
            if n == 'Z' and set(e) == {'0'}: pool.append(e)
        pools.append(list(dict.fromkeys(pool)))
    for c in product(*pools):
        d = dict(zip(names, c))
        ok = True
        for ks, o in fits.items():
            if all(k in d for k in ks):
                if (int(''.join(d[k] for k in ks)) < (1 << 64)) != o: ok = False
        if ok: yield d


def extra_texts(root):
    out = set()
    for c in consts_of(root):
        if c[0] == 'I' and 0 <= c[1] < 1 << 70:
            for d in (-1, 0, 1):
                v = c[1] + d
                if v >= 0: out.add(str(v))
                if 1 <= v <= 300: out |= {'1' * v, '0' * (v - 1) + '1', '0' * v, '1' + '0' * (v - 1), '9' * v}
        if c[0] == 'F' and abs(c[1]) < 1e22 and c[1] == int(c[1]):
            for d in (-1, 0, 1): out.add(str(max(0, int(c[1]) + d)))
    return sorted(out, key=lambda x: (len(x), x))[:90]


def seg_names(t): return [s[1] for s in order_terms(t)]


def order_terms(t):
    if t[0] == 'V': return [t]
    r = []
    for c in children(t):
        if isinstance(c, tuple):
            for x in order_terms(c):
                if x not in r: r.append(x)
    return r


def same(dom, E, f, got, exp, st_assume):
    """symbolic equality of an operand term with the expected term"""
    if got == exp: return True
    if f == 'n':
        # the conversion of an integer text and the rounding of its value agree
        if got[0] == 'X' and got[1] == 'i2f' and got[2][0][0] == 'X' and got[2][0][1] == 'num' and exp[0] == 'X' and exp[1] == 'pf64' and exp[2][0] == got[2][0][2][0]: return True
        if got[0] == 'X' and got[1] == 'fabs': return same(dom, E, f, got[2][0], exp, st_assume)
        if got[0] == 'X' and got[1] == 'Neg' and same(dom, E, f, got[2][0], exp, st_assume):
            # the negative is not below zero on this path, so it is zero
            for a, o in st_assume:
                if not o and a[0] == 'X' and a[1] == 'Lt' and a[2][0] == got and a[2][1] == ('F', 0.0): return True
        return False
    if f in 'vw':
        a, b = dom.lin(None, got), dom.lin(None, exp)
        return a is not None and a == b
    if got[0] == 'X' and got[1] == 'num' and exp[0] == 'X' and exp[1] == 'num': return got[2] == exp[2]
    if got[0] == 'I' and exp[0] == 'I': return got[1] == exp[1]
    return False


def str_fn(rt):
    cv = convs(rt)
    for k in cv:
        if k in ('&str',): return cv[k]
    raise common.CheckError('no conversion from &str')


_conc = {}


def known_text(rt, key, text, byref=True):
    """outcome of a conversion for one fully known text (constant propagation through the MIR)"""
    k = (key, rt.ptr, text, byref)
    if k not in _conc:
        E = Engine(rt.p, M, dom=StrDom({}), ptr=rt.ptr, max_steps=40000)
        o = ('und', '')
        try:
            leaf = eval_dag(E.run_fn(key, [text if byref is None else ('R', ('S', text)) if byref else ('S', text)]), Ev(E, {}))
            if leaf is not None:
                o = outcome(rt, leaf)
                if o[0] == 'ok':
                    ev = Ev(E, {}); o = ('ok', {f: ev(x) for f, x in o[1].items()})
        except (Unk, Undecided, RuntimeError): o = ('und', '')
        _conc[k] = o
    return _conc[k]


def c08(rep, only_plain=False, ptrs=(64, 32)):
    n = 0
    for ptr in ptrs:
        rt = RT(ptr=ptr); key, kind, span = str_fn(rt)
        for (nm, text, segs, fits, exp) in shapes():
            if only_plain and nm.startswith('minus'): continue
            dom = StrDom(segs, fits)
            E = Engine(rt.p, M, dom=dom, ptr=ptr, max_conds=40, max_steps=6000)
            root = E.run_fn(key, [('R', text)])
            ls = list(leaves(root)); n += len(ls)
            names = seg_names(text); ok = True; viol = False
            need_w = []
            for path, leaf in ls:
                o = outcome(rt, leaf)
                if o[0] == 'ok' and all(same(dom, E, f, o[1][f], exp[f], path) for f in FIELDS): continue
                need_w.append((path, leaf, o))
            if need_w:
                # find a witness text for a leaf that does not match
                left = 150
                for d in insts(names, extra_texts(root), fits):
                    ev = Ev(E, d); leaf = eval_dag(root, ev)
                    o = outcome(rt, leaf) if leaf is not None else ('und', '')
                    txt = ev(text)
                    if o[0] == 'und' and left and len(txt) < 60:
                        left -= 1; o = known_text(rt, key, txt)
                        if o[0] == 'ok': o = ('ok', {f: const(x) for f, x in o[1].items()})
                    if o[0] == 'und': continue
                    if o[0] in ('err', 'panic'): viol = (txt, 'is refused' if o[0] == 'err' else 'panics: %s' % o[1]); break
                    for f in FIELDS:
                        try: g, x = ev(o[1][f]), ev(exp[f])
                        except Unk: continue
                        if f in 'vw' and ptr == 32 and x >= 1 << 31: continue
                        if g != x: viol = (txt, 'gives %s = %s, UTS #35 says %s' % (f, g, x)); break
                    if viol: break
                if viol: rep.bad(); rep.violation('text "%s" (%s, %d-bit) %s' % (viol[0], nm, ptr, viol[1]), span, shape=nm, text=viol[0])
                else:
                    p, l, o = need_w[0]
                    rep.open('shape %s (%d-bit): when %s: %s' % (nm, ptr, show_path(p)[:150], show_out(o)))
            else:
                rep.ok()
                if len(rep.samples) < 5: rep.samples.append({'shape': nm, 'text': show(text), 'operands': {f: show(x) for f, x in outcome(rt, ls[0][1])[1].items()}, 'paths': len(ls)})
    rep.cov.update({'text_shapes': len(shapes()) * len(ptrs), 'paths': n, 'function': key, 'explanation': 'MIR summary of the text conversion over symbolic digit runs: each shape of decimal text (sign, digits, fraction digits ending in a non-zero digit, trailing zeros) stands for all texts of that shape; the operand terms at every return must equal the UTS #35 terms (parsed value of the runs, lengths as linear sums).'})


def const(x): return ('F', x) if isinstance(x, float) else ('I', x, 'u64')


def show_out(o):
    if o[0] == 'ok': return 'Ok{%s}' % ', '.join('%s: %s' % (f, show(x)[:60]) for f, x in o[1].items())
    return ' '.join(str(x) for x in o)[:200]


def c10(rep):
    n = 0
    rt = RT(); key, kind, span = str_fn(rt)
    for (nm, text, segs, fits) in bad_shapes():
        dom = StrDom(segs, fits)
        E = Engine(rt.p, M, dom=dom, max_conds=40, max_steps=6000)
        root = E.run_fn(key, [('R', text)])
        ls = list(leaves(root)); n += len(ls)
        rest = [(p, l) for p, l in ls if outcome(rt, l)[0] != 'err']
        if not rest: rep.ok(); continue
        viol = None; left = 60
        for d in insts(seg_names(text), extra_texts(root), fits):
            ev = Ev(E, d); leaf = eval_dag(root, ev)
            o = outcome(rt, leaf) if leaf is not None else ('und', '')
            if o[0] == 'und':
                if left: left -= 1; o = known_text(rt, key, ev(text))
                if o[0] == 'ok': o = ('ok', {f: const(x) for f, x in o[1].items()})
            if o[0] in ('ok', 'panic'): viol = (ev(text), o); break
        if viol: rep.bad(); rep.violation('text "%s" (%s) is not refused: %s' % (viol[0], nm, show_out(viol[1])), span, shape=nm, text=viol[0])
        else: rep.open('shape %s: when %s: %s' % (nm, show_path(rest[0][0])[:150], show_out(outcome(rt, rest[0][1]))))
    # arbitrary text: a success needs a successful parse of the whole text as a number
    root, E, dom = any_dag(rt)
    for p, l in leaves(root):
        n += 1
        o = outcome(rt, l)
        if o[0] != 'ok': rep.ok(); continue
        whole = X('is', X('parse', V('G', 'str'), 'f64'), 'Ok', ty='bool')
        pd = dict(p)
        if pd.get(whole) is True: rep.ok()
        else:
            w = witness_any(E, root, l, lambda s: not strdom.FLOAT_RE.match(s))
            if w is not None: rep.bad(); rep.violation('text "%s" is not a number but is accepted: %s' % (w, show_out(o)), span, text=w)
            else: rep.open('arbitrary text: accepted without parsing the whole text as a number, when %s' % show_path(p)[:200])
    rep.cov.update({'refused_shapes': len(bad_shapes()), 'paths': n, 'function': key, 'explanation': 'MIR summary of the text conversion over symbolic texts of every malformed shape (missing or doubled signs, junk, repeated dots, spaces, parts too large for 64 bits): every path must end in Err; for arbitrary text every success must follow a successful parse of the whole text.'})


ANY_S = ['', '-', '.', '-.', '+', '\u00e9', '-\u00e9', '\u00e9.5', '1.\u00e9', '-1.\u00e9', '\u2212' + '5', '--1', '---', '1.', '.5', '-.5', '1.5', '-1.50', '0', '-0', '-0.0', '+5', '+5.5', '1e5', '1E-5', '1.5e3', 'nan', 'NaN', 'inf', '-inf', 'infinity', 'abc', '1.2.3', '..', '-..', '1..', ' ', ' 1', '1 ', '\n', '\0', '99999999999999999999999', '-99999999999999999999999', '99999999999999999999999.5', '5.99999999999999999999999', '1.000', '12.100', '0.0', '00.00', '-', 'e', 'e5', '.e5', '1.e5', '-1', '\U0001f600', '-\U0001f600', '1\U0001f600.5', '1,5', '0x1', 'x.', '.x', '-x', '-x.y', '\u0661', '1.\u0661', '\u00e9\u00e9', '\u20ac', '-\u20ac.0', '5.\u20ac0', '0.\u20ac']


def any_dag(rt):
    key, kind, span = str_fn(rt)
    dom = StrDom({'G': 'ANY'})
    E = Engine(rt.p, M, dom=dom, ptr=rt.ptr, max_conds=40, max_steps=6000)
    return E.run_fn(key, [('R', V('G', 'str'))]), E, dom


def witness_any(E, root, leaf, cond=lambda s: True):
    for s in ANY_S:
        if not cond(s): continue
        if eval_dag(root, Ev(E, {'G': s})) is leaf: return s
    return None


# ------------------------------------------------------------------ floats and strings
F_S = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, 10.0, 0.1, 0.3, 1.1, 100.0, 1e15, 1e16, 123456789.125, 9007199254740992.0, 9007199254740994.0, 1.8446744073709552e19, 3e19, 1e21, 1e22, 1e300, 1e-7, 5e-324, -1e21, -2.25, 0.1 + 0.2, 4294967296.0, 4294967296.5, 16777217.0, 16777216.0, 1e-5, 0.00005, 0.0001, 0.000123, float('inf'), float('-inf'), float('nan'), 2147483648.0, -2147483648.0, 255.0, 256.0, 65536.0, 0.25, 1e10, 1e20, 1234.5678]


def c09(rep):
    rt = RT(); cv = convs(rt); n = 0
    skey, _, _ = str_fn(rt)
    for ty in ('f32', 'f64', 'alloc::string::String'):
        if ty not in cv: rep.bad(); rep.violation('no conversion from %s' % ty, 'operands.rs'); continue
        key, kind, span = cv[ty]
        isf = ty != 'alloc::string::String'
        x = V('x', ty if isf else 'str')
        text = X('display', x, ty, ty='str') if isf else x

        class D(StrDom):
            def kind(self, v):
                if v[0] == 'X' and v[1] in ('display', 'fmtopt'): return 'ANY'
                return StrDom.kind(self, v)
        dom = D({'x': 'ANY'} if not isf else {})
        # 1. the conversion delegates to the text conversion on exactly the displayed text
        def hook(E, st, ft, args, term):
            if ft.get('key') == skey: return X('conv', strip(E, st, args[0]))
            nm = norm_path(ft['path'])
            if nm in ('TryFrom::try_from', 'TryInto::try_into', 'FromStr::from_str') and ft.get('rpath') and args and args[0][0] == 'R':
                T = [E.p.types[t]['s'] for t in ft.get('args', [])]
                if any(t == PO for t in T) and any(re.sub(r"'\w+ ", '', t) == '&str' for t in T): return X('conv', strip(E, st, args[0]))
            return None
        H = Engine(rt.p, M, dom=dom, hook=hook, max_conds=40, max_steps=6000)
        r0 = H.run_fn(key, [x])
        n += 1
        want = X('conv', text)
        ls = list(leaves(r0))
        if ls and all(l.kind == 'ret' and l.val == want for _, l in ls) or all_paths_conv(ls, want):
            rep.ok(); rep.samples.append({'type': ty, 'function': key, 'result': show(want)}); continue
        # 2. same summary as the text conversion of the displayed text
        E = Engine(rt.p, M, dom=dom, max_conds=40, max_steps=6000)
        r1 = E.run_fn(key, [x]); r2 = E.run_fn(skey, [('R', text)])
        und = any(nd.is_leaf and nd.kind == 'undecided' for nd in dag_nodes(r1) + dag_nodes(r2))
        if r1 is r2 and not und: rep.ok(); continue
        # 3. look for a value on which they differ
        pool = ANY_S if not isf else [evalt.f32(v) if ty == 'f32' else v for v in F_S]
        for c in consts_of(r1):
            if isf and c[0] == 'F': pool = pool + [c[1], c[1] + 1, c[1] - 1, -c[1], c[1] + 0.5]
            if isf and c[0] == 'I' and abs(c[1]) < 1 << 100: pool = pool + [float(c[1]), float(c[1]) + 1, -float(c[1]), c[1] + 0.5]
        bad = None
        for v in pool:
            if isf and ty == 'f32': v = evalt.f32(v)
            ev = Ev(E, {'x': v})
            a, b = eval_dag(r1, ev), eval_dag(r2, ev)
            if a is None or b is None: continue
            oa, ob = outcome(rt, a), outcome(rt, b)
            if 'und' in (oa[0], ob[0]): continue
            if oa[0] != ob[0]: bad = (v, oa, ob, ev); break
            if oa[0] == 'ok':
                try: da = {f: ev(oa[1][f]) for f in FIELDS}; db = {f: ev(ob[1][f]) for f in FIELDS}
                except Unk: continue
                if any(da[f] != db[f] and not (da[f] != da[f] and db[f] != db[f]) for f in FIELDS): bad = (v, ('ok', da), ('ok', db), ev); break
        # or a definite different text handed over
        if bad is None and isf:
            for p, l in ls:
                if l.kind == 'ret' and l.val[0] == 'X' and l.val[1] == 'conv' and l.val != want:
                    for v in pool:
                        v = evalt.f32(v) if ty == 'f32' else v
                        ev = Ev(H, {'x': v})
                        try:
                            if eval_dag(r0, ev) is l and ev(l.val[2][0]) != ev(text):
                                ta, tb = ev(l.val[2][0]), ev(text)
                                if differ(rt, ta, tb): bad = (v, ('converts the text', ta), ('displays as', tb), ev); break
                        except Unk: continue
                if bad: break
        if bad is None and not isf:
            for p, l in ls:
                if l.kind == 'ret' and l.val[0] == 'X' and l.val[1] == 'conv' and l.val != want:
                    for v in ANY_S:
                        ev = Ev(H, {'x': v})
                        try:
                            if eval_dag(r0, ev) is l and differ(rt, ev(l.val[2][0]), v): bad = (v, ('converts the text', ev(l.val[2][0])), ('holds', v), ev); break
                        except Unk: continue
                if bad: break
        # or known values, propagated through both conversions
        if bad is None:
            for v in dict.fromkeys(pool):
                arg = ('F', v) if isf else ('S', v)
                if isf and v != v: continue
                txt = evalt.Ev(E, {'x': v})(text)
                oa = known_text(rt, key, arg, None); ob = known_text(rt, skey, txt)
                if 'und' in (oa[0], ob[0]): continue
                if oa[0] != ob[0] or oa[0] == 'ok' and any(oa[1][f] != ob[1][f] and oa[1][f] == oa[1][f] for f in FIELDS): bad = (v, oa[:2], ob[:2], None); break
        if bad: rep.bad(); rep.violation('%s value %r: conversion gives %s but its displayed text gives %s' % (ty, bad[0], tidy(bad[1]), tidy(bad[2])), span, type=ty, value=repr(bad[0]))
        else: rep.open('%s: conversion is not visibly the conversion of the displayed text: %s' % (ty, show(ls[0][1].val)[:150] if isinstance(ls[0][1].val, tuple) else ls[0][1].val))
    rep.cov.update({'conversions': n, 'explanation': 'MIR summary of each conversion: it must return the text conversion applied to the Display text of the argument, or have the identical decision DAG.'})


def tidy(o): return ' '.join(str(x) for x in o)


def differ(rt, a, b):
    """do two concrete texts get different results (by the summary of the text conversion)?"""
    root, E, dom = any_dag(rt)
    out = []
    for s in (a, b):
        ev = Ev(E, {'G': s}); l = eval_dag(root, ev)
        if l is None: return False
        o = outcome(rt, l)
        if o[0] == 'ok':
            try: o = ('ok', tuple(ev(o[1][f]) for f in FIELDS))
            except Unk: return False
        out.append(o[:2] if o[0] == 'ok' else o[:1])
    return out[0] != out[1]


def all_paths_conv(ls, want):
    """map_err-like wrappers: Ok(payload of conv) / Err(anything) per the outcome of conv"""
    if not ls: return False
    isok = X('is', want, 'Ok', ty='bool')
    for p, l in ls:
        if l.kind != 'ret': return False
        if l.val == want: continue
        d = dict(p)
        if d.get(isok) is True and l.val == Ok(X('fld', want, 0, 'Ok')): continue
        if d.get(isok) is False and l.val[0] == 'A' and l.val[2] == 'Err': continue
        return False
    return True
