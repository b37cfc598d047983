"""Further std models: in-place vector edits, sorting, searches for extrema, string edits, map entries."""
import re
from engine import *
import models
from models import M, model, strip, branch, eq_val, where, into_iter, itarg, lst, rest, drain, str_concat, it, btree_find, btree_ins, default_of


def target(E, st, m):
    """the place a (possibly nested) &mut points to, and its value"""
    v = E.load(st, m)
    while v[0] == 'M': m = v; v = E.load(st, m)
    return m, v


def vec(E, st, m, what):
    m, v = target(E, st, m)
    if v[0] != 'L': raise Undecided(what + ' on a symbolic vector')
    return m, v[1]


# ---- Vec
@model('Vec::dedup')
def _(E, st, a, cx):
    m, xs = vec(E, st, a[0], 'dedup')
    return _dedup(E, st, m, (), xs)


def _dedup(E, st, m, out, todo):
    if not todo:
        E.store(st, m, ('L', out)); return UNIT
    x = todo[0]
    if not out: return _dedup(E, st, m, (x,), todo[1:])
    return Fork(eq_val(E, st, out[-1], x), lambda s: _dedup(E, s, m, out, todo[1:]), lambda s: _dedup(E, s, m, out + (x,), todo[1:]))


@model('Vec::retain')
def _(E, st, a, cx):
    m, xs = vec(E, st, a[0], 'retain')
    if not xs: return UNIT
    return Call(a[1], [('R', xs[0])], 'retain', ('T', (m, ('L', ()), ('L', xs))), {1: a[1]})
@handler
def retain(E, st, fr, val):
    m, out, todo = fr.data[1]
    me = len(st.frames) - 1
    def go(keep):
        def f(s):
            o = out[1] + ((todo[1][0],) if keep else ())
            r = todo[1][1:]
            if not r: E.store(s, m, ('L', o)); return UNIT
            return Call(('M', me, 1, ()), [('R', r[0])], 'retain', ('T', (m, ('L', o), ('L', r))))
        return f
    return Fork(val, go(True), go(False))
@model('Vec::split_off')
def _(E, st, a, cx):
    m, xs = vec(E, st, a[0], 'split_off')
    if a[1][0] != 'I': raise Undecided('split_off')
    if a[1][1] > len(xs): return Panic('Vec::split_off out of range')
    E.store(st, m, ('L', xs[:a[1][1]])); return ('L', xs[a[1][1]:])
@model('Vec::resize')
def _(E, st, a, cx):
    m, xs = vec(E, st, a[0], 'resize')
    if a[1][0] != 'I' or a[1][1] > 4096: raise Undecided('resize')
    E.store(st, m, ('L', (xs + (a[2],) * a[1][1])[:a[1][1]])); return UNIT
@model('Vec::into_boxed_slice', 'Vec::into_vec', 'slice::into_vec', 'String::into_boxed_str', 'str::into_string')
def _(E, st, a, cx): return a[0]
@model('slice::first_mut', 'slice::last_mut')
def _(E, st, a, cx):
    m, xs = vec(E, st, a[0], cx.name)
    if not xs: return NONE
    return Some(('M', m[1], m[2], m[3] + (('i', I(0 if 'first' in cx.name else len(xs) - 1)),)))
@model('slice::get_mut')
def _(E, st, a, cx):
    m, xs = vec(E, st, a[0], cx.name)
    if a[1][0] != 'I': raise Undecided('get_mut')
    return Some(('M', m[1], m[2], m[3] + (('i', a[1]),))) if a[1][1] < len(xs) else NONE
@model('slice::fill')
def _(E, st, a, cx):
    m, xs = vec(E, st, a[0], cx.name)
    E.store(st, m, ('L', (a[1],) * len(xs))); return UNIT
@model('slice::rotate_left', 'slice::rotate_right')
def _(E, st, a, cx):
    m, xs = vec(E, st, a[0], cx.name)
    if a[1][0] != 'I': raise Undecided('rotate')
    k = a[1][1]
    if k > len(xs): return Panic(cx.name + ' out of range')
    if cx.name.endswith('right'): k = len(xs) - k
    E.store(st, m, ('L', xs[k:] + xs[:k])); return UNIT
@model('slice::windows', 'slice::chunks')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] != 'L' or a[1][0] != 'I': raise Undecided(cx.name)
    n = a[1][1]
    if n == 0: return Panic(cx.name + ' of size 0')
    if cx.name.endswith('windows'): return lst(('R', ('L', v[1][i:i + n])) for i in range(len(v[1]) - n + 1))
    return lst(('R', ('L', v[1][i:i + n])) for i in range(0, len(v[1]), n))
@model('slice::concat')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] != 'L': raise Undecided('concat')
    xs = [strip(E, st, x) for x in v[1]]
    if xs and all(x[0] == 'L' for x in xs): return ('L', tuple(y for x in xs for y in x[1]))
    if cx.dty and cx.dty.get('path') == 'alloc::string::String':
        r = ('S', '')
        for x in xs: r = str_concat(r, x)
        return r
    if not xs: return ('L', ())
    raise Undecided('concat')
@model('slice::join')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] != 'L' or not (cx.dty and cx.dty.get('path') == 'alloc::string::String'): raise Undecided('join')
    r = ('S', ''); sep = strip(E, st, a[1])
    for i, x in enumerate(v[1]):
        if i: r = str_concat(r, sep)
        r = str_concat(r, strip(E, st, x))
    return r
@model('slice::starts_with', 'slice::ends_with')
def _(E, st, a, cx):
    v = strip(E, st, a[0]); w = strip(E, st, a[1])
    if v[0] != 'L' or w[0] != 'L': raise Undecided(cx.name)
    n = len(w[1])
    if n > len(v[1]): return FALSE
    part = v[1][:n] if 'starts' in cx.name else v[1][len(v[1]) - n:]
    r = TRUE
    for x, y in zip(part, w[1]): r = E.and_(r, eq_val(E, st, x, y))
    return r
@model('slice::split_at')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] != 'L' or a[1][0] != 'I': raise Undecided('split_at')
    if a[1][1] > len(v[1]): return Panic('split_at out of range at ' + where(cx))
    return ('T', (('R', ('L', v[1][:a[1][1]])), ('R', ('L', v[1][a[1][1]:]))))


# ---- ordering of concrete structures, symbolic leaves left to Ord::cmp
def cmp3(E, st, a, b):
    a = strip(E, st, a); b = strip(E, st, b)
    if a[0] == b[0] == 'S': p, q = a[1].encode(), b[1].encode(); return (p > q) - (p < q)
    if a[0] == b[0] and a[0] in ('I', 'C', 'B'): return (a[1] > b[1]) - (a[1] < b[1])
    if a[0] == b[0] and a[0] in ('T', 'L'):
        for x, y in zip(a[1], b[1]):
            r = cmp3(E, st, x, y)
            if r is None or r: return r
        return (len(a[1]) > len(b[1])) - (len(a[1]) < len(b[1]))
    if a[0] == b[0] == 'A' and a[1] == b[1] == OPT:
        if a[2] != b[2]: return -1 if a[2] == 'None' else 1
        return cmp3(E, st, a[3][0], b[3][0]) if a[3] else 0
    return models.ident_cmp(a, b)


def less(E, st, x, y, ty=None):
    """condition x < y by the natural order"""
    r = cmp3(E, st, x, y)
    if r is not None: return mkbool(r < 0)
    x = strip(E, st, x); y = strip(E, st, y)
    if ty: return E.cmp('Lt', x, y, ty)
    return E.is_variant(X('cmp', x, y, ty=ORD), 'Less')


def elem_ty(cx):
    """element type of the slice when it is a machine integer"""
    for i in range(len(cx.ft.get('args', []))):
        t = cx.targ(i)
        if t and t['k'] in ('int', 'uint'): return t['s']
    return None


@model('slice::sort', 'slice::sort_unstable')
def _(E, st, a, cx):
    m, xs = vec(E, st, a[0], 'sort')
    return _isort(E, st, m, (), tuple(('T', (x, x)) for x in xs), None, 0, elem_ty(cx))
@model('slice::sort_by_key', 'slice::sort_unstable_by_key', 'slice::sort_by_cached_key')
def _(E, st, a, cx):
    m, xs = vec(E, st, a[0], 'sort')
    if not xs: return UNIT
    return Call(a[1], [('R', xs[0])], 'sort2_keys', ('T', (m, ('L', ()), ('L', xs))), {1: a[1]})
@handler
def sort2_keys(E, st, fr, val):
    m, done, todo = fr.data[1]
    me = len(st.frames) - 1
    done = done[1] + (('T', (val, todo[1][0])),); r = todo[1][1:]
    if r: return Call(('M', me, 1, ()), [('R', r[0])], 'sort2_keys', ('T', (m, ('L', done), ('L', r))))
    return _isort(E, st, m, (), done, None, 0, None)


def _isort(E, st, m, out, todo, cur, j, ty):
    if cur is None:
        if not todo: E.store(st, m, ('L', tuple(x[1][1] for x in out))); return UNIT
        cur = todo[0]; todo = todo[1:]; j = len(out)
    if j == 0: return _isort(E, st, m, (cur,) + tuple(out), todo, None, 0, ty)
    return Fork(less(E, st, cur[1][0], out[j - 1][1][0], ty), lambda s: _isort(E, s, m, out, todo, cur, j - 1, ty),
                lambda s: _isort(E, s, m, tuple(out[:j]) + (cur,) + tuple(out[j:]), todo, None, 0, ty))


@model('slice::sort_by', 'slice::sort_unstable_by')
def _(E, st, a, cx):
    m, xs = vec(E, st, a[0], 'sort')
    if len(xs) < 2: return UNIT
    return _bysort(E, st, m, (xs[0],), xs[1:], None, 0, a[1], None)


def _bysort(E, st, m, out, todo, cur, j, f, me):
    if cur is None:
        if not todo: E.store(st, m, ('L', tuple(out))); return UNIT
        cur = todo[0]; todo = todo[1:]; j = len(out)
    if j == 0: return _bysort(E, st, m, (cur,) + tuple(out), todo, None, 0, f, me)
    data = ('T', (m, ('L', tuple(out)), ('L', tuple(todo)), cur, I(j)))
    return Call(f if me is None else ('M', me, 1, ()), [('R', out[j - 1]), ('R', cur)], 'sort2_by', data, {1: f} if me is None else None)
@handler
def sort2_by(E, st, fr, val):
    m, out, todo, cur, j = fr.data[1]
    out, todo, j = out[1], todo[1], j[1]
    me = len(st.frames) - 1
    return Fork(E.is_variant(val, 'Greater'), lambda s: _bysort(E, s, m, out, todo, cur, j - 1, None, me),
                lambda s: _bysort(E, s, m, tuple(out[:j]) + (cur,) + tuple(out[j:]), todo, None, 0, None, me))


# ---- extrema and comparisons of iterators with known items
def items(E, st, v, what):
    if v[0] == 'M': v = target(E, st, v)[1]
    r = rest(v if v[0] == 'A' else into_iter(E, st, v))
    if r is None: raise Undecided(what + ' of a symbolic iterator')
    return tuple(r)


def seq_items(E, st, v, name, data):
    """collect the items first, then continue in handler `name`"""
    st.frames.append(PF(name, data))
    return drain(E, itarg(E, st, v), 'vec', ('L', ()))


@model('Iterator::max', 'Iterator::min')
def _(E, st, a, cx):
    return seq_items(E, st, a[0], 'extremum', ('S', 'max' if cx.name.endswith('max') else 'min'))
@handler
def extremum(E, st, fr, val):
    k = fr.data[1]; xs = val[1]
    if not xs: return NONE
    def go(s, best, todo):
        if not todo: return Some(best)
        x = todo[0]
        # max keeps the last of equal items, min the first; equal items are interchangeable here
        c = less(E, s, best, x) if k == 'max' else less(E, s, x, best)
        return Fork(c, lambda s2: go(s2, x, todo[1:]), lambda s2: go(s2, best, todo[1:]))
    return go(st, xs[0], xs[1:])
@model('Iterator::max_by_key', 'Iterator::min_by_key')
def _(E, st, a, cx):
    xs = items(E, st, a[0], cx.name)
    if not xs: return NONE
    return Call(a[1], [('R', xs[0])], 'ext_key', ('T', (('S', cx.name[10:13]), NONE, ('L', xs))), {1: a[1]})
@handler
def ext_key(E, st, fr, val):
    k, best, todo = fr.data[1]
    me = len(st.frames) - 1
    x = todo[1][0]; r = todo[1][1:]
    def go(nb):
        if not r: return Some(nb[3][0][1][1])
        return Call(('M', me, 1, ()), [('R', r[0])], 'ext_key', ('T', (k, nb, ('L', r))))
    new = Some(('T', (val, x)))
    if best == NONE: return go(new)
    old = best[3][0][1][0]
    if k[1] == 'min': return Fork(less(E, st, val, old), lambda s: go(new), lambda s: go(best))
    return Fork(less(E, st, val, old), lambda s: go(best), lambda s: go(new))
@model('Iterator::reduce')
def _(E, st, a, cx):
    xs = items(E, st, a[0], 'reduce')
    if not xs: return NONE
    st.frames.append(PF('wrap_some', UNIT))
    return drain(E, lst(xs[1:]), 'fold', xs[0], a[1])
@model('DoubleEndedIterator::rfold', 'Iterator::rfold')
def _(E, st, a, cx):
    xs = items(E, st, a[0], 'rfold'); return drain(E, lst(tuple(reversed(xs))), 'fold', a[1], a[2])
@model('Iterator::rposition')
def _(E, st, a, cx):
    xs = items(E, st, a[0], 'rposition')
    st.frames.append(PF('rpos', I(len(xs))))
    return drain(E, lst(tuple(reversed(xs))), 'position', I(0), a[1])
@handler
def rpos(E, st, fr, val):
    return branch(E, st, val, 'opt', lambda s, x: Some(I(fr.data[1] - 1 - x[1])), lambda s, _: NONE)
@model('Iterator::eq', 'Iterator::ne')
def _(E, st, a, cx):
    xs = items(E, st, a[0], 'eq'); ys = items(E, st, into_iter(E, st, a[1]), 'eq')
    if len(xs) != len(ys): r = FALSE
    else:
        r = TRUE
        for x, y in zip(xs, ys): r = E.and_(r, eq_val(E, st, x, y))
    return r if cx.name.endswith('eq') else E.not_(r)
@model('Iterator::unzip')
def _(E, st, a, cx): return seq_items(E, st, a[0], 'unzip2', UNIT)
@handler
def unzip2(E, st, fr, val):
    return ('T', (('L', tuple(E.project(x, ('f', 0)) for x in val[1])), ('L', tuple(E.project(x, ('f', 1)) for x in val[1]))))
@model('Iterator::try_for_each')
def _(E, st, a, cx):
    return drain(E, itarg(E, st, a[0]), 'try_each_res' if cx.dty and cx.dty.get('path') == RES else 'try_each_opt', UNIT, a[1])
@model('Iterator::size_hint')
def _(E, st, a, cx):
    n = len(items(E, st, strip(E, st, a[0]), 'size_hint')); return ('T', (I(n), Some(I(n))))
@model('Peekable::next_if')
def _(E, st, a, cx):
    m, v = target(E, st, a[0]); r = rest(v)
    if r is None: raise Undecided('next_if')
    if not r: return NONE
    return Call(a[1], [('R', r[0])], 'next_if', ('T', (m, ('L', tuple(r)))))
@model('Peekable::next_if_eq')
def _(E, st, a, cx):
    m, v = target(E, st, a[0]); r = rest(v)
    if r is None: raise Undecided('next_if_eq')
    if not r: return NONE
    return _take_if(E, st, m, tuple(r), eq_val(E, st, r[0], a[1]))
def _take_if(E, st, m, r, c):
    def yes(s): E.store(s, m, lst(r[1:])); return Some(r[0])
    return Fork(c, yes, lambda s: NONE)
@handler
def next_if(E, st, fr, val):
    m, r = fr.data[1]
    return _take_if(E, st, m, r[1], val)
@model('iter::repeat_n')
def _(E, st, a, cx):
    if a[1][0] != 'I' or a[1][1] > 4096: raise Undecided('repeat_n')
    return lst((a[0],) * a[1][1])


# ---- Option / Result
@model('Option::xor')
def _(E, st, a, cx):
    return branch(E, st, a[0], 'opt', lambda s, x: branch(E, s, a[1], 'opt', lambda s2, _: NONE, lambda s2, _: Some(x)), lambda s, _: a[1])
@model('Option::get_or_insert_with')
def _(E, st, a, cx):
    m, v = target(E, st, a[0])
    ref = ('M', m[1], m[2], m[3] + (('d', 1, 'Some'), ('f', 0)))
    if v[0] != 'A': raise Undecided('get_or_insert_with of symbolic')
    if v[2] == 'Some': return ref
    return Call(a[1], [], 'goi', ('T', (m, ref)))
@handler
def goi(E, st, fr, val):
    m, ref = fr.data[1]; E.store(st, m, Some(val)); return ref
@model('Option::inspect', 'Result::inspect')
def _(E, st, a, cx):
    k = 'opt' if cx.name[0] == 'O' else 'res'
    return branch(E, st, a[0], k, lambda s, x: Call(a[1], [('R', x)], 'ret_data', a[0]), lambda s, _: a[0])
@handler
def ret_data(E, st, fr, val): return fr.data
@model('Result::is_err_and')
def _(E, st, a, cx): return branch(E, st, a[0], 'res', lambda s, x: FALSE, lambda s, e: Call(a[1], [e]))
@model('Result::copied', 'Result::cloned')
def _(E, st, a, cx): return branch(E, st, a[0], 'res', lambda s, x: Ok(E.deref(s, x)), lambda s, e: Err(e))
@model('Result::transpose')
def _(E, st, a, cx):
    return branch(E, st, a[0], 'res', lambda s, x: branch(E, s, x, 'opt', lambda s2, y: Some(Ok(y)), lambda s2, _: NONE), lambda s, e: Some(Err(e)))
@model('mem::swap')
def _(E, st, a, cx):
    x, y = E.load(st, a[0]), E.load(st, a[1]); E.store(st, a[0], y); E.store(st, a[1], x); return UNIT


# ---- strings
def text(E, st, m, what):
    m, v = target(E, st, m)
    if v[0] == 'C': v = ('S', v[1])
    if v[0] != 'S': raise Undecided(what + ' on symbolic text')
    return m, v[1]


@model('String::clear')
def _(E, st, a, cx): m, v = target(E, st, a[0]); E.store(st, m, ('S', '')); return UNIT
@model('String::pop')
def _(E, st, a, cx):
    m, s = text(E, st, a[0], 'pop')
    if not s: return NONE
    E.store(st, m, ('S', s[:-1])); return Some(('C', s[-1]))
@model('String::truncate')
def _(E, st, a, cx):
    m, s = text(E, st, a[0], 'truncate')
    if a[1][0] != 'I': raise Undecided('truncate')
    b = s.encode()
    if a[1][1] >= len(b): return UNIT
    try: t = b[:a[1][1]].decode()
    except UnicodeDecodeError: return Panic('String::truncate not at a char boundary')
    E.store(st, m, ('S', t)); return UNIT
@model('String::insert_str', 'String::insert')
def _(E, st, a, cx):
    m, v = target(E, st, a[0])
    if a[1] == I(0) or (a[1][0] == 'I' and a[1][1] == 0): E.store(st, m, str_concat(strip(E, st, a[2]), v)); return UNIT
    m, s = text(E, st, a[0], 'insert')
    x = strip(E, st, a[2])
    if a[1][0] != 'I' or x[0] not in ('S', 'C'): raise Undecided('insert')
    b = s.encode()
    if a[1][1] > len(b): return Panic('String::insert out of range')
    E.store(st, m, ('S', (b[:a[1][1]] + x[1].encode() + b[a[1][1]:]).decode())); return UNIT
@model('String::remove')
def _(E, st, a, cx):
    m, s = text(E, st, a[0], 'remove')
    if a[1][0] != 'I': raise Undecided('remove')
    b = s.encode()
    if a[1][1] >= len(b): return Panic('String::remove out of range')
    t = b[a[1][1]:].decode(); E.store(st, m, ('S', b[:a[1][1]].decode() + t[1:])); return ('C', t[0])
@model('AddAssign::add_assign')
def _(E, st, a, cx):
    t = cx.targ(0)
    if t and t['s'] == 'alloc::string::String':
        m, v = target(E, st, a[0]); E.store(st, m, str_concat(v, strip(E, st, a[1]))); return UNIT
    return None
@model('String::into_bytes', 'str::into_bytes')
def _(E, st, a, cx):
    r = M['String::as_bytes'](E, st, [('R', strip(E, st, a[0]))], cx)
    return r[1] if r[0] == 'R' else r
@model('char::from_digit')
def _(E, st, a, cx):
    if a[0][0] != 'I' or a[1][0] != 'I': raise Undecided('from_digit')
    d, b = a[0][1], a[1][1]
    return Some(('C', '0123456789abcdefghijklmnopqrstuvwxyz'[d])) if d < b else NONE
@model('char::to_ascii_lowercase', 'char::to_ascii_uppercase')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] != 'C': return None
    c = v[1]
    return ('C', (c.lower() if 'lower' in cx.name else c.upper()) if ord(c) < 128 else c)
@model('char::len_utf8')
def _(E, st, a, cx): return I(len(a[0][1].encode())) if a[0][0] == 'C' else None


# ---- integers
@model('Ord::clamp', 'int::clamp', 'float::clamp')
def _(E, st, a, cx):
    t = cx.targ(0); ty = t['s'] if t else None
    if not (t and t['k'] in ('int', 'uint')): raise Undecided('clamp')
    return Fork(E.cmp('Lt', a[0], a[1], ty), lambda s: a[1], lambda s: Fork(E.cmp('Lt', a[2], a[0], ty), lambda s2: a[2], lambda s2: a[0]))
@model('int::checked_pow')
def _(E, st, a, cx):
    if a[0][0] != 'I' or a[1][0] != 'I': raise Undecided('checked_pow')
    ty = models.ity(cx); lo, hi = E.rng(ty); r = a[0][1] ** a[1][1]
    return Some(('I', r, ty)) if lo <= r <= hi else NONE
@model('int::div_euclid', 'int::wrapping_div')
def _(E, st, a, cx):
    ty = models.ity(cx)
    if ty[0] != 'u': raise Undecided('signed division')
    if a[1][0] != 'I': raise Undecided('division by a symbolic number')
    if a[1][1] == 0: return Panic('division by zero at ' + where(cx))
    return E.arith('Div', a[0], a[1], ty)
@model('int::overflowing_add', 'int::overflowing_sub', 'int::overflowing_mul')
def _(E, st, a, cx): return E.binop({'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[cx.name[-3:]] + 'WithOverflow', a[0], a[1], models.ity(cx))


# ---- maps
@model('BTreeMap::get_key_value')
def _(E, st, a, cx):
    m = strip(E, st, a[0])
    if m[0] != 'A': raise Undecided('get of symbolic map')
    def f(s, i):
        e = m[3][0][1][i][1]; return Some(('T', (('R', e[0]), ('R', e[1]))))
    return btree_find(E, st, m, strip(E, st, a[1]), f, lambda s: NONE)
@model('BTreeMap::get_mut')
def _(E, st, a, cx):
    p, m = target(E, st, a[0])
    if m[0] != 'A': raise Undecided('get of symbolic map')
    return btree_find(E, st, m, strip(E, st, a[1]), lambda s, i: Some(('M', p[1], p[2], p[3] + (('f', 0), ('i', I(i)), ('f', 1)))), lambda s: NONE)
@model('BTreeMap::clear')
def _(E, st, a, cx):
    p, m = target(E, st, a[0]); E.store(st, p, ('A', m[1], m[2], (('L', ()),))); return UNIT
@model('BTreeMap::first_key_value', 'BTreeMap::last_key_value')
def _(E, st, a, cx):
    m = strip(E, st, a[0])
    if m[0] != 'A': raise Undecided('symbolic map')
    es = m[3][0][1]
    if not es: return NONE
    e = es[0 if 'first' in cx.name else -1][1]; return Some(('T', (('R', e[0]), ('R', e[1]))))
@model('BTreeMap::retain')
def _(E, st, a, cx):
    p, m = target(E, st, a[0])
    if m[0] != 'A': raise Undecided('symbolic map')
    es = m[3][0][1]
    if not es: return UNIT
    return Call(a[1], [('R', es[0][1][0]), ('R', es[0][1][1])], 'map_retain', ('T', (p, ('L', ()), ('L', es))), {1: a[1]})
@handler
def map_retain(E, st, fr, val):
    p, out, todo = fr.data[1]
    me = len(st.frames) - 1
    def go(keep):
        def f(s):
            o = out[1] + ((todo[1][0],) if keep else ()); r = todo[1][1:]
            if not r:
                m = E.load(s, p); E.store(s, p, ('A', m[1], m[2], (('L', o),))); return UNIT
            return Call(('M', me, 1, ()), [('R', r[0][1][0]), ('R', r[0][1][1])], 'map_retain', ('T', (p, ('L', o), ('L', r))))
        return f
    return Fork(val, go(True), go(False))
# entry API: the payload of an entry keeps the place of the map and the key
ENT = 'map_entry'
@model('BTreeMap::entry')
def _(E, st, a, cx):
    p, m = target(E, st, a[0])
    if m[0] != 'A': raise Undecided('symbolic map')
    path = cx.dty['path'] if cx.term and cx.dty and 'path' in cx.dty else 'alloc::collections::btree::map::entry::Entry'
    e = lambda v: adt(path, v, ('A', ENT, 'Entry', (p, a[1])))
    return btree_find(E, st, m, a[1], lambda s, i: e('Occupied'), lambda s: e('Vacant'))


def _slot(p, i): return ('M', p[1], p[2], p[3] + (('f', 0), ('i', I(i)), ('f', 1)))


def _pay(E, st, e):
    """(occupied, place of the map, key) of an entry or of its payload"""
    e = strip(E, st, e)
    if e[0] == 'A' and e[1] == ENT: return None, e[3][0], e[3][1]
    if e[0] == 'A' and e[2] in ('Occupied', 'Vacant'): return e[2] == 'Occupied', e[3][0][3][0], e[3][0][3][1]
    raise Undecided('map entry')


def _at(E, st, e):
    occ, p, k = _pay(E, st, e)
    m = E.load(st, p)
    i = next((i for i, x in enumerate(m[3][0][1]) if strip(E, st, x[1][0]) == strip(E, st, k)), None)
    if i is None: raise Undecided('place of a map entry')
    return _slot(p, i)


def _put(E, s, p, k, v):
    m = E.load(s, p); es = btree_ins(m[3][0][1], k, v)
    E.store(s, p, ('A', m[1], m[2], (('L', es),)))
    return _slot(p, next(i for i, e in enumerate(es) if e[1][0] == k))


@model('Entry::or_insert')
def _(E, st, a, cx):
    occ, p, k = _pay(E, st, a[0])
    return _at(E, st, a[0]) if occ else _put(E, st, p, k, a[1])
@model('Entry::or_default')
def _(E, st, a, cx):
    occ, p, k = _pay(E, st, a[0])
    return _at(E, st, a[0]) if occ else _put(E, st, p, k, default_of(E, E.p.types[cx.dty['t']] if cx.dty and 't' in cx.dty else None))
@model('Entry::or_insert_with')
def _(E, st, a, cx):
    occ, p, k = _pay(E, st, a[0])
    return _at(E, st, a[0]) if occ else Call(a[1], [], 'ent_put', ('T', (p, k)))
@handler
def ent_put(E, st, fr, val): return _put(E, st, fr.data[1][0], fr.data[1][1], val)
@model('Entry::and_modify')
def _(E, st, a, cx):
    occ, p, k = _pay(E, st, a[0])
    return Call(a[1], [_at(E, st, a[0])], 'ret_data', a[0]) if occ else a[0]
@model('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def _(E, st, a, cx): return _at(E, st, a[0])
@model('OccupiedEntry::insert')
def _(E, st, a, cx):
    m = _at(E, st, a[0]); v = E.load(st, m); E.store(st, m, a[1]); return v
@model('VacantEntry::insert', 'VacantEntry::insert_entry')
def _(E, st, a, cx):
    occ, p, k = _pay(E, st, a[0]); return _put(E, st, p, k, a[1])
@model('OccupiedEntry::key', 'VacantEntry::key', 'Entry::key')
def _(E, st, a, cx): return ('R', _pay(E, st, a[0])[2])
@model('VacantEntry::into_key')
def _(E, st, a, cx): return _pay(E, st, a[0])[2]


# ---- dedup with a closure
@model('Vec::dedup_by', 'Vec::dedup_by_key')
def _(E, st, a, cx):
    m, xs = vec(E, st, a[0], 'dedup')
    if len(xs) < 2: return UNIT
    if cx.name.endswith('key'):
        return Call(a[1], [('R', xs[0])], 'dedup_keys', ('T', (m, ('L', ()), ('L', xs))), {1: a[1]})
    return Call(a[1], [('R', xs[1]), ('R', xs[0])], 'dedup_by', ('T', (m, ('L', (xs[0],)), ('L', xs[1:]))), {1: a[1]})
@handler
def dedup_keys(E, st, fr, val):
    m, done, todo = fr.data[1]
    me = len(st.frames) - 1
    done = done[1] + (('T', (val, todo[1][0])),); r = todo[1][1:]
    if r: return Call(('M', me, 1, ()), [('R', r[0])], 'dedup_keys', ('T', (m, ('L', done), ('L', r))))

    def go(s, out, rest):
        while rest:
            if not out: out = [rest[0]]; rest = rest[1:]; continue
            c = eq_val(E, s, out[-1][1][0], rest[0][1][0])
            if c[0] == 'B':
                if not c[1]: out = out + [rest[0]]
                rest = rest[1:]; continue
            return Fork(c, lambda s2: go(s2, out, rest[1:]), lambda s2: go(s2, out + [rest[0]], rest[1:]))
        E.store(s, m, ('L', tuple(x[1][1] for x in out))); return UNIT
    return go(st, [], list(done))
@handler
def dedup_by(E, st, fr, val):
    m, out, todo = fr.data[1]
    me = len(st.frames) - 1
    def go(drop):
        def f(s):
            o = out[1] + (() if drop else (todo[1][0],)); r = todo[1][1:]
            if not r: E.store(s, m, ('L', o)); return UNIT
            return Call(('M', me, 1, ()), [('R', r[0]), ('R', o[-1])], 'dedup_by', ('T', (m, ('L', o), ('L', r))))
        return f
    return Fork(val, go(True), go(False))


# ---- boxes: a one-field value
BOX = 'alloc::boxed::Box'
@model('Box::new', 'boxed::box_new')
def _(E, st, a, cx): return adt(BOX, 'Box', a[0])
@model('Box::new_uninit')
def _(E, st, a, cx): return adt(BOX, 'Box', UNIT)
@model('boxed::box_assume_init_into_vec_unsafe', 'slice::into_vec')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] != 'L': raise Undecided('boxed slice')
    return v


@model('Arc::new', 'Rc::new', 'sync::Arc::new', 'rc::Rc::new')
def _(E, st, a, cx): return ('R', a[0])
@model('Arc::ptr_eq', 'Rc::ptr_eq')
def _(E, st, a, cx): raise Undecided('pointer comparison')


@model('mem::discriminant', 'intrinsics::discriminant_value')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] != 'A': return None
    t = cx.targ(0) if cx.ft.get('args') else None
    vs = (t or {}).get('variants') or []
    for i, x in enumerate(vs):
        if x['name'] == v[2]: return ('I', x.get('discr', i), 'isize')
    return None


# ---- hash maps and sets: association lists (the order of iteration is judged by the effect analyses)
for _n in ('insert', 'contains_key', 'get', 'remove', 'keys', 'values', 'into_keys', 'into_values', 'entry', 'get_mut', 'get_key_value', 'clear', 'retain'):
    if 'BTreeMap::' + _n in M and 'HashMap::' + _n not in M: M['HashMap::' + _n] = M['BTreeMap::' + _n]
@model('HashMap::new', 'HashMap::with_capacity')
def _(E, st, a, cx): return ('A', 'BTreeMap', 'HashMap', (('L', ()),))
@model('BTreeSet::new', 'HashSet::new', 'HashSet::with_capacity')
def _(E, st, a, cx): return ('A', 'BTreeMap', 'Set', (('L', ()),))
@model('BTreeSet::contains', 'HashSet::contains')
def _(E, st, a, cx):
    m = strip(E, st, a[0])
    if m[0] != 'A': raise Undecided('symbolic set')
    return btree_find(E, st, m, strip(E, st, a[1]), lambda s, i: TRUE, lambda s: FALSE)
@model('BTreeSet::insert', 'HashSet::insert')
def _(E, st, a, cx):
    m = E.load(st, a[0])
    if m[0] != 'A': raise Undecided('symbolic set')
    def absent(s):
        E.store(s, a[0], ('A', m[1], m[2], (('L', btree_ins(m[3][0][1], a[1], UNIT)),))); return TRUE
    return btree_find(E, st, m, a[1], lambda s, i: FALSE, absent)


# ---- values initialised once: the value of the initialiser (that it is one fixed value is judged by C12)
@handler
def once_ref(E, st, fr, val): return ('R', val)
@model('OnceLock::get_or_init', 'OnceCell::get_or_init')
def _(E, st, a, cx):
    return Call(a[1], [], 'once_ref', UNIT)
_deref = M['Deref::deref']
@model('LazyLock::force', 'LazyCell::force', 'Deref::deref')
def _(E, st, a, cx):
    v = a[0]
    if v[0] == 'R': v = v[1]
    if v[0] == 'X' and v[1] == 'static' and (cx.name != 'Deref::deref' or re.search('Lazy(Lock|Cell)', str(cx.ft.get('rpath')) + str(cx.targ(0)['s'] if cx.ft.get('args') else ''))):
        ks = [k for k in E.p.bodies if k.startswith(v[2][0] + '::{closure#') and k.endswith('}') and k.count('{closure#') == 1]
        if len(ks) == 1: return Call(('CL', ks[0], ()), [], 'once_ref', UNIT)
        raise Undecided('lazily initialised static')
    return _deref(E, st, a, cx) if cx.name == 'Deref::deref' else None


@model('panic::catch_unwind')
def _(E, st, a, cx):
    f = a[0]
    while f[0] == 'A' and f[2] == 'AssertUnwindSafe': f = f[3][0]
    return Call(f, [], 'catch_panic')
@model('panic::set_hook')
def _(E, st, a, cx): return UNIT
@model('panic::resume_unwind')
def _(E, st, a, cx): return Panic('resumed unwinding')
