"""Library models for the abstract interpreter (core/alloc only).

A model is f(E, st, args, cx) -> value | Fork | Call | Panic | None (no model)."""
import json, itertools
from engine import *

M = {}


def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d


def strip(E, st, v):
    """look through references"""
    while v[0] in ('R', 'M') or (v[0] == 'A' and v[1] in ('alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc')):
        v = E.deref(st, v) if v[0] != 'A' else v[3][0]
    return v


def fields_of(v, name):
    if v[0] == 'A': return v
    n = {'Some': 1, 'Ok': 1, 'Err': 1, 'None': 0}[name]
    ap = OPT if name in ('Some', 'None') else RES
    return ('A', ap, name, tuple(X('fld', v, i, name) for i in range(n)))


def on_opt(E, st, v, some, none):
    """branch on an Option/Result value: some(st, payload), none(st, payload-or-None)"""
    if v[0] == 'A':
        if v[2] in ('Some', 'Ok'): return some(st, v[3][0])
        return none(st, v[3][0] if v[3] else None)
    if is_sym(v):
        raise Undecided('untyped option')
    raise Undecided('not an option: ' + v[0])


def branch(E, st, v, kind, some, none):
    """kind: 'opt' or 'res'"""
    if v[0] == 'A':
        if v[2] in ('Some', 'Ok'): return some(st, v[3][0])
        return none(st, v[3][0] if v[3] else None)
    if not is_sym(v): raise Undecided('not an enum value')
    if kind == 'opt':
        return Fork(E.is_variant(v, 'Some'), lambda s: some(s, payload(E, v, 'Some')), lambda s: none(s, None))
    return Fork(E.is_variant(v, 'Ok'), lambda s: some(s, payload(E, v, 'Ok')), lambda s: none(s, payload(E, v, 'Err')))


def payload(E, v, name):
    if E.dom is not None and hasattr(E.dom, 'payload'):
        r = E.dom.payload(E, v, name)
        if r is not None: return r
    return X('fld', v, 0, name)


def kind_of(cx):
    n = cx.name
    return 'opt' if n.startswith('Option') else 'res'


@handler
def wrap_some(E, st, fr, val): return Some(val)
@handler
def wrap_ok(E, st, fr, val): return Ok(val)
@handler
def wrap_err(E, st, fr, val): return Err(val)


def ref_of(E, st, r, v, name):
    """as_ref/as_mut payload"""
    return ('R', v)


@model('Option::map')
def _(E, st, a, cx): return branch(E, st, a[0], 'opt', lambda s, x: Call(a[1], [x], 'wrap_some'), lambda s, _: NONE)
@model('Result::map')
def _(E, st, a, cx): return branch(E, st, a[0], 'res', lambda s, x: Call(a[1], [x], 'wrap_ok'), lambda s, e: Err(e))
@model('Result::map_err')
def _(E, st, a, cx): return branch(E, st, a[0], 'res', lambda s, x: Ok(x), lambda s, e: Call(a[1], [e], 'wrap_err'))
@model('Option::and_then', 'Result::and_then')
def _(E, st, a, cx):
    k = kind_of(cx)
    return branch(E, st, a[0], k, lambda s, x: Call(a[1], [x]), lambda s, e: NONE if k == 'opt' else Err(e))
@model('Option::map_or', 'Result::map_or')
def _(E, st, a, cx): return branch(E, st, a[0], kind_of(cx), lambda s, x: Call(a[2], [x]), lambda s, e: a[1])
@model('Option::map_or_else', 'Result::map_or_else')
def _(E, st, a, cx):
    k = kind_of(cx)
    return branch(E, st, a[0], k, lambda s, x: Call(a[2], [x]), lambda s, e: Call(a[1], [] if k == 'opt' else [e]))
@model('Option::is_some_and', 'Result::is_ok_and')
def _(E, st, a, cx): return branch(E, st, a[0], kind_of(cx), lambda s, x: Call(a[1], [x]), lambda s, e: FALSE)
@model('Option::is_none_or')
def _(E, st, a, cx): return branch(E, st, a[0], 'opt', lambda s, x: Call(a[1], [x]), lambda s, e: TRUE)
@model('Option::unwrap_or', 'Result::unwrap_or')
def _(E, st, a, cx): return branch(E, st, a[0], kind_of(cx), lambda s, x: x, lambda s, e: a[1])
@model('Option::unwrap_or_else', 'Result::unwrap_or_else')
def _(E, st, a, cx):
    k = kind_of(cx)
    return branch(E, st, a[0], k, lambda s, x: x, lambda s, e: Call(a[1], [] if k == 'opt' else [e]))
@model('Option::unwrap_or_default', 'Result::unwrap_or_default')
def _(E, st, a, cx):
    d = default_of(E, cx.targ(0))
    return branch(E, st, a[0], kind_of(cx), lambda s, x: x, lambda s, e: d)
@model('Option::ok_or')
def _(E, st, a, cx): return branch(E, st, a[0], 'opt', lambda s, x: Ok(x), lambda s, _: Err(a[1]))
@model('Option::ok_or_else')
def _(E, st, a, cx): return branch(E, st, a[0], 'opt', lambda s, x: Ok(x), lambda s, _: Call(a[1], [], 'wrap_err'))
@model('Result::ok')
def _(E, st, a, cx): return branch(E, st, a[0], 'res', lambda s, x: Some(x), lambda s, _: NONE)
@model('Result::err')
def _(E, st, a, cx): return branch(E, st, a[0], 'res', lambda s, x: NONE, lambda s, e: Some(e))
@model('Option::or')
def _(E, st, a, cx): return branch(E, st, a[0], 'opt', lambda s, x: Some(x), lambda s, _: a[1])
@model('Option::and')
def _(E, st, a, cx): return branch(E, st, a[0], 'opt', lambda s, x: a[1], lambda s, _: NONE)
@model('Result::or')
def _(E, st, a, cx): return branch(E, st, a[0], 'res', lambda s, x: Ok(x), lambda s, _: a[1])
@model('Result::and')
def _(E, st, a, cx): return branch(E, st, a[0], 'res', lambda s, x: a[1], lambda s, e: Err(e))
@model('Option::or_else')
def _(E, st, a, cx): return branch(E, st, a[0], 'opt', lambda s, x: Some(x), lambda s, _: Call(a[1], []))
@model('Result::or_else')
def _(E, st, a, cx): return branch(E, st, a[0], 'res', lambda s, x: Ok(x), lambda s, e: Call(a[1], [e]))


@handler
def opt_filter(E, st, fr, val):
    x = fr.data
    return Fork(val, lambda s: Some(x), lambda s: NONE)


@model('Option::filter')
def _(E, st, a, cx): return branch(E, st, a[0], 'opt', lambda s, x: Call(a[1], [('R', x)], 'opt_filter', x), lambda s, _: NONE)


def isv(E, v, name): return E.is_variant(v, name)


@model('Option::is_some', 'Result::is_ok')
def _(E, st, a, cx): return isv(E, strip(E, st, a[0]), 'Some' if cx.name[0] == 'O' else 'Ok')
@model('Option::is_none', 'Result::is_err')
def _(E, st, a, cx): return isv(E, strip(E, st, a[0]), 'None' if cx.name[0] == 'O' else 'Err')


def where(cx): return cx.term['sp'] if cx.term else '?'


@model('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect')
def _(E, st, a, cx):
    return branch(E, st, a[0], kind_of(cx), lambda s, x: x, lambda s, e: Panic('%s at %s' % (cx.name, where(cx))))
@model('Result::unwrap_err', 'Result::expect_err')
def _(E, st, a, cx): return branch(E, st, a[0], 'res', lambda s, x: Panic('%s at %s' % (cx.name, where(cx))), lambda s, e: e)


@model('Option::as_ref', 'Option::as_deref')
def _(E, st, a, cx):
    v = strip1(E, st, a[0])
    def some(s, x):
        y = ('R', x)
        if cx.name.endswith('as_deref'):
            y = ('R', strip(E, s, x)) if x[0] in ('R', 'M') else ('R', x)
        return Some(y)
    return branch(E, st, v, 'opt', some, lambda s, _: NONE)
@model('Result::as_ref', 'Result::as_deref')
def _(E, st, a, cx): return branch(E, st, strip1(E, st, a[0]), 'res', lambda s, x: Ok(('R', x)), lambda s, e: Err(('R', e)))
@model('Option::as_mut')
def _(E, st, a, cx):
    v = strip1(E, st, a[0])
    if a[0][0] == 'M' and v[0] == 'A':
        return Some(('M', a[0][1], a[0][2], a[0][3] + (('d', 1, 'Some'), ('f', 0)))) if v[2] == 'Some' else NONE
    raise Undecided('as_mut of symbolic')
@model('Option::cloned', 'Option::copied')
def _(E, st, a, cx): return branch(E, st, a[0], 'opt', lambda s, x: Some(E.deref(s, x)), lambda s, _: NONE)
@model('Option::take')
def _(E, st, a, cx):
    v = E.load(st, a[0]); E.store(st, a[0], NONE); return v
@model('mem::take')
def _(E, st, a, cx):
    v = E.load(st, a[0]); E.store(st, a[0], default_of(E, cx.targ(0))); return v
@model('mem::replace')
def _(E, st, a, cx):
    v = E.load(st, a[0]); E.store(st, a[0], a[1]); return v
@model('Option::replace')
def _(E, st, a, cx):
    v = E.load(st, a[0]); E.store(st, a[0], Some(a[1])); return v
@model('Option::insert', 'Option::get_or_insert')
def _(E, st, a, cx):
    v = E.load(st, a[0])
    if cx.name.endswith('get_or_insert') and not (v[0] == 'A'): raise Undecided('get_or_insert of symbolic')
    if not (cx.name.endswith('get_or_insert') and v[2] == 'Some'): E.store(st, a[0], Some(a[1]))
    return ('M', a[0][1], a[0][2], a[0][3] + (('d', 1, 'Some'), ('f', 0)))
@model('Option::zip')
def _(E, st, a, cx):
    return branch(E, st, a[0], 'opt', lambda s, x: branch(E, s, a[1], 'opt', lambda s2, y: Some(('T', (x, y))), lambda s2, _: NONE), lambda s, _: NONE)
@model('Option::flatten', 'Result::flatten')
def _(E, st, a, cx):
    k = kind_of(cx)
    return branch(E, st, a[0], k, lambda s, x: x, lambda s, e: NONE if k == 'opt' else Err(e))
@model('Option::transpose')
def _(E, st, a, cx):
    return branch(E, st, a[0], 'opt', lambda s, x: branch(E, s, x, 'res', lambda s2, y: Ok(Some(y)), lambda s2, e: Err(e)), lambda s, _: Ok(NONE))
@model('Option::unzip')
def _(E, st, a, cx):
    return branch(E, st, a[0], 'opt', lambda s, x: ('T', (Some(E.project(x, ('f', 0))), Some(E.project(x, ('f', 1))))), lambda s, _: ('T', (NONE, NONE)))
@model('bool::then_some')
def _(E, st, a, cx): return Fork(a[0], lambda s: Some(a[1]), lambda s: NONE)
@model('bool::then')
def _(E, st, a, cx): return Fork(a[0], lambda s: Call(a[1], [], 'wrap_some'), lambda s: NONE)


@model('Try::branch')
def _(E, st, a, cx):
    rp = cx.ft.get('rpath', '')
    k = 'opt' if 'option::Option' in rp else 'res'
    return branch(E, st, a[0], k, lambda s, x: adt(CF, 'Continue', x), lambda s, e: adt(CF, 'Break', NONE if k == 'opt' else Err(e)))
@model('FromResidual::from_residual')
def _(E, st, a, cx):
    v = a[0]
    if v[0] == 'A' and v[2] == 'None': return NONE
    if v[0] == 'A' and v[2] == 'Err':
        # `?` converts the error with From::from
        e = v[3][0]
        ra = cx.ft.get('rargs') or cx.ft.get('args')
        ts = [E.p.types[i]['s'] for i in ra]
        if len(ts) >= 3 and ts[-1] != ts[-2] and ts[-2] != ts[1]: pass
        src = [t for t in ts]
        es = cx.term and E.p.types[cx.term['dt']]
        if es and es['k'] == 'adt' and es['path'] == RES:
            dst_e = E.p.types[es['args'][1]]['s']
            at = E.p.types[cx.term['at'][0]]
            src_e = E.p.types[at['args'][1]]['s'] if at['k'] == 'adt' and len(at['args']) > 1 else None
            if src_e != dst_e: return Err(X('from', e, dst_e))
        return Err(e)
    raise Undecided('from_residual')
@model('Try::from_output')
def _(E, st, a, cx): return (Some if 'option' in cx.ft.get('rpath', '') else Ok)(a[0])


def strip1(E, st, v): return E.deref(st, v) if v[0] in ('R', 'M') else X('deref', v)


# ---- clone / convert / deref
def clone_val(v): return v


@model('Clone::clone', 'ToOwned::to_owned', 'str::to_owned', 'slice::to_vec', 'String::clone')
def _(E, st, a, cx):
    v = E.deref(st, a[0])
    if v[0] == 'M' : raise Undecided('clone of &mut')
    return clone_val(E, st, v) if v[0] in ('A', 'L', 'T') else v
@model('Deref::deref', 'AsRef::as_ref', 'Borrow::borrow', 'String::as_str', 'Vec::as_slice', 'Box::as_ref', 'String::as_ref', 'array::as_slice')
def _(E, st, a, cx):
    rp = cx.ft.get('rpath')
    if cx.name in ('AsRef::as_ref', 'Borrow::borrow') and rp is None:
        v = E.deref(st, a[0])
        return ('R', X('as_ref', v, ty='str'))
    v = E.deref(st, a[0])
    return ('R', strip(E, st, v))
@model('DerefMut::deref_mut', 'Vec::as_mut_slice', 'AsMut::as_mut', 'BorrowMut::borrow_mut')
def _(E, st, a, cx): return a[0]
@model('hint::must_use', 'convert::identity', 'IntoIterator::into_iter')
def _(E, st, a, cx):
    if cx.name == 'IntoIterator::into_iter': return into_iter(E, st, a[0], cx)
    return a[0]


@model('Into::into', 'From::from', 'String::from', 'Box::from')
def _(E, st, a, cx):
    v = a[0]
    tys = cx.ft.get('args', [])
    T = [E.p.types[t]['s'] for t in tys]
    if cx.name == 'Into::into': src, dst = (T + ['', ''])[:2]
    else: dst, src = (T + ['', ''])[:2]
    if src == dst: return v
    INTS = set(INT_BITS) | {'usize', 'isize'}
    if src in INTS and dst in INTS: return E.cast('IntToInt', v, {'s': src, 'k': 'int'}, {'s': dst})
    if src in INTS and dst in ('f64', 'f32'): return E.cast('IntToFloat', v, {'s': src}, {'s': dst})
    if src == 'f32' and dst == 'f64': return E.cast('FloatToFloat', v, {'s': src}, {'s': dst})
    if src == 'bool' and dst in INTS: return E.cast('IntToInt', v, {'s': src, 'k': 'bool'}, {'s': dst})
    if dst == 'alloc::string::String' and src in ('&str', '&mut str', '&alloc::string::String', 'char', 'alloc::boxed::Box<str>'):
        return to_string(E, st, v)
    if dst == 'core::option::Option<%s>' % src: return Some(v)
    if dst.startswith('alloc::boxed::Box<') : return X('from', v, dst, ty=dst)
    if dst.startswith('alloc::vec::Vec<') and v[0] in ('L', 'R'):
        w = strip(E, st, v)
        if w[0] == 'L': return w
    if cx.ft.get('rpath') is None:
        return X('generic_into', v, src, dst, ty=dst)
    return None


@model('TryInto::try_into', 'TryFrom::try_from')
def _(E, st, a, cx):
    tys = cx.ft.get('args', [])
    T = [E.p.types[t]['s'] for t in tys]
    if cx.name == 'TryInto::try_into': src, dst = (T + ['', ''])[:2]
    else: dst, src = (T + ['', ''])[:2]
    INTS = set(INT_BITS) | {'usize', 'isize'}
    v = a[0]
    if src in INTS and dst in INTS:
        rd = E.rng(dst); r = E.term_range(v)
        if v[0] == 'I': return Ok(('I', v[1], dst)) if rd[0] <= v[1] <= rd[1] else Err(X('TryFromIntError'))
        if r and rd[0] <= r[0] and r[1] <= rd[1]: return Ok(v)
        conds = []
        if r is None or r[0] < rd[0]: conds.append(E.not_(E.cmp('Lt', v, ('I', rd[0], src), src)))
        if r is None or r[1] > rd[1]: conds.append(E.not_(E.cmp('Lt', ('I', rd[1], src), v, src)))
        c = conds[0] if len(conds) == 1 else E.and_(conds[0], conds[1])
        return Fork(c, lambda s: Ok(v), lambda s: Err(X('TryFromIntError')))
    if src == dst: return Ok(v)
    if cx.ft.get('rpath') is None or cx.ft.get('rpath', '').startswith('<T as core::convert::TryInto'):
        # resolve TryInto through a local TryFrom impl when there is one
        for f in E.p.fns:
            if f['name'] == 'try_from' and f['impl_self'] == dst and f['impl_trait'] and f['impl_trait'].startswith('core::convert::TryFrom<'):
                if f['impl_trait'][len('core::convert::TryFrom<'):-1].replace("'a ", '') == src: return Invoke(f['key'], [v])
        return X('generic_try_into', v, src, dst)
    return None


def default_of(E, t):
    if t is None: raise Undecided('default of unknown type')
    k = t['k']
    if k in ('int', 'uint'): return ('I', 0, t['n'])
    if k == 'float': return ('F', 0.0)
    if k == 'bool': return FALSE
    if k == 'ref' and E.p.types[t['t']]['k'] == 'str': return ('R', ('S', ''))
    if k == 'adt':
        if t['path'] == OPT: return NONE
        if t['path'] == 'alloc::string::String': return ('S', '')
        if t['path'] == 'alloc::vec::Vec': return ('L', ())
        if t['path'] == 'alloc::collections::btree::map::BTreeMap': return ('A', 'BTreeMap', 'BTreeMap', (('L', ()),))
    if k == 'tuple': return ('T', tuple(default_of(E, E.p.types[x]) for x in t['ts']))
    raise Undecided('default of ' + t['s'])


@model('Default::default')
def _(E, st, a, cx): return default_of(E, cx.targ(0))


# ---- hand-written implementations of PartialEq and Clone
_impls = {}


def handmade(E, adt, trait, name):
    """(program, key) of a hand-written implementation for a type of the workspace, else None"""
    crate = adt.split('::', 1)[0]
    if crate not in ('intl_pluralrules', 'cldr_pluralrules_parser', 'make_pluralrules'): return None
    own = E.p.d.get('crate') == crate or any(k.startswith(crate + '::') and b.local for k, b in itertools.islice(E.p.bodies.items(), 40))
    key = (crate, id(E.p) if own else 0)
    if key not in _impls:
        import c_eff
        p = E.p if own else c_eff.load(crate)
        _impls[key] = (p, {(f['impl_self'], f['impl_trait'], f['name']): f['key'] for f in p.fns if not f['derived'] and f['impl_trait'] in ('core::cmp::PartialEq', 'core::clone::Clone')})
    p, m = _impls[key]
    k = m.get((adt, trait, name))
    return (p, k) if k else None


def run_handmade(E, h, args):
    from engine import Engine
    if getattr(E, 'hm_depth', 0) > 20: raise Undecided('recursive implementation')
    e = Engine(h[0], E.models, E.dom, hook=E.hook, max_steps=20000, max_leaves=50)
    e.hm_depth = getattr(E, 'hm_depth', 0) + 1
    d = e.run_fn(h[1], args)
    if not d.is_leaf or d.kind != 'ret': raise Undecided('hand-written implementation on symbolic values')
    return d.val


def clone_val(E, st, v):
    """clone with the hand-written Clone implementations inside the value applied"""
    if v[0] == 'A':
        h = handmade(E, v[1], 'core::clone::Clone', 'clone')
        if h and getattr(E, 'hm_top', None) != v: return run_handmade(E, h, [('R', v)])
        fs = tuple(clone_val(E, st, x) for x in v[3])
        return v if fs == v[3] else v[:3] + (fs,)
    if v[0] in ('L', 'T'):
        fs = tuple(clone_val(E, st, x) for x in v[1])
        return v if fs == v[1] else (v[0], fs) + v[2:]
    return v


# ---- comparison
def eq_val(E, st, a, b):
    """boolean term: structural equality of two values"""
    a = strip(E, st, a); b = strip(E, st, b)
    if a[0] == 'X' and a[1] == 'deref' and b[0] == 'X' and b[1] == 'deref': return eq_val(E, st, a[2][0], b[2][0])
    if a[0] == 'A' and b[0] == 'A' and a[1] == b[1]:
        h = handmade(E, a[1], 'core::cmp::PartialEq', 'eq')
        if h: return run_handmade(E, h, [('R', a), ('R', b)])
    if a == b and a[0] not in ('F', 'A', 'L', 'T'): return TRUE
    if E.dom is not None and hasattr(E.dom, 'eq'):
        r = E.dom.eq(E, st, a, b)
        if r is not None: return r
    if a[0] in ('I', 'B', 'C', 'S', 'F') and b[0] == a[0]: return mkbool(a[1] == b[1])
    if a[0] == 'T' and b[0] == 'T' and len(a[1]) == len(b[1]):
        r = TRUE
        for x, y in zip(a[1], b[1]): r = E.and_(r, eq_val(E, st, x, y))
        return r
    if a[0] == 'L' and b[0] == 'L':
        if len(a[1]) != len(b[1]): return FALSE
        r = TRUE
        for x, y in zip(a[1], b[1]): r = E.and_(r, eq_val(E, st, x, y))
        return r
    if a[0] == 'A' and b[0] == 'A':
        if a[1] == b[1]:
            if a[2] != b[2]: return FALSE
            r = TRUE
            for x, y in zip(a[3], b[3]): r = E.and_(r, eq_val(E, st, x, y))
            return r
    if a[0] == 'A' and is_sym(b): a, b = b, a
    if is_sym(a) and b[0] == 'A' and b[1] in (OPT, RES):
        r = E.is_variant(a, b[2])
        if b[3]: r = E.and_(r, eq_val(E, st, payload(E, a, b[2]), b[3][0]))
        return r
    if is_sym(a) and b[0] == 'A' and not b[3] and not is_struct(E, b): return E.is_variant(a, b[2])
    if repr(a) > repr(b): a, b = b, a
    return X('Eq', a, b, ty='bool')


def is_struct(E, v):
    i = E.p.adts.get(v[1])
    if i is not None:
        t = E.p.types[i['t']]
        return not t['enum']
    return False


@model('PartialEq::eq', 'str::eq_ignore_ascii_case')
def _(E, st, a, cx):
    if cx.name.startswith('str::'):
        x = strip(E, st, a[0]); y = strip(E, st, a[1])
        if x[0] == 'S' and y[0] == 'S':
            low = lambda t: ''.join(c.lower() if c.isascii() else c for c in t)
            return mkbool(low(x[1]) == low(y[1]))
        return X('eq_icase', x, y, ty='bool')
    return eq_val(E, st, a[0], a[1])
@model('PartialEq::ne')
def _(E, st, a, cx): return E.not_(eq_val(E, st, a[0], a[1]))


def ident_cmp(x, y):
    """order of two fully known language identifiers or subtags (their orderings are derived)"""
    if x[0] != 'A' or y[0] != 'A' or x[1] != y[1] or not x[1].startswith(('unic_langid', 'tinystr')): return None
    return cmp3(None, None, x, y)


def _ord(op):
    def f(E, st, a, cx):
        x = strip(E, st, a[0]); y = strip(E, st, a[1])
        t = cx.targ(0); ty = t['s'] if t else None
        if x[0] == 'S' and y[0] == 'S':
            p, q = x[1].encode(), y[1].encode()
            return mkbool({'Lt': p < q, 'Le': p <= q, 'Gt': p > q, 'Ge': p >= q}[op])
        r = ident_cmp(x, y)
        if r is not None: return mkbool({'Lt': r < 0, 'Le': r <= 0, 'Gt': r > 0, 'Ge': r >= 0}[op])
        return E.cmp(op, x, y, ty)
    return f


M['PartialOrd::lt'] = _ord('Lt'); M['PartialOrd::le'] = _ord('Le'); M['PartialOrd::gt'] = _ord('Gt'); M['PartialOrd::ge'] = _ord('Ge')


@model('Ord::cmp')
def _(E, st, a, cx):
    x = strip(E, st, a[0]); y = strip(E, st, a[1])
    if x[0] == y[0] and x[0] in ('I', 'C', 'B'): return E.binop('Cmp', x, y, None)
    if x[0] == 'S' and y[0] == 'S':
        p, q = x[1].encode(), y[1].encode()
        return adt(ORD, 'Less' if p < q else 'Equal' if p == q else 'Greater')
    r = ident_cmp(x, y)
    if r is not None: return adt(ORD, ('Equal', 'Greater', 'Less')[r])
    return X('cmp', x, y, ty=ORD)
@model('PartialOrd::partial_cmp')
def _(E, st, a, cx):
    x = strip(E, st, a[0]); y = strip(E, st, a[1])
    t = cx.targ(0)
    if t and t['k'] == 'float': return X('partial_cmp', x, y)
    r = M['Ord::cmp'](E, st, a, cx)
    return Some(r)
@model('Ordering::is_eq')
def _(E, st, a, cx): return E.is_variant(a[0], 'Equal')
@model('Ordering::is_ne')
def _(E, st, a, cx): return E.not_(E.is_variant(a[0], 'Equal'))
@model('Ordering::is_lt')
def _(E, st, a, cx): return E.is_variant(a[0], 'Less')
@model('Ordering::is_gt')
def _(E, st, a, cx): return E.is_variant(a[0], 'Greater')
@model('Ordering::is_le')
def _(E, st, a, cx): return E.not_(E.is_variant(a[0], 'Greater'))
@model('Ordering::is_ge')
def _(E, st, a, cx): return E.not_(E.is_variant(a[0], 'Less'))
@model('Ordering::reverse')
def _(E, st, a, cx):
    v = a[0]
    if v[0] == 'A': return adt(ORD, {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}[v[2]])
    if v[0] == 'X' and v[1] == 'cmp': return X('cmp', v[2][1], v[2][0], ty=ORD)
    return X('ord_rev', v, ty=ORD)
@model('Ordering::then')
def _(E, st, a, cx): return Fork(E.is_variant(a[0], 'Equal'), lambda s: a[1], lambda s: a[0])
@model('Ordering::then_with')
def _(E, st, a, cx): return Fork(E.is_variant(a[0], 'Equal'), lambda s: Call(a[1], []), lambda s: a[0])
@model('Ord::max', 'cmp::max', 'float::max')
def _(E, st, a, cx):
    ty = cx.targ(0)['s'] if cx.targ(0) else None
    c = E.cmp('Lt', a[0], a[1], ty)
    return Fork(c, lambda s: a[1], lambda s: a[0])
@model('Ord::min', 'cmp::min', 'float::min')
def _(E, st, a, cx):
    ty = cx.targ(0)['s'] if cx.targ(0) else None
    c = E.cmp('Lt', a[1], a[0], ty)
    return Fork(c, lambda s: a[1], lambda s: a[0])


# ---- ranges
RI = 'core::ops::range::RangeInclusive'


@model('RangeInclusive::new')
def _(E, st, a, cx): return ('A', RI, 'RangeInclusive', (a[0], a[1], FALSE))
@model('RangeInclusive::start')
def _(E, st, a, cx): return ('R', strip(E, st, a[0])[3][0])
@model('RangeInclusive::end')
def _(E, st, a, cx): return ('R', strip(E, st, a[0])[3][1])
@model('RangeInclusive::contains', 'RangeBounds::contains', 'Range::contains', 'RangeFrom::contains', 'RangeTo::contains', 'RangeToInclusive::contains')
def _(E, st, a, cx):
    r = strip(E, st, a[0]); x = strip(E, st, a[1])
    if r[0] != 'A': return None
    t = cx.targ(0)
    ty = None
    for i in range(len(cx.ft.get('args', []))):
        if cx.targ(i)['k'] in ('int', 'uint', 'float', 'char'): ty = cx.targ(i)['s']
    n = r[2]
    if n == 'RangeInclusive': return E.and_(E.cmp('Le', r[3][0], x, ty), E.cmp('Le', x, r[3][1], ty))
    if n == 'Range': return E.and_(E.cmp('Le', r[3][0], x, ty), E.cmp('Lt', x, r[3][1], ty))
    if n == 'RangeFrom': return E.cmp('Le', r[3][0], x, ty)
    if n == 'RangeTo': return E.cmp('Lt', x, r[3][0], ty)
    if n == 'RangeToInclusive': return E.cmp('Le', x, r[3][0], ty)
    return None


# ---- integers and floats
def ity(cx):
    m = re.search(r'<impl (\w+)>', cx.ft['path'])
    return m.group(1) if m else (cx.targ(0)['s'] if cx.targ(0) else None)


@model('int::checked_abs')
def _(E, st, a, cx):
    ty = ity(cx); x = a[0]; lo, hi = E.rng(ty)
    if x[0] == 'I': return Some(('I', abs(x[1]), ty)) if x[1] != lo else NONE
    r = E.term_range(x)
    if r and r[0] > lo: return Some(X('absi', x, ty=ty))
    return Fork(E.cmp('Eq', x, ('I', lo, ty), ty), lambda s: NONE, lambda s: Some(X('absi', x, ty=ty)))
@model('int::unsigned_abs')
def _(E, st, a, cx):
    ty = ity(cx); x = a[0]
    if x[0] == 'I': return ('I', abs(x[1]), 'u' + ty[1:])
    return X('absi', x, ty='u' + ty[1:])
@model('int::abs')
def _(E, st, a, cx):
    ty = ity(cx); x = a[0]; lo, hi = E.rng(ty)
    if x[0] == 'I' and x[1] != lo: return ('I', abs(x[1]), ty)
    r = E.term_range(x)
    if r and r[0] > lo: return X('absi', x, ty=ty)
    return Fork(E.cmp('Eq', x, ('I', lo, ty), ty), lambda s: Panic('abs overflow at ' + where(cx)), lambda s: X('absi', x, ty=ty))
@model('int::wrapping_abs')
def _(E, st, a, cx):
    ty = ity(cx); x = a[0]; lo, hi = E.rng(ty)
    r = E.term_range(x)
    if r and r[0] > lo: return X('absi', x, ty=ty)
    return Fork(E.cmp('Eq', x, ('I', lo, ty), ty), lambda s: ('I', lo, ty), lambda s: X('absi', x, ty=ty))
@model('int::saturating_abs')
def _(E, st, a, cx):
    ty = ity(cx); x = a[0]; lo, hi = E.rng(ty)
    r = E.term_range(x)
    if r and r[0] > lo: return X('absi', x, ty=ty)
    return Fork(E.cmp('Eq', x, ('I', lo, ty), ty), lambda s: ('I', hi, ty), lambda s: X('absi', x, ty=ty))


def _checked(op):
    def f(E, st, a, cx):
        ty = ity(cx)
        t = E.binop(op + 'WithOverflow', a[0], a[1], ty)
        return Fork(t[1][1], lambda s: NONE, lambda s: Some(t[1][0]))
    return f


def _wrapping(op):
    return lambda E, st, a, cx: E.arith(op, a[0], a[1], ity(cx))


def _saturating(op):
    def f(E, st, a, cx):
        ty = ity(cx); lo, hi = E.rng(ty)
        t = E.binop(op + 'WithOverflow', a[0], a[1], ty)
        lim = lo if op == 'Sub' and ty[0] == 'u' else hi
        if ty[0] == 'i' and not (t[1][1][0] == 'B' and not t[1][1][1]): raise Undecided('saturating signed')
        return Fork(t[1][1], lambda s: ('I', lim, ty), lambda s: t[1][0])
    return f


for o in ('Add', 'Sub', 'Mul'):
    M['int::checked_' + o.lower()] = _checked(o)
    M['int::wrapping_' + o.lower()] = _wrapping(o)
    M['int::saturating_' + o.lower()] = _saturating(o)


@model('int::checked_rem', 'int::checked_div')
def _(E, st, a, cx):
    ty = ity(cx); op = 'Rem' if cx.name.endswith('rem') else 'Div'
    if a[1][0] == 'I' and a[1][1] > 0: return Some(E.arith(op, a[0], a[1], ty))
    return None
@model('int::rem_euclid', 'int::wrapping_rem')
def _(E, st, a, cx):
    ty = ity(cx)
    if a[1][0] == 'I' and a[1][1] > 0 and ty[0] == 'u': return E.arith('Rem', a[0], a[1], ty)
    return None
@model('int::is_multiple_of')
def _(E, st, a, cx):
    ty = ity(cx)
    if a[1][0] == 'I' and a[1][1] > 0: return E.cmp('Eq', E.arith('Rem', a[0], a[1], ty), I(0, ty), ty)
    return None


@model('int::pow')
def _(E, st, a, cx):
    ty = ity(cx)
    if a[0][0] == 'I' and a[1][0] == 'I':
        r = a[0][1] ** a[1][1]; lo, hi = E.rng(ty)
        return ('I', r, ty) if lo <= r <= hi else Panic('pow overflow at ' + where(cx))
    return None


@model('int::abs_diff')
def _(E, st, a, cx):
    if a[1] == I(0, a[1][2] if len(a[1]) > 2 else None) and a[1][0] == 'I': return X('absi', a[0], ty='u' + ity(cx)[1:])
    if a[1][0] == 'I' and a[1][1] == 0: return X('absi', a[0], ty='u' + ity(cx)[1:])
    return None
@model('int::is_negative')
def _(E, st, a, cx): return E.cmp('Lt', a[0], ('I', 0, ity(cx)), ity(cx))
@model('int::is_positive')
def _(E, st, a, cx): return E.cmp('Lt', ('I', 0, ity(cx)), a[0], ity(cx))
@model('int::signum')
def _(E, st, a, cx):
    if a[0][0] == 'I': return ('I', (a[0][1] > 0) - (a[0][1] < 0), ity(cx))
    return X('signum', a[0], ty=ity(cx))
@model('int::wrapping_neg')
def _(E, st, a, cx): return X('Neg', a[0], ty=ity(cx)) if a[0][0] != 'I' else ('I', E.wrap(-a[0][1], ity(cx)), ity(cx))
@model('int::checked_neg')
def _(E, st, a, cx):
    ty = ity(cx); x = a[0]; lo, hi = E.rng(ty)
    if ty[0] == 'i': return Fork(E.cmp('Eq', x, ('I', lo, ty), ty), lambda s: NONE, lambda s: Some(X('Neg', x, ty=ty)))
    return None


@model('float::abs', 'float::trunc', 'float::floor', 'float::ceil', 'float::round', 'float::fract', 'float::sqrt')
def _(E, st, a, cx):
    n = cx.name.split('::')[1]
    if a[0][0] == 'F':
        import math
        x = a[0][1]
        return ('F', {'abs': abs, 'trunc': lambda v: float(math.trunc(v)), 'floor': lambda v: float(math.floor(v)), 'ceil': lambda v: float(math.ceil(v)), 'round': lambda v: float(math.floor(v + .5)), 'fract': lambda v: v - math.trunc(v), 'sqrt': math.sqrt}[n](x))
    if n == 'abs':
        if E.dom is not None and hasattr(E.dom, 'fabs'):
            r = E.dom.fabs(E, a[0])
            if r is not None: return r
        if a[0][0] == 'X' and a[0][1] == 'f' + n: return a[0]
        if a[0][0] == 'X' and a[0][1] == 'Neg': return X('fabs', a[0][2][0], ty='f64')
        if a[0][0] == 'X' and a[0][1] == 'i2f':
            r = E.term_range(a[0][2][0])
            if r and r[0] >= 0: return a[0]
            return X('i2f', X('absi', a[0][2][0], ty='i128'), ty='f64')
    return X('f' + n, a[0], ty='f64')
@model('float::is_nan', 'float::is_infinite', 'float::is_finite', 'float::is_sign_negative', 'float::is_sign_positive')
def _(E, st, a, cx):
    n = cx.name.split('::')[1]
    return X(n, a[0], ty='bool')


# ---- panics
@model('panicking::panic', 'panicking::panic_fmt', 'panicking::panic_display', 'panicking::begin_panic', 'panicking::unreachable_default_msg',
       'panicking::unreachable_display', 'panicking::panic_explicit', 'panicking::panic_const', 'panicking::assert_failed', 'panicking::panic_str_2015',
       'option::unwrap_failed', 'option::expect_failed', 'result::unwrap_failed', 'panicking::panic_nounwind', 'rt::begin_panic', 'rt::panic_fmt')
def _(E, st, a, cx): return Panic('%s at %s' % (cx.name, where(cx)))


# ---- lists and iterators
ITER = 'iter'


def it(kind, *f): return ('A', ITER, kind, tuple(f))


def into_iter(E, st, v, cx=None):
    if v[0] == 'A' and v[1] == ITER: return v
    if v[0] == 'A' and v[2] in ('Range', 'RangeInclusive', 'RangeFrom'): return range_iter(E, v)
    if v[0] == 'L': return it('list', v, I(0))
    if v[0] == 'M':
        w = E.load(st, v)
        if w[0] == 'A' and w[1] == ITER: return it('by_ref', v)
        if w[0] == 'L': return it('list', ('L', tuple(('M', v[1], v[2], v[3] + (('i', I(k)),)) for k in range(len(w[1])))), I(0))
        if w[0] == 'A' and w[1] == 'BTreeMap': raise Undecided('mutable map iteration')
    if v[0] == 'R':
        w = strip(E, st, v)
        if w[0] == 'L': return it('list', ('L', tuple(('R', x) for x in w[1])), I(0))
        if w[0] == 'A' and w[1] == OPT: return it('list', ('L', tuple(('R', x) for x in w[3])), I(0))
        if w[0] == 'A' and w[1] == 'BTreeMap' and w[2] == 'Set': return it('list', ('L', tuple(('R', e[1][0]) for e in w[3][0][1])), I(0))
        if w[0] == 'A' and w[1] == 'BTreeMap': return it('list', ('L', tuple(('T', (('R', e[1][0]), ('R', e[1][1]))) for e in w[3][0][1])), I(0))
        if is_sym(w): return it('sym', ('R', w))
    if v[0] == 'A' and v[1] == OPT: return it('list', ('L', v[3]), I(0))
    if v[0] == 'A' and v[1] == 'BTreeMap' and v[2] == 'Set': return it('list', ('L', tuple(e[1][0] for e in v[3][0][1])), I(0))
    if v[0] == 'A' and v[1] == 'BTreeMap': return it('list', v[3][0], I(0))
    if is_sym(v): return it('sym', v)
    raise Undecided('into_iter of %s' % v[0])


def range_iter(E, v):
    if v[2] == 'RangeFrom' and v[3][0][0] == 'I': return it('count', v[3][0])
    lo, hi = v[3][0], v[3][1]
    if lo[0] == 'I' and hi[0] == 'I':
        h = hi[1] + (1 if v[2] == 'RangeInclusive' else 0)
        if h - lo[1] > 5000: raise Undecided('long range')
        return it('list', ('L', tuple(('I', k, lo[2]) for k in range(lo[1], h))), I(0))
    raise Undecided('symbolic range')


@model('slice::iter', 'Vec::iter', 'BTreeMap::iter', 'Option::iter', 'BTreeSet::iter', 'HashSet::iter', 'HashMap::iter')
def _(E, st, a, cx): return into_iter(E, st, a[0] if a[0][0] != 'M' else ('R', E.load(st, a[0])))
@model('slice::iter_mut')
def _(E, st, a, cx): return into_iter(E, st, a[0])
@model('Vec::into_iter', 'Vec::drain')
def _(E, st, a, cx): return into_iter(E, st, a[0])
@model('BTreeMap::keys')
def _(E, st, a, cx):
    w = strip(E, st, a[0])
    if w[0] == 'A': return it('list', ('L', tuple(('R', e[1][0]) for e in w[3][0][1])), I(0))
@model('BTreeMap::values')
def _(E, st, a, cx):
    w = strip(E, st, a[0])
    if w[0] == 'A': return it('list', ('L', tuple(('R', e[1][1]) for e in w[3][0][1])), I(0))
@model('BTreeMap::into_values')
def _(E, st, a, cx):
    w = a[0]
    if w[0] == 'A': return it('list', ('L', tuple(e[1][1] for e in w[3][0][1])), I(0))
@model('BTreeMap::into_keys')
def _(E, st, a, cx):
    w = a[0]
    if w[0] == 'A': return it('list', ('L', tuple(e[1][0] for e in w[3][0][1])), I(0))


def rest(v):
    """remaining elements of a plain list iterator, else None"""
    if v[0] == 'A' and v[1] == ITER and v[2] == 'list': return v[3][0][1][v[3][1][1]:]
    return None


def lst(xs): return it('list', ('L', tuple(xs)), I(0))


@model('Iterator::map')
def _(E, st, a, cx): return it('map', a[0], a[1])
@model('Iterator::filter')
def _(E, st, a, cx): return it('filter', a[0], a[1])
@model('Iterator::filter_map')
def _(E, st, a, cx): return it('filter_map', a[0], a[1])
@model('Iterator::flat_map')
def _(E, st, a, cx): return it('flat', it('map', a[0], a[1]), NONE)
@model('Iterator::flatten')
def _(E, st, a, cx): return it('flat', a[0], NONE)
@model('Iterator::inspect')
def _(E, st, a, cx): return it('inspect', a[0], a[1])
@model('Iterator::take_while')
def _(E, st, a, cx): return it('take_while', a[0], a[1], FALSE)
@model('Iterator::skip_while')
def _(E, st, a, cx): return it('skip_while', a[0], a[1], FALSE)
@model('Iterator::map_while')
def _(E, st, a, cx): return it('map_while', a[0], a[1])
@model('Iterator::enumerate')
def _(E, st, a, cx):
    r = rest(a[0])
    if r is not None: return lst(('T', (I(i), x)) for i, x in enumerate(r))
    return it('enum', a[0], I(0))
@model('Iterator::rev')
def _(E, st, a, cx):
    r = rest(a[0])
    if r is not None: return lst(reversed(r))
    v = a[0]
    if v[0] == 'A' and v[1] == ITER and v[2] in ('map', 'filter', 'filter_map'):
        r = rest(v[3][0])
        if r is not None: return ('A', ITER, v[2], (lst(reversed(r)), v[3][1]))
    raise Undecided('rev of %s' % (v[2] if v[0] == 'A' else v[0]))
@model('Iterator::cloned', 'Iterator::copied')
def _(E, st, a, cx):
    r = rest(a[0])
    if r is not None: return lst(E.deref(st, x) for x in r)
    return it('cloned', a[0])
@model('Iterator::skip')
def _(E, st, a, cx):
    r = rest(a[0])
    if r is not None and a[1][0] == 'I': return lst(r[a[1][1]:])
    raise Undecided('skip')
@model('Iterator::take')
def _(E, st, a, cx):
    r = rest(a[0])
    if r is not None and a[1][0] == 'I': return lst(r[:a[1][1]])
    if a[1][0] == 'I': return it('take', a[0], a[1])
    raise Undecided('take')
@model('Iterator::step_by')
def _(E, st, a, cx):
    r = rest(a[0])
    if r is not None and a[1][0] == 'I': return lst(r[::a[1][1]])
    raise Undecided('step_by')
@model('Iterator::chain')
def _(E, st, a, cx):
    r = rest(a[0]); b = into_iter(E, st, a[1]); r2 = rest(b)
    if r is not None and r2 is not None: return lst(tuple(r) + tuple(r2))
    return it('chain', a[0], b)
@model('iter::once')
def _(E, st, a, cx): return lst([a[0]])
@model('iter::empty')
def _(E, st, a, cx): return lst([])
@model('iter::zip')
def _(E, st, a, cx): return M['Iterator::zip'](E, st, [into_iter(E, st, a[0]), a[1]], cx)
@model('Iterator::zip')
def _(E, st, a, cx):
    r = rest(a[0]); b = into_iter(E, st, a[1]); r2 = rest(b)
    if r is not None and r2 is not None: return lst(('T', (x, y)) for x, y in zip(r, r2))
    return it('zip', a[0], b)
@model('Iterator::peekable', 'Iterator::fuse', 'Iterator::by_ref')
def _(E, st, a, cx): return a[0]
@model('Peekable::peek')
def _(E, st, a, cx):
    r = rest(E.load(st, a[0]))
    if r is None: raise Undecided('peek')
    return Some(('R', r[0])) if r else NONE
@model('ExactSizeIterator::len', 'Iterator::count')
def _(E, st, a, cx):
    r = rest(strip(E, st, a[0]))
    if r is not None: return I(len(r))
    if cx.name == 'Iterator::count': return drain(E, a[0], 'count', I(0))
    raise Undecided('iterator length')


# next: returns tree yielding Option; mref is the address of the iterator
def nxt(E, st, mref):
    v = E.load(st, mref)
    if v[0] == 'M': return nxt(E, st, v)
    if v[0] == 'A' and v[1] == 'core::ops::range::Range' and v[3][0][0] == 'I' and v[3][1][0] == 'I':
        lo, hi = v[3]
        if lo[1] >= hi[1]: return NONE
        E.store(st, mref, ('A', v[1], v[2], (('I', lo[1] + 1, lo[2]), hi)))
        return Some(lo)
    if v[0] == 'A' and v[1] == RI:
        v = range_iter(E, v); E.store(st, mref, v)
    if not (v[0] == 'A' and v[1] == ITER):
        if is_sym(v): raise Undecided('next on symbolic iterator')
        raise Undecided('next on ' + v[0])
    k = v[2]; f = v[3]
    sub = lambda i: ('M', mref[1], mref[2], mref[3] + (('f', i),))
    if k == 'list':
        L = f[0][1]; p = f[1][1]
        if p < len(L):
            E.store(st, sub(1), I(p + 1)); return Some(L[p])
        return NONE
    if k == 'count':
        E.store(st, sub(0), ('I', f[0][1] + 1, f[0][2])); return Some(f[0])
    if k == 'by_ref': return nxt(E, st, f[0])
    if k in ('map', 'filter', 'filter_map', 'inspect', 'take_while', 'skip_while', 'map_while', 'enum', 'cloned', 'chain', 'zip', 'flat', 'take'):
        if k == 'take_while' and f[2] == TRUE: return NONE
        if k == 'take':
            if f[1][1] <= 0: return NONE
            E.store(st, sub(1), I(f[1][1] - 1)); return Call(('NEXT',), [sub(0)], 'ret1')
        if k == 'flat' and f[1][0] == 'A' and f[1][2] == 'Some':
            return Call(('NEXT',), [('M', mref[1], mref[2], mref[3] + (('f', 1), ('d', 1, 'Some'), ('f', 0)))], 'n_flat_in', mref)
        return Call(('NEXT',), [sub(0)], 'n_' + k, mref)
    raise Undecided('next on iterator ' + k)


@model('Iterator::next')
def _(E, st, a, cx): return nxt(E, st, a[0])


_old_invoke = Engine.invoke_value


def _invoke(self, st, f, args):
    if f[0] == 'NEXT': return self.apply(st, nxt(self, st, args[0]))
    return _old_invoke(self, st, f, args)


Engine.invoke_value = _invoke


def on(val, some, none=lambda: NONE):
    if val[0] != 'A': raise Undecided('symbolic iterator item')
    return some(val[3][0]) if val[2] == 'Some' else none()


def sub(mref, i): return ('M', mref[1], mref[2], mref[3] + (('f', i),))


@handler
def n_map(E, st, fr, val):
    m = fr.data
    return on(val, lambda x: Call(sub(m, 1), [x], 'wrap_some'))
@handler
def n_cloned(E, st, fr, val): return on(val, lambda x: Some(E.deref(st, x)))
@handler
def n_enum(E, st, fr, val):
    m = fr.data
    def some(x):
        i = E.load(st, sub(m, 1)); E.store(st, sub(m, 1), I(i[1] + 1))
        return Some(('T', (i, x)))
    return on(val, some)
@handler
def n_filter(E, st, fr, val):
    m = fr.data
    return on(val, lambda x: Call(sub(m, 1), [('R', x)], 'n_filter2', ('T', (m, x))))
@handler
def n_filter2(E, st, fr, val):
    m, x = fr.data[1]
    return Fork(val, lambda s: Some(x), lambda s: Call(('NEXT',), [sub(m, 0)], 'n_filter', m))
@handler
def n_filter_map(E, st, fr, val):
    m = fr.data
    return on(val, lambda x: Call(sub(m, 1), [x], 'n_filter_map2', m))
@handler
def n_filter_map2(E, st, fr, val):
    m = fr.data
    return branch(E, st, val, 'opt', lambda s, x: Some(x), lambda s, _: Call(('NEXT',), [sub(m, 0)], 'n_filter_map', m))
@handler
def n_inspect(E, st, fr, val):
    m = fr.data
    return on(val, lambda x: Call(sub(m, 1), [('R', x)], 'n_inspect2', x))
@handler
def n_inspect2(E, st, fr, val): return Some(fr.data)
@handler
def n_take_while(E, st, fr, val):
    m = fr.data
    return on(val, lambda x: Call(sub(m, 1), [('R', x)], 'n_take_while2', ('T', (m, x))))
@handler
def n_take_while2(E, st, fr, val):
    m, x = fr.data[1]
    def stop(s): E.store(s, sub(m, 2), TRUE); return NONE
    return Fork(val, lambda s: Some(x), stop)
@handler
def n_skip_while(E, st, fr, val):
    m = fr.data
    def some(x):
        if E.load(st, sub(m, 2)) == TRUE: return Some(x)
        return Call(sub(m, 1), [('R', x)], 'n_skip_while2', ('T', (m, x)))
    return on(val, some)
@handler
def n_skip_while2(E, st, fr, val):
    m, x = fr.data[1]
    def stop(s): E.store(s, sub(m, 2), TRUE); return Some(x)
    return Fork(val, lambda s: Call(('NEXT',), [sub(m, 0)], 'n_skip_while', m), stop)
@handler
def n_map_while(E, st, fr, val):
    m = fr.data
    return on(val, lambda x: Call(sub(m, 1), [x], 'ret1'))
@handler
def n_chain(E, st, fr, val):
    m = fr.data
    return on(val, lambda x: Some(x), lambda: Call(('NEXT',), [sub(m, 1)], 'ret1'))
@handler
def n_zip(E, st, fr, val):
    m = fr.data
    return on(val, lambda x: Call(('NEXT',), [sub(m, 1)], 'n_zip2', x))
@handler
def n_zip2(E, st, fr, val):
    x = fr.data
    return on(val, lambda y: Some(('T', (x, y))))
@handler
def n_flat(E, st, fr, val):
    m = fr.data
    def some(x):
        E.store(st, sub(m, 1), Some(into_iter(E, st, x)))
        return Call(('NEXT',), [('M', m[1], m[2], m[3] + (('f', 1), ('d', 1, 'Some'), ('f', 0)))], 'n_flat_in', m)
    return on(val, some)
@handler
def n_flat_in(E, st, fr, val):
    m = fr.data
    def none():
        E.store(st, sub(m, 1), NONE)
        return Call(('NEXT',), [sub(m, 0)], 'n_flat', m)
    return on(val, lambda x: Some(x), none)


# consumers: one generic driver; mode decides what to do with each item
def drain(E, itv, mode, acc, f=None):
    itv_env = {0: itv}
    if f is not None: itv_env[1] = f
    return Drain(mode, acc, itv_env)


class Drain:
    def __init__(self, mode, acc, env): self.mode = mode; self.acc = acc; self.env = env


_old_apply = Engine.apply


def _apply(self, st, tree, from_py=False):
    if isinstance(tree, Drain):
        if from_py: st.frames.pop()
        st.frames.append(PF('drain', ('T', (('S', tree.mode), tree.acc)), dict(tree.env)))
        me = len(st.frames) - 1
        return self.invoke_value(st, ('NEXT',), [('M', me, 0, ())])
    return _old_apply(self, st, tree, from_py)


Engine.apply = _apply


@handler
def drain_h(E, st, fr, val): pass


@handler
def drain(E, st, fr, val=None):  # noqa: redefined below
    pass


def _drain_ctor(E, itv, mode, acc, f=None):
    env = {0: itv}
    if f is not None: env[1] = f
    return Drain(mode, acc, env)


def _drain_step(E, st, fr, val):
    me = st.frames.index(fr)
    (_, mode), acc = fr.data[1]
    again = lambda acc2: Call(('NEXT',), [('M', me, 0, ())], 'drain', ('T', (('S', mode), acc2)))
    callf = lambda args, x=None: Call(('M', me, 1, ()), args, 'drain_f', ('T', (('S', mode), acc, x if x is not None else UNIT)))
    if val[0] != 'A': raise Undecided('symbolic iterator item')
    if val[2] == 'None':
        if mode in ('vec', 'count', 'sum', 'last', 'map', 'set', 'string', 'join'): return acc
        if mode in ('fold', 'for_each', 'max', 'min'): return acc
        if mode == 'any': return FALSE
        if mode == 'all': return TRUE
        if mode in ('find', 'position', 'find_map'): return NONE
        if mode == 'try_vec_res': return Ok(acc)
        if mode == 'try_vec_opt': return Some(acc)
        if mode in ('try_fold_res', 'try_each_res'): return Ok(acc)
        if mode == 'try_each_opt': return Some(acc)
        if mode == 'try_fold_opt': return Some(acc)
        if mode == 'extend':
            return acc
        if mode == 'partition': return acc
        raise Undecided('drain ' + mode)
    x = val[3][0]
    if mode == 'vec' or mode == 'extend': return again(('L', acc[1] + (x,)))
    if mode == 'count': return again(I(acc[1] + 1))
    if mode == 'last': return again(Some(x))
    if mode == 'sum': return again(E.arith('Add', acc, strip(E, st, x), acc[2]))
    if mode == 'map': return again(btree_put(E, st, acc, x[1][0], x[1][1]))
    if mode == 'set': return again(acc if any(e[1][0] == x for e in acc[3][0][1]) else btree_put(E, st, acc, x, UNIT))
    if mode == 'string': return again(str_concat(acc, strip(E, st, x)))
    if mode == 'try_vec_res': return branch(E, st, x, 'res', lambda s, y: again(('L', acc[1] + (y,))), lambda s, e: Err(e))
    if mode == 'try_vec_opt': return branch(E, st, x, 'opt', lambda s, y: again(('L', acc[1] + (y,))), lambda s, e: NONE)
    if mode in ('fold', 'try_fold_res', 'try_fold_opt'): return callf([acc, x])
    if mode in ('find', 'partition'): return callf([('R', x)], x)
    if mode in ('any', 'all', 'position', 'find_map', 'for_each', 'try_each_res', 'try_each_opt'): return callf([x], x)
    raise Undecided('drain ' + mode)


HANDLERS['drain'] = _drain_step
drain = _drain_ctor


@handler
def drain_f(E, st, fr, val):
    me = st.frames.index(fr)
    (_, mode), acc, x = fr.data[1]
    again = lambda acc2: Call(('NEXT',), [('M', me, 0, ())], 'drain', ('T', (('S', mode), acc2)))
    if mode == 'fold': return again(val)
    if mode == 'for_each': return again(UNIT)
    if mode == 'any': return Fork(val, lambda s: TRUE, lambda s: again(acc))
    if mode == 'all': return Fork(val, lambda s: again(acc), lambda s: FALSE)
    if mode == 'find': return Fork(val, lambda s: Some(x), lambda s: again(acc))
    if mode == 'position': return Fork(val, lambda s: Some(acc), lambda s: again(I(acc[1] + 1)))
    if mode == 'find_map': return branch(E, st, val, 'opt', lambda s, y: Some(y), lambda s, _: again(acc))
    if mode == 'try_each_res': return branch(E, st, val, 'res', lambda s, y: again(UNIT), lambda s, e: Err(e))
    if mode == 'try_each_opt': return branch(E, st, val, 'opt', lambda s, y: again(UNIT), lambda s, e: NONE)
    if mode == 'try_fold_res': return branch(E, st, val, 'res', lambda s, y: again(y), lambda s, e: Err(e))
    if mode == 'try_fold_opt': return branch(E, st, val, 'opt', lambda s, y: again(y), lambda s, e: NONE)
    if mode == 'partition':
        l, r = acc[1]
        return Fork(val, lambda s: again(('T', (('L', l[1] + (x,)), r))), lambda s: again(('T', (l, ('L', r[1] + (x,))))))
    raise Undecided(mode)


def itarg(E, st, v):
    """iterator passed by value or by &mut"""
    if v[0] == 'M': return it('by_ref', v)
    return into_iter(E, st, v)


@model('Iterator::collect', 'FromIterator::from_iter', 'Vec::from_iter')
def _(E, st, a, cx):
    t = cx.dty if cx.term else None
    if t is None:
        for i in range(len(cx.ft.get('args', []))):
            if cx.targ(i)['k'] == 'adt' and cx.targ(i)['path'] in ('alloc::vec::Vec', RES, OPT, 'alloc::string::String'): t = cx.targ(i)
    if t is None or t['k'] != 'adt': raise Undecided('collect')
    itv = itarg(E, st, a[0])
    p = t['path']
    if p in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'): return drain(E, itv, 'vec', ('L', ()))
    if p == 'alloc::string::String': return drain(E, itv, 'string', ('S', ''))
    if p == 'alloc::collections::btree::map::BTreeMap': return drain(E, itv, 'map', ('A', 'BTreeMap', 'BTreeMap', (('L', ()),)))
    if p == 'std::collections::hash::map::HashMap': return drain(E, itv, 'map', ('A', 'BTreeMap', 'HashMap', (('L', ()),)))
    if p in ('alloc::collections::btree::set::BTreeSet', 'std::collections::hash::set::HashSet'): return drain(E, itv, 'set', ('A', 'BTreeMap', 'Set', (('L', ()),)))
    if p in (RES, OPT):
        inner = E.p.types[t['args'][0]]
        if inner['k'] == 'adt' and inner['path'] == 'alloc::vec::Vec':
            return drain(E, itv, 'try_vec_res' if p == RES else 'try_vec_opt', ('L', ()))
    raise Undecided('collect into ' + t['s'])
@model('Iterator::fold')
def _(E, st, a, cx): return drain(E, itarg(E, st, a[0]), 'fold', a[1], a[2])
@model('Iterator::try_fold')
def _(E, st, a, cx): return drain(E, itarg(E, st, a[0]), 'try_fold_res' if cx.dty and cx.dty.get('path') == RES else 'try_fold_opt', a[1], a[2])
@model('Iterator::any')
def _(E, st, a, cx): return drain(E, itarg(E, st, a[0]), 'any', UNIT, a[1])
@model('Iterator::all')
def _(E, st, a, cx): return drain(E, itarg(E, st, a[0]), 'all', UNIT, a[1])
@model('Iterator::find')
def _(E, st, a, cx): return drain(E, itarg(E, st, a[0]), 'find', UNIT, a[1])
@model('Iterator::find_map')
def _(E, st, a, cx): return drain(E, itarg(E, st, a[0]), 'find_map', UNIT, a[1])
@model('Iterator::position')
def _(E, st, a, cx): return drain(E, itarg(E, st, a[0]), 'position', I(0), a[1])
@model('Iterator::for_each')
def _(E, st, a, cx): return drain(E, itarg(E, st, a[0]), 'for_each', UNIT, a[1])
@model('Iterator::last')
def _(E, st, a, cx): return drain(E, itarg(E, st, a[0]), 'last', NONE)
@model('Iterator::partition')
def _(E, st, a, cx): return drain(E, itarg(E, st, a[0]), 'partition', ('T', (('L', ()), ('L', ()))), a[1])
@model('Iterator::sum')
def _(E, st, a, cx):
    t = cx.dty
    if t and t['k'] in ('int', 'uint'): return drain(E, itarg(E, st, a[0]), 'sum', ('I', 0, t['n']))
    raise Undecided('sum')
@model('Iterator::nth')
def _(E, st, a, cx):
    v = E.load(st, a[0]) if a[0][0] == 'M' else a[0]
    r = rest(v)
    if r is None or a[1][0] != 'I': raise Undecided('nth')
    n = a[1][1]
    E.store(st, a[0], lst(r[n + 1:]))
    return Some(r[n]) if n < len(r) else NONE
@model('DoubleEndedIterator::next_back')
def _(E, st, a, cx):
    v = E.load(st, a[0]); r = rest(v)
    if r is None: raise Undecided('next_back')
    if not r: return NONE
    E.store(st, a[0], lst(r[:-1])); return Some(r[-1])
@model('DoubleEndedIterator::rfind')
def _(E, st, a, cx):
    v = E.load(st, a[0]) if a[0][0] == 'M' else a[0]; r = rest(v)
    if r is None: raise Undecided('rfind')
    return drain(E, lst(reversed(r)), 'find', UNIT, a[1])


# ---- Vec / slice
@model('Vec::new', 'Vec::with_capacity')
def _(E, st, a, cx): return ('L', ())
@model('Vec::push')
def _(E, st, a, cx):
    v = E.load(st, a[0])
    if v[0] != 'L': raise Undecided('push to symbolic vector')
    E.store(st, a[0], ('L', v[1] + (a[1],))); return UNIT
@model('Vec::pop')
def _(E, st, a, cx):
    v = E.load(st, a[0])
    if v[0] != 'L': raise Undecided('pop from symbolic vector')
    if not v[1]: return NONE
    E.store(st, a[0], ('L', v[1][:-1])); return Some(v[1][-1])
@model('Vec::insert')
def _(E, st, a, cx):
    v = E.load(st, a[0]); i = a[1][1] if a[1][0] == 'I' else None
    if v[0] != 'L' or i is None: raise Undecided('insert')
    if i > len(v[1]): return Panic('Vec::insert out of range')
    E.store(st, a[0], ('L', v[1][:i] + (a[2],) + v[1][i:])); return UNIT
@model('Vec::remove', 'Vec::swap_remove')
def _(E, st, a, cx):
    v = E.load(st, a[0]); i = a[1][1] if a[1][0] == 'I' else None
    if v[0] != 'L' or i is None: raise Undecided('remove')
    if i >= len(v[1]): return Panic('Vec::remove out of range')
    x = v[1][i]
    if cx.name.endswith('swap_remove'): l = list(v[1]); l[i] = l[-1]; l.pop(); E.store(st, a[0], ('L', tuple(l)))
    else: E.store(st, a[0], ('L', v[1][:i] + v[1][i + 1:]))
    return x
@model('Vec::clear')
def _(E, st, a, cx): E.store(st, a[0], ('L', ())); return UNIT
@model('Vec::truncate')
def _(E, st, a, cx):
    v = E.load(st, a[0])
    if v[0] != 'L' or a[1][0] != 'I': raise Undecided('truncate')
    E.store(st, a[0], ('L', v[1][:a[1][1]])); return UNIT
@model('Vec::reserve', 'Vec::shrink_to_fit', 'String::reserve')
def _(E, st, a, cx): return UNIT
@model('slice::reverse')
def _(E, st, a, cx):
    v = E.load(st, a[0])
    if v[0] != 'L': raise Undecided('reverse')
    E.store(st, a[0], ('L', tuple(reversed(v[1])))); return UNIT
@model('slice::swap')
def _(E, st, a, cx):
    v = E.load(st, a[0])
    if v[0] != 'L' or a[1][0] != 'I' or a[2][0] != 'I': raise Undecided('swap')
    l = list(v[1]); l[a[1][1]], l[a[2][1]] = l[a[2][1]], l[a[1][1]]; E.store(st, a[0], ('L', tuple(l))); return UNIT


@handler
def vec_extend(E, st, fr, val):
    m = fr.data
    v = E.load(st, m); E.store(st, m, ('L', v[1] + val[1])); return UNIT


@model('Extend::extend', 'Vec::extend', 'Vec::append', 'Vec::extend_from_slice')
def _(E, st, a, cx):
    v = E.load(st, a[0])
    if cx.name == 'Vec::append':
        w = E.load(st, a[1]); E.store(st, a[1], ('L', ())); E.store(st, a[0], ('L', v[1] + w[1])); return UNIT
    if cx.name == 'Vec::extend_from_slice':
        w = strip(E, st, a[1])
        if w[0] == 'L' and v[0] == 'L': E.store(st, a[0], ('L', v[1] + w[1])); return UNIT
        raise Undecided('extend_from_slice')
    if v[0] != 'L': return None
    st.frames.append(PF('vec_extend', a[0]))
    return drain(E, itarg(E, st, a[1]), 'extend', ('L', ()))


@model('slice::len', 'Vec::len', 'String::len', 'str::len', 'BTreeMap::len', 'array::len', 'BTreeSet::len', 'HashSet::len', 'HashMap::len')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] == 'A' and v[1] == 'BTreeMap': return I(len(v[3][0][1]))
    return E.length(v)
@model('slice::is_empty', 'Vec::is_empty', 'String::is_empty', 'str::is_empty', 'BTreeMap::is_empty', 'BTreeSet::is_empty', 'HashSet::is_empty', 'HashMap::is_empty')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] == 'A' and v[1] == 'BTreeMap': return mkbool(not v[3][0][1])
    if v[0] == 'L': return mkbool(not v[1])
    if v[0] == 'S': return mkbool(v[1] == '')
    return E.cmp('Eq', E.length(v), I(0), 'usize')
@model('slice::first', 'slice::last')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] != 'L' and v[0] == 'X' and v[1] == 'bytes' and E.dom is not None and hasattr(E.dom, 'end_byte'): return E.dom.end_byte(E, st, v[2][0], cx.name.endswith('first'))
    if v[0] != 'L': raise Undecided('first of symbolic slice')
    if not v[1]: return NONE
    return Some(('R', v[1][0 if cx.name.endswith('first') else -1]))
@model('slice::split_first', 'slice::split_last')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] != 'L': raise Undecided('split_first of symbolic slice')
    if not v[1]: return NONE
    if cx.name.endswith('first'): return Some(('T', (('R', v[1][0]), ('R', ('L', v[1][1:])))))
    return Some(('T', (('R', v[1][-1]), ('R', ('L', v[1][:-1])))))
@model('slice::contains')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] != 'L': raise Undecided('contains on symbolic slice')
    r = FALSE
    for x in v[1]: r = E.or_(r, eq_val(E, st, x, a[1]))
    return r
@model('slice::get')
def _(E, st, a, cx):
    v = strip(E, st, a[0]); i = a[1]
    if v[0] == 'L':
        if i[0] == 'I': return Some(('R', v[1][i[1]])) if i[1] < len(v[1]) else NONE
        if is_sym(i): return Fork(E.cmp('Lt', i, I(len(v[1])), 'usize'), lambda s: Some(('R', X('idx', v, i))), lambda s: NONE)
        if i[0] == 'A':
            lo, hi = bounds(i, len(v[1]))
            if lo is not None: return Some(('R', ('L', v[1][lo:hi]))) if lo <= hi <= len(v[1]) else NONE
    raise Undecided('slice get')
@model('slice::binary_search_by_key', 'slice::binary_search_by', 'slice::binary_search', 'slice::partition_point')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] != 'L': raise Undecided('binary search on symbolic slice')
    if E.dom is not None and hasattr(E.dom, 'bsearch'):
        r = E.dom.bsearch(E, st, v, a, cx)
        if r is not None: return r
    raise Undecided('binary search')


def bounds(r, n):
    k = r[2]; f = r[3]
    if any(x[0] != 'I' for x in f[:2] if x[0] != 'B'): return None, None
    if k == 'RangeFrom': return f[0][1], n
    if k == 'RangeTo': return 0, f[0][1]
    if k == 'Range': return f[0][1], f[1][1]
    if k == 'RangeFull': return 0, n
    if k == 'RangeInclusive': return f[0][1], f[1][1] + 1
    if k == 'RangeToInclusive': return 0, f[0][1] + 1
    return None, None


@model('Index::index', 'IndexMut::index_mut', 'slice::index')
def _(E, st, a, cx):
    v = strip(E, st, a[0]); i = a[1]
    if v[0] == 'L':
        if i[0] == 'I':
            if 0 <= i[1] < len(v[1]):
                if cx.name == 'IndexMut::index_mut' and a[0][0] == 'M': return ('M', a[0][1], a[0][2], a[0][3] + (('i', i),))
                return ('R', v[1][i[1]])
            return Panic('index out of bounds at ' + where(cx))
        if i[0] == 'A':
            lo, hi = bounds(i, len(v[1]))
            if lo is not None:
                if lo <= hi <= len(v[1]): return ('R', ('L', v[1][lo:hi]))
                return Panic('slice index out of bounds at ' + where(cx))
        if is_sym(i):
            return Fork(E.cmp('Lt', i, I(len(v[1])), 'usize'), lambda s: ('R', X('idx', v, i)), lambda s: Panic('index out of bounds at ' + where(cx)))
    if v[0] == 'S' and i[0] == 'A':
        b = v[1].encode(); lo, hi = bounds(i, len(b))
        if lo is not None:
            try:
                if lo <= hi <= len(b): return ('R', ('S', b[lo:hi].decode()))
            except UnicodeDecodeError: pass
            return Panic('str index at ' + where(cx))
    if E.dom is not None and hasattr(E.dom, 'str_index'):
        r = E.dom.str_index(E, st, v, i, where(cx))
        if r is not None: return r
    if v[0] == 'A' and v[1] == 'BTreeMap':
        return btree_find(E, st, v, strip(E, st, i), lambda s, k: ('R', v[3][0][1][k][1][1]), lambda s: Panic('map index at ' + where(cx)))
    raise Undecided('index into %s' % v[0])


# ---- BTreeMap (entries as list of pairs; keys compared for equality)
def btree_find(E, st, m, key, found, absent, i=0):
    es = m[3][0][1]
    if i == len(es): return absent(st)
    return Fork(eq_val(E, st, es[i][1][0], key), lambda s: found(s, i), lambda s: btree_find(E, s, m, key, found, absent, i + 1))


def cmp3(E, st, a, b):
    """-1, 0, 1 or None for concrete values (derived orderings)"""
    a = strip(E, st, a); b = strip(E, st, b)
    if a[0] == b[0] == 'S': p, q = a[1].encode(), b[1].encode(); return (p > q) - (p < q)
    if a[0] == b[0] and a[0] in ('I', 'C', 'B', 'F'): return (a[1] > b[1]) - (a[1] < b[1])
    if a[0] == b[0] and a[0] in ('T', 'L'):
        for x, y in zip(a[1], b[1]):
            r = cmp3(E, st, x, y)
            if r is None or r: return r
        return (len(a[1]) > len(b[1])) - (len(a[1]) < len(b[1]))
    if a[0] == b[0] == 'A' and a[1] == b[1]:
        if a[2] != b[2]:
            if a[1] == OPT: return -1 if a[2] == 'None' else 1
            if a[1] == 'tinystr::asciibyte::AsciiByte': p, q = int(a[2][1:]), int(b[2][1:]); return (p > q) - (p < q)
            return None
        for x, y in zip(a[3], b[3]):
            r = cmp3(E, st, x, y)
            if r is None or r: return r
        return 0
    return None


def key_lt(a, b):
    for x in (a, b):
        if x[0] == 'A' and x[1] != OPT and not x[1].startswith(('unic_langid', 'tinystr')): raise Undecided('order of map keys')
    r = cmp3(None, None, a, b)
    if r is None: raise Undecided('order of map keys')
    return r < 0


def btree_ins(es, k, v):
    """insert keeping concrete keys in order"""
    out = list(es); pos = len(out)
    for i, e in enumerate(out):
        if key_lt(k, e[1][0]): pos = i; break
    out.insert(pos, ('T', (k, v)))
    return tuple(out)


def btree_put(E, st, m, k, v):
    es = m[3][0][1]
    for i, e in enumerate(es):
        if e[1][0] == k:
            return ('A', m[1], m[2], (('L', es[:i] + (('T', (k, v)),) + es[i + 1:]),))
    return ('A', m[1], m[2], (('L', btree_ins(es, k, v)),))


@model('BTreeMap::new')
def _(E, st, a, cx): return ('A', 'BTreeMap', 'BTreeMap', (('L', ()),))
@model('BTreeMap::insert')
def _(E, st, a, cx):
    m = E.load(st, a[0])
    if m[0] != 'A': raise Undecided('insert into symbolic map')
    def found(s, i):
        es = m[3][0][1]
        E.store(s, a[0], ('A', m[1], m[2], (('L', es[:i] + (('T', (es[i][1][0], a[2])),) + es[i + 1:]),)))
        return Some(es[i][1][1])
    def absent(s):
        E.store(s, a[0], ('A', m[1], m[2], (('L', btree_ins(m[3][0][1], a[1], a[2])),)))
        return NONE
    return btree_find(E, st, m, a[1], found, absent)
@model('BTreeMap::contains_key')
def _(E, st, a, cx):
    m = strip(E, st, a[0])
    if m[0] != 'A': raise Undecided('contains_key of symbolic map')
    return btree_find(E, st, m, strip(E, st, a[1]), lambda s, i: TRUE, lambda s: FALSE)
@model('BTreeMap::get')
def _(E, st, a, cx):
    m = strip(E, st, a[0])
    if m[0] != 'A': raise Undecided('get of symbolic map')
    return btree_find(E, st, m, strip(E, st, a[1]), lambda s, i: Some(('R', m[3][0][1][i][1][1])), lambda s: NONE)
@model('BTreeMap::remove')
def _(E, st, a, cx):
    m = E.load(st, a[0])
    if m[0] != 'A': raise Undecided('remove of symbolic map')
    def found(s, i):
        es = m[3][0][1]
        E.store(s, a[0], ('A', m[1], m[2], (('L', es[:i] + es[i + 1:]),)))
        return Some(es[i][1][1])
    return btree_find(E, st, m, strip(E, st, a[1]), found, lambda s: NONE)


# ---- strings
def str_concat(a, b):
    if a[0] == 'C': a = ('S', a[1])
    if b[0] == 'C': b = ('S', b[1])
    pa = a[2] if a[0] == 'X' and a[1] == 'cat' else (a,)
    pb = b[2] if b[0] == 'X' and b[1] == 'cat' else (b,)
    out = []
    for x in pa + pb:
        if x == ('S', ''): continue
        if out and out[-1][0] == 'S' and x[0] == 'S': out[-1] = ('S', out[-1][1] + x[1])
        else: out.append(x)
    if not out: return ('S', '')
    if len(out) == 1: return out[0]
    return X('cat', *out, ty='str')


def to_string(E, st, v):
    v = strip(E, st, v)
    if v[0] == 'C': return ('S', v[1])
    if v[0] == 'I': return ('S', str(v[1]))
    if v[0] == 'B': return ('S', 'true' if v[1] else 'false')
    return v


DISPLAY = []      # (value, type) -> text of known values of foreign types, registered by the domains


def float_text(t):
    """fold the formatting of a known float"""
    if t[0] == 'X' and t[1] in ('display', 'fmtopt') and t[2][0][0] == 'F' and t[2][1] in ('f32', 'f64') and isinstance(t[2][0][1], float):
        import evalt
        try: return ('S', evalt.Ev(None, {})(t))
        except evalt.Unk: pass
    return t


def known_display(v, ty):
    for f in DISPLAY:
        r = f(v, ty)
        if r is not None: return r
    return None


@model('ToString::to_string')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    ts = [cx.targ(i) for i in range(len(cx.ft.get('args', [])))]
    s = ts[0]['s'] if ts else ''
    if s in ('str', '&str', 'alloc::string::String', '&alloc::string::String', '&&str', 'alloc::borrow::Cow<str>', 'alloc::boxed::Box<str>'):
        return v if v[0] != 'C' else ('S', v[1])
    if v[0] in ('C', 'I', 'B'): return to_string(E, st, v)
    r = known_display(v, s)
    if r is not None: return r
    return float_text(X('display', v, s, ty='str'))
@model('String::new', 'String::with_capacity')
def _(E, st, a, cx): return ('S', '')
@model('String::push_str', 'String::push')
def _(E, st, a, cx):
    v = E.load(st, a[0]); E.store(st, a[0], str_concat(v, strip(E, st, a[1]))); return UNIT
@model('Add::add')
def _(E, st, a, cx):
    t = cx.targ(0)
    if t and t['s'] == 'alloc::string::String': return str_concat(a[0], strip(E, st, a[1]))
    if t and t['k'] in ('int', 'uint'):
        x = strip(E, st, a[0]); y = strip(E, st, a[1])
        r = E.binop('AddWithOverflow', x, y, t['s'])
        return Fork(r[1][1], lambda s: Panic('add overflow at ' + where(cx)), lambda s: r[1][0])
    return None
@model('String::as_bytes', 'str::as_bytes')
def _(E, st, a, cx):
    v = strip(E, st, a[0])
    if v[0] == 'S': return ('R', ('L', tuple(('I', b, 'u8') for b in v[1].encode())))
    if E.dom is not None and hasattr(E.dom, 'as_bytes'):
        r = E.dom.as_bytes(E, st, v)
        if r is not None: return r
    return ('R', X('bytes', v, ty='[u8]'))


def local_from_str(E, t):
    """body of the FromStr impl of a type of the analysed crates"""
    if t is None or t['k'] != 'adt': return None
    for k in ('<%s as core::str::FromStr>::from_str' % t['s'], '<%s as core::str::traits::FromStr>::from_str' % t['s']):
        if k in E.p.bodies: return k
    return None


def pat_match_char(p):
    """predicate on a concrete char for a concrete pattern, or None"""
    if p[0] == 'C': return lambda c: c == p[1]
    return None


@model('str::starts_with', 'str::ends_with', 'str::contains', 'str::find', 'str::rfind', 'str::split_once', 'str::rsplit_once', 'str::strip_prefix',
       'str::strip_suffix', 'str::trim_end_matches', 'str::trim_start_matches', 'str::trim_matches', 'str::trim', 'str::trim_start', 'str::trim_end',
       'str::trim_left', 'str::trim_right', 'str::trim_left_matches', 'str::trim_right_matches', 'str::split_at', 'str::chars', 'str::bytes', 'str::char_indices', 'str::get', 'str::split', 'str::splitn', 'str::rsplit', 'str::rsplitn', 'str::parse',
       'str::is_char_boundary', 'str::to_lowercase', 'str::to_uppercase', 'str::to_ascii_lowercase', 'str::to_ascii_uppercase', 'str::replace', 'str::replacen', 'str::repeat', 'str::lines',
       'str::matches', 'str::match_indices', 'str::split_whitespace', 'str::is_ascii', 'str::split_terminator', 'str::split_at_checked', 'str::split_inclusive', 'str::eq', 'str::ne')
def _(E, st, a, cx):
    n = cx.name.split('::')[1]
    v = strip(E, st, a[0])
    rest_ = [strip(E, st, x) if x[0] in ('R', 'M') and n not in () else x for x in a[1:]]
    if n == 'parse':
        t = None
        for i in range(len(cx.ft.get('args', []))): t = cx.targ(i)
        k = local_from_str(E, t)
        if k: return Call(('FNK', k), [('R', v)])
    if E.dom is not None:
        r = E.dom.str_method(E, st, n, v, rest_, cx)
        if r is not None: return r
    if v[0] == 'S':
        r = conc_str(E, st, n, v[1], rest_)
        if r is not None: return r
    if n == 'parse':
        t = None
        for i in range(len(cx.ft.get('args', []))): t = cx.targ(i)
        return X('parse', v, t['s'] if t else '?')
    rt = cx.dty['s'] if cx.term else None
    # results that borrow from the text
    t = X('str.' + n, v, *rest_, ty=rt)
    if rt == '&str': return ('R', X('str.' + n, v, *rest_, ty='str'))
    return t


RUST_WS = '\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'


def text_pred(E, st, p):
    """predicate on characters for a char, char-list or closure pattern; None for other patterns"""
    if p[0] == 'C': return lambda c: c == p[1]
    if p[0] == 'L' and all(x[0] == 'C' for x in p[1]): return lambda c: ('C', c) in p[1]
    if p[0] in ('CL', 'FN', 'FNK'):
        memo = {}

        def f(c):
            if c not in memo:
                S2 = Engine(E.p, E.models, dom=E.dom, hook=E.hook, ptr=E.ptr)
                st2 = St([PF('ret1', None, {})])
                r = S2.invoke_value(st2, p, [('C', c)])
                if r is None: r = S2.run(st2)
                if not (r.is_leaf and r.kind == 'ret' and r.val[0] == 'B'): raise Undecided('character predicate')
                memo[c] = r.val[1]
            return memo[c]
        return f
    return None


def text_hits(E, st, s, p, back=False):
    """non-overlapping matches of a pattern in a known text, in order of discovery; None if the pattern is unknown"""
    if any('\ue000' <= c <= '\ue0ff' for c in s):         # symbolic numbers of the parser domain
        if p[0] == 'S' and any(c.isdigit() for c in p[1]) or p[0] == 'C' and p[1].isdigit() or p[0] == 'L' and any(x[0] == 'C' and x[1].isdigit() for x in p[1]): raise Undecided('digit of a symbolic number')
    if p[0] == 'S':
        q = p[1]
        if q == '': return None
        out = []
        if not back:
            i = s.find(q)
            while i >= 0: out.append((i, i + len(q))); i = s.find(q, i + len(q))
        else:
            i = s.rfind(q)
            while i >= 0: out.append((i, i + len(q))); i = s.rfind(q, 0, i) if i else -1
        return out
    pr = text_pred(E, st, p)
    if pr is None: return None
    out = [(i, i + 1) for i, c in enumerate(s) if pr(c)]
    return out[::-1] if back else out


def conc_str(E, st, n, s, p):
    """a str method on a known text, or None"""
    S = lambda x: ('R', ('S', x))
    blen = lambda x: len(x.encode())
    lst = lambda xs: it('list', ('L', tuple(xs)), I(0))
    n = {'trim_left': 'trim_start', 'trim_right': 'trim_end', 'trim_left_matches': 'trim_start_matches', 'trim_right_matches': 'trim_end_matches'}.get(n, n)
    if n == 'trim': return S(s.strip(RUST_WS))
    if n == 'trim_start': return S(s.lstrip(RUST_WS))
    if n == 'trim_end': return S(s.rstrip(RUST_WS))
    if n == 'chars': return lst(('C', c) for c in s)
    if n == 'bytes': return lst(('I', c, 'u8') for c in s.encode())
    if n == 'char_indices': return lst(('T', (I(blen(s[:i])), ('C', c))) for i, c in enumerate(s))
    if n == 'lines': return lst(S(x[:-1] if x.endswith('\r') else x) for x in (s[:-1] if s.endswith('\n') else s).split('\n')) if s else lst(())
    if n == 'split_whitespace': return lst(S(x) for x in re.split('[%s]+' % RUST_WS, s) if x)
    if n == 'is_ascii': return mkbool(s.isascii())
    if n == 'to_uppercase': return ('S', s.upper())
    if n == 'to_lowercase': return ('S', s.lower())
    if n == 'to_ascii_uppercase': return ('S', ''.join(c.upper() if c.isascii() else c for c in s))
    if n == 'to_ascii_lowercase': return ('S', ''.join(c.lower() if c.isascii() else c for c in s))
    if n == 'repeat' and p[0][0] == 'I' and p[0][1] * len(s) < 10000: return ('S', s * p[0][1])
    if n == 'is_char_boundary' and p[0][0] == 'I':
        b = s.encode(); i = p[0][1]
        return mkbool(i <= len(b) and (i in (0, len(b)) or (b[i] & 0xC0) != 0x80))
    if n in ('split_at', 'split_at_checked') and p[0][0] == 'I':
        b = s.encode(); i = p[0][1]
        ok = i <= len(b) and (i in (0, len(b)) or (b[i] & 0xC0) != 0x80)
        if not ok: return NONE if n.endswith('checked') else Panic('split_at outside the text or inside a character')
        r = ('T', (S(b[:i].decode()), S(b[i:].decode())))
        return Some(r) if n.endswith('checked') else r
    if not p: return None
    if n in ('eq', 'ne') and p[0][0] == 'S': return mkbool((s == p[0][1]) == (n == 'eq'))
    if n in ('splitn', 'rsplitn'): k, q = p[0], p[1]
    else: k, q = None, p[0]
    if q == ('S', ''):
        if n in ('starts_with', 'ends_with', 'contains'): return TRUE
        if n in ('strip_prefix', 'strip_suffix'): return Some(S(s))
        if n == 'find': return Some(I(0))
        return None
    back = n in ('rfind', 'rsplit', 'rsplitn', 'rsplit_once', 'ends_with', 'strip_suffix', 'trim_end_matches', 'rmatches')
    hs = text_hits(E, st, s, q, back)
    if hs is None: return None
    one = hs[0] if hs else None
    if n in ('starts_with', 'strip_prefix'):
        m = next((h for h in hs if h[0] == 0), None)
        return mkbool(m is not None) if n == 'starts_with' else Some(S(s[m[1]:])) if m else NONE
    if n in ('ends_with', 'strip_suffix'):
        m = next((h for h in hs if h[1] == len(s)), None)
        return mkbool(m is not None) if n == 'ends_with' else Some(S(s[:m[0]])) if m else NONE
    if n == 'contains': return mkbool(bool(hs))
    if n in ('find', 'rfind'): return Some(I(blen(s[:one[0]]))) if one else NONE
    if n in ('split_once', 'rsplit_once'): return Some(('T', (S(s[:one[0]]), S(s[one[1]:])))) if one else NONE
    if n in ('trim_start_matches', 'trim_end_matches', 'trim_matches'):
        a, b = 0, len(s)
        if n != 'trim_end_matches':
            for h in sorted(hs):
                if h[0] == a: a = h[1]
        if n != 'trim_start_matches':
            for h in sorted(text_hits(E, st, s, q, True), reverse=True):
                if h[1] == b and h[0] >= a: b = h[0]
        return S(s[a:b])
    if n in ('split', 'splitn', 'split_terminator', 'split_inclusive'):
        if k is not None:
            if k[0] != 'I': return None
            if k[1] == 0: return lst(())
            hs = hs[:k[1] - 1]
        out = []; a = 0
        for h in hs: out.append(s[a:h[1] if n == 'split_inclusive' else h[0]]); a = h[1]
        if not (n in ('split_terminator', 'split_inclusive') and a == len(s)): out.append(s[a:])
        return lst(map(S, out))
    if n in ('rsplit', 'rsplitn'):
        if k is not None:
            if k[0] != 'I': return None
            if k[1] == 0: return lst(())
            hs = hs[:k[1] - 1]
        out = []; b = len(s)
        for h in hs: out.append(s[h[1]:b]); b = h[0]
        out.append(s[:b])
        return lst(map(S, out))
    if n == 'matches': return lst(S(s[x:y]) for x, y in hs)
    if n == 'match_indices': return lst(('T', (I(blen(s[:x])), S(s[x:y]))) for x, y in hs)
    if n == 'replace' and p[1][0] == 'S': return ('S', _sub(s, hs, p[1][1]))
    if n == 'replacen' and p[1][0] == 'S' and p[2][0] == 'I': return ('S', _sub(s, hs[:p[2][1]], p[1][1]))
    return None


def _sub(s, hs, r):
    out = ''; a = 0
    for x, y in hs: out += s[a:x] + r; a = y
    return out + s[a:]


import unicodedata
WS = set('\t\n\x0b\x0c\r \x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000') | {chr(i) for i in range(0x2000, 0x200b)}


def char_pred(n, ch, args=()):
    """std char predicates on a known character; None: not modelled"""
    asc = ord(ch) < 128
    cat = unicodedata.category(ch)
    num = cat in ('Nd', 'Nl', 'No')
    r = {'is_ascii_digit': ch in '0123456789', 'is_whitespace': ch in WS, 'is_ascii_alphabetic': asc and ch.isalpha(), 'is_alphabetic': ch.isalpha() or cat == 'Nl', 'is_numeric': num,
         'is_alphanumeric': ch.isalpha() or num, 'is_ascii_alphanumeric': asc and ch.isalnum(), 'is_ascii_whitespace': ch in '\t\n\x0c\r ', 'is_ascii': asc, 'is_control': cat == 'Cc',
         'is_ascii_control': asc and cat == 'Cc', 'is_ascii_uppercase': 'A' <= ch <= 'Z', 'is_ascii_lowercase': 'a' <= ch <= 'z', 'is_uppercase': ch.isupper(), 'is_lowercase': ch.islower(),
         'is_ascii_punctuation': asc and 32 < ord(ch) < 127 and not ch.isalnum(), 'is_ascii_graphic': 32 < ord(ch) < 127, 'is_ascii_hexdigit': ch in '0123456789abcdefABCDEF'}.get(n)
    if r is not None: return mkbool(r)
    if n in ('is_digit', 'to_digit') and args and args[0][0] == 'I':
        d = '0123456789abcdefghijklmnopqrstuvwxyz'[:args[0][1]].find(ch.lower()) if asc else -1
        if n == 'is_digit': return mkbool(d >= 0)
        return Some(('I', d, 'u32')) if d >= 0 else NONE
    return None


@model(*['char::' + x for x in ('is_ascii_digit', 'is_numeric', 'is_whitespace', 'is_alphabetic', 'is_ascii_alphabetic', 'is_digit', 'to_digit', 'is_ascii_whitespace', 'is_alphanumeric', 'is_ascii_alphanumeric', 'is_ascii',
                                'is_control', 'is_ascii_control', 'is_ascii_uppercase', 'is_ascii_lowercase', 'is_uppercase', 'is_lowercase', 'is_ascii_punctuation', 'is_ascii_graphic', 'is_ascii_hexdigit')], 'int::is_ascii_digit')
def _(E, st, a, cx):
    n = cx.name.split('::')[1]
    c = strip(E, st, a[0])
    if c[0] == 'C' and not 0xE000 <= ord(c[1]) < 0xF900:
        r = char_pred(n, c[1], a[1:])
        if r is not None: return r
    if c[0] == 'I' and n == 'is_ascii_digit': return mkbool(48 <= c[1] <= 57)
    return X('char.' + n, c, *a[1:], ty='bool' if n != 'to_digit' else None)


@model('FromStr::from_str')
def _(E, st, a, cx):
    t = cx.targ(0)
    v = strip(E, st, a[0])
    if E.dom is not None:
        r = E.dom.str_method(E, st, 'parse', v, [], cx, t['s'])
        if r is not None: return r
    return X('parse', v, t['s'])


# ---- formatting
@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_exp', 'Argument::new_upper_exp', 'Argument::new_lower_hex')
def _(E, st, a, cx):
    ts = [cx.targ(i) for i in range(len(cx.ft.get('args', [])))]
    ts = [t for t in ts if t is not None and not t['s'].startswith("'")]
    return X('fmtarg', strip(E, st, a[0]), cx.name.split('::new_')[1], ts[-1]['s'] if ts else '?')
@model('Arguments::new', 'Arguments::from_str', 'Arguments::new_const', 'Arguments::new_v1', 'Arguments::from_str_nonconst')
def _(E, st, a, cx): return X('fmtargs', *[strip(E, st, x) for x in a])


TEXTS = ('str', 'alloc::string::String', 'alloc::borrow::Cow<str>', 'alloc::boxed::Box<str>')


def fmt_pieces(v):
    """decoded template of core::fmt::Arguments: texts and (argument, flags, width, precision)"""
    if v[0] != 'X' or v[1] != 'fmtargs': return None
    if len(v[2]) == 1: return [v[2][0][1]] if v[2][0][0] == 'S' else None
    tpl, args = v[2][0], v[2][1]
    if tpl[0] != 'L' or args[0] != 'L' or any(x[0] != 'I' for x in tpl[1]): return None
    b = bytes(x[1] for x in tpl[1]); out = []; i = 0; k = 0
    le = lambda n: int.from_bytes(b[i:i + n], 'little')
    while i < len(b) and b[i]:
        n = b[i]; i += 1
        if n < 0x80: out.append(b[i:i + n].decode()); i += n
        elif n == 0x80: m = le(2); i += 2; out.append(b[i:i + m].decode()); i += m
        else:
            fl = wd = pr = None
            if n & 1: fl = le(4); i += 4
            if n & 2: wd = le(2); i += 2
            if n & 4: pr = le(2); i += 2
            if n & 8: k = le(2); i += 2
            if n & 48 or k >= len(args[1]): return None
            out.append((args[1][k], fl, wd, pr)); k += 1
    return out


def fmt_text(E, st, v):
    """text of format arguments, or None"""
    ps = fmt_pieces(v)
    if ps is None: return None
    r = ('S', '')
    for p in ps:
        if isinstance(p, str): r = str_concat(r, ('S', p)); continue
        a, fl, wd, pr = p
        if a[0] != 'X' or a[1] != 'fmtarg': return None
        x, kind, ty = a[2][0], a[2][1], a[2][2]
        ty = re.sub(r"&('\w+ )?(mut )?", '', ty)
        if (fl, wd, pr) != (None, None, None) or kind not in ('display', 'debug'):
            r = str_concat(r, float_text(X('fmtopt', x, ty, kind, str((fl, wd, pr)), ty='str'))); continue
        t = E.hook_display(st, x, ty, kind) if hasattr(E, 'hook_display') else None
        if t is None and kind == 'display':
            if ty in TEXTS or x[0] == 'S': t = x
            elif x[0] in ('C', 'I', 'B'): t = to_string(E, st, x)
            elif known_display(x, ty) is not None: t = known_display(x, ty)
            elif 'ToString::to_string' in E.models and x[0] == 'A': t = None
            else: t = float_text(X('display', x, ty, ty='str'))
        if t is None and kind == 'debug':
            if x[0] in ('I', 'B'): t = to_string(E, st, x)
            elif ty in ('f32', 'f64'): t = float_text(X('fmtopt', x, ty, kind, str((None, None, None)), ty='str'))
            elif x[0] == 'S' and all(' ' <= c <= '~' and c not in '"\\\\' for c in x[1]): t = ('S', '"%s"' % x[1])
            elif x[0] == 'A' and not x[3] and x[2] in derived_names(E, ty): t = ('S', x[2])
        if t is None: return None
        r = str_concat(r, t)
    return r


def derived_names(E, ty):
    """texts that the Debug impl of a type of the analysed crates can write"""
    b = E.p.bodies.get('<%s as core::fmt::Debug>::fmt' % ty)
    if b is None: return set()
    ts = re.findall(r'"str": "([\w ]+)"', json.dumps(b.blocks))
    if len(ts) == 1 and ' ' in ts[0]:  # the derive writes slices of one text: all names in declaration order
        ns = ts[0].split(' ')
        vs = next(([v['name'] for v in t['variants']] for t in E.p.types if t.get('s') == ty and 'variants' in t), None)
        return set(ns) if vs == ns else set()
    return set(ts)


@model('fmt::format')
def _(E, st, a, cx):
    v = a[0]
    r = fmt_text(E, st, v)
    return r if r is not None else X('format', v, ty='str')
@model('Write::write_fmt', 'String::write_fmt')
def _(E, st, a, cx):
    w = E.load(st, a[0]) if a[0][0] == 'M' else a[0]
    if w[0] == 'S' or w[0] == 'X' and w[1] in ('cat', 'display'):
        t = fmt_text(E, st, a[1])
        if t is None: raise Undecided('formatted text')
        E.store(st, a[0], str_concat(w, t)); return Ok(UNIT)
    return None
@model('Write::write_str', 'Write::write_char')
def _(E, st, a, cx):
    w = E.load(st, a[0]) if a[0][0] == 'M' else a[0]
    if w[0] == 'S' or w[0] == 'X' and w[1] in ('cat', 'display'): E.store(st, a[0], str_concat(w, strip(E, st, a[1]))); return Ok(UNIT)
    return None
@model('hint::must_use')
def _(E, st, a, cx): return a[0]


@handler
def noop(E, st, fr, val): return val


import models2  # noqa: E402,F401  (registers further models)
