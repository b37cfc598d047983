"""Effect analyses over the MIR of whole crates: C12 (run-time purity), C24 (no unsafe operations), helpers for C17/C23."""
import os, re, json
import common
from engine import Prog, norm_path

EFFECT = [
    (r'^std::env::', 'reads the environment'), (r'^std::time::|SystemTime|Instant::now', 'reads a clock'), (r'^std::fs::|^std::os::', 'touches files or the operating system'),
    (r'^std::net::', 'uses the network'), (r'^std::process::', 'uses processes'), (r'^std::thread::(?!local::LocalKey|LocalKey)', 'uses threads'),
    (r'^std::io::stdio::|^std::io::(stdin|stdout|stderr|_print|_eprint)|_e?print$', 'does console input/output'),
    (r'RandomState::new|^std::hash::random|^rand::|^getrandom::|fastrand', 'draws a random hash seed or number'),
    (r'::expose_provenance$|ptr::<impl \*(const|mut) T>::addr$', 'depends on an address'), (r'^std::backtrace', 'reads a backtrace'), (r'^core::panic::[Ll]ocation.*::caller$', 'depends on the position of its caller'),
    (r'^std::alloc::set_alloc|^std::panic::set_hook', 'changes global state'), (r'^core::fmt::pointer_fmt_inner|Argument.*::new_pointer', 'prints an address'),
]
HASHED = re.compile(r'^(&(mut )?)?(std::collections::(hash::(map|set)::)?Hash(Map|Set)|hashbrown::)')
INTERIOR = re.compile(r'(core|std|alloc)::(cell::|sync::(atomic|mutex|rwlock|once|Mutex|RwLock|Once|poison|reentrant|mpsc)|lazy)|Atomic(U|I|Bool|Ptr)|::Mutex<|::RwLock<|OnceLock|LazyLock|OnceCell|LazyCell|RefCell|once_cell::|lazy_static|parking_lot')
LAZY = re.compile(r'(LazyLock|LazyCell|Lazy)<')
ONCE = re.compile(r'(OnceLock|OnceCell)<')


def load(name): return Prog(os.path.join(common.ensure_dump(), name + '.json'))


def local_bodies(p): return [b for b in p.bodies.values() if b.local]


def calls(p, b):
    """(terminator, callee type) of a body"""
    for bl in b.blocks:
        if bl and bl['t']['t'] == 'call':
            yield bl['t'], p.types[bl['t']['ft']]


def operands(b):
    def walk(x):
        if isinstance(x, dict):
            if x.get('o') == 'c': yield x
            else:
                for v in x.values(): yield from walk(v)
        elif isinstance(x, list):
            for v in x: yield from walk(v)
    for bl in b.blocks:
        if bl: yield from walk(bl['s']); yield from walk(bl['t'])


def statics_in(p, v, out, seen=None):
    if isinstance(v, dict):
        if 'static' in v: out.add(v['static'])
        if 'named' in v and (seen is None or v['named'] not in seen):
            seen = (seen or set()) | {v['named']}
            e = p.consts.get(v['named'])
            if e: statics_in(p, e['v'], out, seen)
        for x in v.values(): statics_in(p, x, out, seen)
    elif isinstance(v, list):
        for x in v: statics_in(p, x, out, seen)


def type_text(p, tid, depth=0, seen=None):
    """type strings reachable through fields and arguments"""
    seen = seen if seen is not None else set()
    if tid in seen or depth > 6: return
    seen.add(tid)
    t = p.types[tid]
    yield t['s']
    for k in ('t',):
        if isinstance(t.get(k), int): yield from type_text(p, t[k], depth + 1, seen)
    for k in ('ts', 'args'):
        for x in t.get(k, []) or []:
            if isinstance(x, int): yield from type_text(p, x, depth + 1, seen)
    if t.get('k') == 'adt' and t['path'].split('::')[0] in common.CRATES:
        for v in t['variants']:
            for f in v['fields']: yield from type_text(p, f['t'], depth + 1, seen)


def origins(p, b, x, seen=frozenset()):
    """what an operand or place of a body is computed from: ('static', path), ('arg',), ('phi',), ('elem',), ('const',)"""
    if x.get('o') == 'c':
        ss = set(); statics_in(p, x, ss)
        return {('static', s) for s in ss} or {('const',)}
    l, proj = x['p']
    out = set()
    if any(e[0] in ('i', 'ci', 'sub') for e in proj): out.add(('elem',))
    if l in seen: return out
    defs = []
    for bl in b.blocks:
        for st in (bl or {}).get('s', []):
            if st.get('p') and st['p'][0] == l: defs.append(('s', st['rv']))
        if bl and bl['t']['t'] == 'call' and bl['t']['dst'][0] == l: defs.append(('c', bl['t']))
    if 1 <= l <= b.j['argc']: out.add(('arg',))
    if len(defs) > 1: out.add(('phi',))
    seen = seen | {l}

    def walk(v):
        if isinstance(v, dict):
            if v.get('o') in ('c', 'cp', 'mv'): yield v
            elif 'r' in v and isinstance(v.get('p'), list): yield v
            else:
                for y in v.values(): yield from walk(y)
        elif isinstance(v, list):
            for y in v: yield from walk(y)
    for k, d in defs:
        for y in walk(d if k == 's' else d['args']): out |= origins(p, b, y, seen)
    return out


def once_cell(p, path, users):
    """is a OnceLock/OnceCell static always initialised to the same value? 'ok', 'bad' or 'undecided'"""
    inits = {}; unsure = False
    for u in users:
        b = p.bodies[u]
        for t, ft in calls(p, b):
            if ft['k'] != 'fndef' or not re.search(r'Once(Lock|Cell)', ft.get('path', '')): continue
            m = ft['path'].rsplit('::', 1)[-1]
            if m in ('new', 'get'): continue
            rec = origins(p, b, t['args'][0]) if t['args'] else set()
            cells = {o[1] for o in rec if o[0] == 'static'}
            if cells and path not in cells: continue
            if m not in ('get_or_init', 'get_or_try_init'): return 'bad'
            sure = cells == {path} and ('elem',) not in rec
            f = next((p.types[x] for x in ft.get('args', []) if p.types[x]['k'] in ('closure', 'fndef')), None)
            if f is None: unsure = True; continue
            if f['k'] == 'fndef': inits[f['path']] = None; continue
            if f['up']:
                dep = origins(p, b, t['args'][1]) if len(t['args']) > 1 else {('arg',)}
                if dep & {('arg',), ('phi',), ('elem',)}:
                    if sure: return 'bad'
                    unsure = True; continue
            cb = p.bodies.get(f['key'])
            inits[f['key']] = json.dumps(cb.blocks, sort_keys=True) if cb else f['key']
    if len(set(v if v else k for k, v in inits.items())) > 1:
        ts = [re.sub(r'"sp": "[^"]*"', '', v) if v else k for k, v in inits.items()]
        if len(set(ts)) > 1: return 'bad'
    return 'undecided' if unsure else 'ok'


def effects(p, rep, what, allow=()):
    """effectful calls and shared mutable statics of all local bodies; returns list of (where, text)"""
    out = []; nb = nc = 0
    acc = {}
    for b in local_bodies(p):
        nb += 1
        for t, ft in calls(p, b):
            nc += 1
            if ft['k'] != 'fndef': continue
            names = {ft['path'], ft.get('rpath') or ft['path']}
            for rx, msg in EFFECT:
                if any(re.search(rx, n) for n in names) and not any(a in b.key for a in allow):
                    out.append((t['sp'], '%s %s: calls %s' % (b.key, msg, ft.get('rpath') or ft['path'])))
                    break
        for o in operands(b):
            ss = set(); statics_in(p, o, ss)
            for s in ss: acc.setdefault(s, set()).add(b.key)
        for bl in b.blocks:
            for s in (bl or {}).get('s', []):
                r = s.get('rv')
                if r and r.get('r') == 'tls': acc.setdefault(r['path'], set()).add(b.key)
                if r and r.get('r') == 'cast' and 'ExposeProvenance' in str(r.get('k')): out.append((b.span, '%s depends on an address (pointer cast to an integer)' % b.key))
    for path, users in sorted(acc.items()):
        sd = p.statics.get(path)
        if sd is None:
            if path.split('::')[0] in common.CRATES: rep.undecided('static %s of another analysed crate' % path)
            continue
        ts = p.types[sd['t']]['s']
        mutable = sd['mut'] or not sd['freeze'] or sd['tls'] or any(INTERIOR.search(x) for x in type_text(p, sd['t']))
        if not mutable: continue
        users = sorted(users)
        if not sd['mut'] and not sd['tls'] and LAZY.search(ts): continue    # initialised once by a fixed initialiser, which is itself analysed
        if not sd['mut'] and not sd['tls'] and ONCE.search(ts):
            verdict = once_cell(p, path, users)
            if verdict == 'ok': continue
            if verdict == 'undecided': rep.undecided('static %s: initialised with values that may depend on which cell it is' % path); continue
        out.append((sd['span'], 'shared mutable state: static %s: %s is used by %s' % (path, ts, ', '.join(users[:3]))))
    return out, nb, nc


def hash_iteration(p):
    """calls that iterate over a randomly seeded hash collection"""
    out = []
    for b in local_bodies(p):
        for t, ft in calls(p, b):
            if ft['k'] != 'fndef': continue
            m = ft['path'].rsplit('::', 1)[-1]
            if m not in ('iter', 'keys', 'values', 'into_iter', 'iter_mut', 'values_mut', 'drain', 'into_keys', 'into_values', 'retain', 'union', 'intersection', 'difference', 'fmt', 'for_each'): continue
            a0 = p.types[ft['args'][0]]['s'] if ft.get('args') else ''
            if HASHED.match(a0) or re.search(r'Hash(Map|Set)::<?', ft['path']): out.append((t['sp'], '%s iterates over a hash collection (%s)' % (b.key, ft.get('rpath') or ft['path'])))
    return out


def c12(rep):
    p = load('intl_pluralrules')
    out, nb, nc = effects(p, rep, 'run-time library')
    out += hash_iteration(p)
    for w, t in out: rep.bad(); rep.violation(t, w)
    rep.ok(nb)
    want = ['PluralRules', 'PluralOperands', 'PluralCategory', 'PluralRuleType']
    types = {a['path'].rsplit('::', 1)[-1]: a for a in p.d['adts']}
    for n in want:
        a = types.get(n)
        if a is None: raise common.CheckError('public type %s not found' % n)
        if not a['send']: rep.bad(); rep.violation('%s can no longer be sent to other threads (not Send)' % n, a['span'])
        else: rep.ok()
        if not a['sync']: rep.bad(); rep.violation('%s can no longer be shared between threads (not Sync)' % n, a['span'])
        else: rep.ok()
        im = [x for x in type_text(p, a['t']) if INTERIOR.search(x)]
        if im or not a['freeze']: rep.bad(); rep.violation('%s holds interior-mutable state (%s), so calls can influence later calls' % (n, im[0] if im else 'not Freeze'), a['span'])
        else: rep.ok()
    if nb < 5: raise common.CheckError('too few bodies analysed')
    rep.samples.append({'types': [{'type': n, 'send': types[n]['send'], 'sync': types[n]['sync']} for n in want]})
    rep.cov.update({'functions': nb, 'call_sites': nc, 'statics': len(p.statics), 'explanation': 'every call site of every function and closure of the crate against a list of effectful library paths; every static that is mutable, thread local or interior-mutable and used; interior mutability, Send and Sync of the public types as decided by rustc; pointer-to-integer casts.'})


def compile_time_only(p):
    """paths of the private const functions that no run-time body calls or refers to"""
    cand = {f['path'] for f in p.d['fns'] if f['const'] and not f['pub'] and not f['impl_trait']}
    if not cand: return set()
    known = {f['path'] for f in p.d['fns']}
    owner = lambda b: re.sub(r'(::\{closure#\d+\})+$', '', b.j['path'])
    refs = {}
    for b in local_bodies(p):
        o = owner(b)
        if o not in known: continue          # initialisers of constants and statics
        r = refs.setdefault(o, set())
        for t, ft in calls(p, b): r.add(ft.get('path'))
        for x in operands(b):
            t = p.types[x['t']] if isinstance(x.get('t'), int) else None
            if t and t.get('path'): r.add(t['path'])
    live = set(refs) - cand; todo = list(live)
    while todo:
        for c in refs.get(todo.pop(), ()):
            if c in cand and c not in live: live.add(c); todo.append(c)
    return cand - live


def c24(rep):
    nb = nc = 0
    for c in ('intl_pluralrules', 'cldr_pluralrules_parser', 'make_pluralrules', 'make_pluralrules-bin'):
        p = load(c)
        ct = compile_time_only(p)
        for u in p.d['unsafe']:
            if u['fn'] in ct: continue
            rep.bad(); rep.violation('%s performs an unsafe operation at run time: %s' % (u['fn'], u['what']), u['span'])
        for b in local_bodies(p):
            nb += 1; rep.ok()
            cs = list(calls(p, b)); nc += len(cs)
            o = re.sub(r'(::\{closure#\d+\})+$', '', b.j['path'])
            if o not in ct and (b.j['closure'] or any(f['path'] == o for f in p.d['fns'])):
                for t, ft in cs:
                    if re.match(r'(unic_langid|tinystr)\w*::', ft.get('path') or '') and 'unchecked' in ft['path'].rsplit('::', 1)[1]:
                        rep.bad(); rep.violation('%s constructs an identifier unchecked at run time: calls %s' % (b.key, ft['path']), t.get('span') or b.j['span'])
            ss = set()
            for o in operands(b): statics_in(p, o, ss)
            for s in ss:
                sd = p.statics.get(s)
                if sd and sd['mut']: rep.bad(); rep.violation('%s uses the mutable static %s' % (b.key, s), sd['span'])
    # the compile-time constants
    from rt import wellformed, LI, id_str, RT
    from engine import subterms
    p = load('intl_pluralrules'); nl = 0; seen = set()
    for k in list(p.consts) + ['static ' + s for s in p.statics]:
        if k.startswith('static '):
            sd = p.statics[k[7:]]
            if sd['v'] is None: continue
            v = p.const_value(sd['v'], sd['t']); sp = sd['span']
        else: v = p.const_value({'named': k}, p.consts[k]['t']); sp = p.consts[k].get('span', k)
        for s in subterms(v):
            if s[0] == 'A' and s[1] == LI and s not in seen:
                seen.add(s); nl += 1
                w = wellformed(s)
                if w: rep.bad(); rep.violation('compile-time locale constant %s is malformed: %s' % (id_str(s), w), sp)
                else: rep.ok()
    if nl < 10: rep.undecided('only %d compile-time locale constants found' % nl)
    rep.cov.update({'functions': nb, 'call_sites': nc, 'locale_constants': nl, 'explanation': 'every unsafe block and unsafe function body of the three crates (HIR) with the unsafe operations inside it (MIR: calls of unsafe functions, raw pointer dereferences, union accesses, inline assembly) except those of std macros; uses of mutable statics; subtags of every compile-time locale constant.'})
