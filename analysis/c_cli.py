"""C22: ordering and completeness of the file operations of the command-line generator.

`main` is interpreted over its MIR with an event trace: every file operation is
an event that forks into success and failure, `generate_rs` forks into a
returned text and an abort.  The rule is decided on the trace of every path."""
import os
import common
from engine import *
import models
import strdom
from models import strip, branch, UNIT

OUT = V('output-path', 'str')
CODE = V('generated-code', 'str')


def inp(i): return V('input-path-%d' % i, 'str')
def text(p): return X('contents', p, ty='str')


class Dom:
    def __init__(self): self.n = 0
    def decide(self, E, st, atom): return None
    def range(self, E, v): return None
    def str_method(self, E, st, *a): return None


IOERR = X('io_error')
SAME = {'as_bytes', 'into_bytes', 'as_str', 'deref', 'as_ref', 'borrow', 'to_string', 'clone', 'to_owned', 'into', 'from', 'into_boxed_str', 'as_slice', 'to_vec', 'as_path', 'as_os_str', 'to_path_buf',
        'into_string', 'as_mut', 'deref_mut', 'leak', 'into_os_string', 'new', 'to_str', 'as_mut_str', 'cloned', 'copied', 'trim_end_matches_none'}


class Cli:
    def __init__(self):
        import c_eff
        self.p = c_eff.load('make_pluralrules-bin')
        ks = [k for k in self.p.bodies if k.endswith('::main') and self.p.bodies[k].local]
        if not ks: raise common.CheckError('main of the generator binary not found')
        self.key = min(ks, key=len); self.steps = self.ops = 0; self.visited = set()

    def run(self, n, code=CODE):
        self.n = n; self.code = code
        E = Engine(self.p, models.M, Dom() if code == CODE else strdom.StrDom({}), hook=self.hook, max_steps=60000, max_leaves=4000)
        r = E.run_fn(self.key, [])
        self.visited |= E.visited; self.E = E; self.ops += E.calls_seen
        return r

    def ev(self, st, *e): st.trace = st.trace + (e,)

    def io(self, st, tag, key, ok, where):
        """fork on the outcome of an I/O operation; ok: st -> value"""
        atom = X('io_ok', ('S', tag), key, ('I', len(st.trace), 'usize'), ty='bool')

        def good(s): return Ok(ok(s))

        def bad(s):
            self.ev(s, 'fail', tag, key, where); return Err(IOERR)
        return Fork(atom, good, bad)

    def hook(self, E, st, ft, a, term):
        p = strip_generics(ft['path']).replace('::::', '::')
        last = p.rsplit('::', 1)[-1]
        crate = ft.get('crate') or p.split('::')[0]
        w = term['sp'] if term else self.key
        S = lambda v: strip(E, st, v)
        isref = term is not None and E.p.types[term['dt']]['k'] == 'ref'
        out = lambda v: ('R', v) if isref else v
        # ---- argument parsing
        if p.startswith('clap::'):
            if 'ArgMatches' in p:
                nm = S(a[1]) if len(a) > 1 else None
                if nm is None or nm[0] != 'S': raise Undecided('argument name')
                isin = nm[1].startswith('in'); isout = nm[1].startswith('out')
                if last in ('values_of', 'values_of_os', 'values_of_lossy') and isin:
                    l = ('L', tuple(('R', inp(i)) for i in range(self.n)))
                    return Some(l if last.endswith('lossy') else models.into_iter(E, st, l))
                if last in ('value_of', 'value_of_os', 'value_of_lossy') and isin: return Some(('R', inp(0)))
                if last in ('value_of', 'value_of_os', 'value_of_lossy') and isout: return Some(('R', OUT))
                if last == 'is_present': return TRUE if isin or isout else V('flag ' + nm[1], 'bool')
                if last == 'occurrences_of' and isin: return ('I', self.n, 'u64')
                if last in ('value_of', 'value_of_os', 'value_of_lossy'): return V('option ' + nm[1])
                raise Undecided('clap ' + last)
            return ('A', 'clap', 'clap', ())
        # ---- the generator
        if p in ('make_pluralrules::generate_rs',):
            l = S(a[0])
            self.ev(st, 'gen', l, w)

            def good(s):
                self.ev(s, 'generated', l, w)
                t = E.p.types[term['dt']]
                return Ok(self.code) if t['k'] == 'adt' and t['path'] == RES else self.code

            def bad(s):
                t = E.p.types[term['dt']]
                self.ev(s, 'fail', 'generate', UNIT, w)
                if t['k'] == 'adt' and t['path'] == RES: return Err(X('gen_error'))
                return Panic('generate_rs aborts')
            return Fork(V('generation succeeds', 'bool'), good, bad)
        if crate == 'make_pluralrules' and not (ft.get('key') in E.p.bodies): raise Undecided('call of %s' % p)
        # ---- reading
        if p == 'std::fs::read_to_string' or p == 'std::fs::read':
            q = S(a[0])
            return self.io(st, 'read', q, lambda s: (self.ev(s, 'read', q, w), text(q))[1], w)
        if p == 'std::fs::File::open':
            q = S(a[0])
            return self.io(st, 'open-read', q, lambda s: ('A', 'file', 'file', (q, ('S', 'r'))), w)
        if last in ('read_to_string', 'read_to_end') and len(a) == 2:
            f = S(a[0])
            while f[0] == 'A' and f[1] == 'bufr': f = f[3][0]
            if f[0] == 'A' and f[1] == 'file':
                m = a[1]

                def rd(s):
                    self.ev(s, 'read', f[3][0], w); E.store(s, m, text(f[3][0])); return X('len', text(f[3][0]), ty='usize')
                return self.io(st, 'read', f[3][0], rd, w)
            raise Undecided('read')
        if p.endswith('io::read_to_string') or last == 'from_reader': raise Undecided(p)
        if p.endswith('BufReader::new'): return ('A', 'bufr', 'bufr', (S(a[0]),))
        if last == 'from_utf8' or last == 'from_utf8_lossy' and a:
            v = S(a[0])
            if v == self.code or v[0] == 'X' and v[1] == 'contents': return Ok(v) if last == 'from_utf8' else v
        # ---- writing
        if p == 'std::fs::File::create' or p == 'std::fs::File::create_new':
            q = S(a[0])

            def mk(s):
                self.ev(s, 'create', q, w); return ('A', 'file', 'file', (q, ('S', 'w')))
            return self.io(st, 'create', q, mk, w)
        if 'OpenOptions' in p:
            if last == 'new' or p.endswith('File::options'): return ('A', 'oo', 'oo', ())
            if last == 'open':
                o = S(a[0]); q = S(a[1]); fl = {x[1] for x in o[3]}

                def op(s):
                    if 'create_new' in fl or 'truncate' in fl: self.ev(s, 'create', q, w)
                    elif 'append' in fl or 'write' in fl: self.ev(s, 'append' if 'append' in fl else 'overwrite', q, w)
                    else: return ('A', 'file', 'file', (q, ('S', 'r')))
                    return ('A', 'file', 'file', (q, ('S', 'w')))
                return self.io(st, 'open', q, op, w)
            m = a[0]
            while m[0] == 'M' and E.load(st, m)[0] == 'M': m = E.load(st, m)
            o = E.load(st, m) if m[0] == 'M' else S(m)
            if o[0] != 'A' or o[1] != 'oo': raise Undecided(p)
            v = a[1] if len(a) > 1 else TRUE
            if v[0] == 'B':
                fl = [x for x in o[3] if x[1] != last] + ([('S', last)] if v[1] else [])
                if m[0] == 'M': E.store(st, m, ('A', 'oo', 'oo', tuple(fl)))
                return a[0]
            if last in ('mode',): return a[0]
            raise Undecided(p)
        if p == 'std::fs::File::options': return ('A', 'oo', 'oo', ())
        if p == 'std::fs::write':
            q = S(a[0]); d = S(a[1])
            atom = X('io_ok', ('S', 'write'), q, ('I', len(st.trace), 'usize'), ty='bool')

            def good(s):
                self.ev(s, 'create', q, w); self.ev(s, 'write', q, d, w); return Ok(UNIT)

            def bad(s):
                self.ev(s, 'create', q, w); self.ev(s, 'fail', 'write', q, w); return Err(IOERR)
            return Fork(atom, good, bad)
        if 'BufWriter' in p or 'LineWriter' in p:
            if last == 'new' or last == 'with_capacity': return ('A', 'bufw', 'bufw', (a[-1],))
            if last in ('get_mut', 'get_ref'): raise Undecided(p)
            if last == 'into_inner':
                f = S(S(a[0])[3][0])
                return self.io(st, 'flush', f[3][0], lambda s: (self.ev(s, 'flush', f[3][0], w), f)[1], w)
        if (p.endswith('io::write::Write::' + last) or p.endswith('io::Write::' + last) or 'std::fs::File' in p) and last in ('write_all', 'write', 'write_fmt', 'flush', 'sync_all', 'sync_data', 'set_len'):
            f = S(a[0]); buf = False
            while f[0] == 'A' and f[1] == 'bufw': buf = True; f = S(f[3][0])
            if not (f[0] == 'A' and f[1] == 'file'):
                if f[0] == 'A' and f[1] == 'stdio': return Ok(UNIT)
                raise Undecided('write to %s' % show(f)[:40])
            q = f[3][0]
            if last in ('flush', 'sync_all', 'sync_data'): return self.io(st, 'flush', q, lambda s: (self.ev(s, 'flush', q, w), UNIT)[1], w)
            if last == 'set_len':
                if a[1] == ('I', 0, 'u64'): return self.io(st, 'set_len', q, lambda s: (self.ev(s, 'create', q, w), UNIT)[1], w)
                raise Undecided('set_len')
            d = S(a[1])
            if last == 'write_fmt': d = fmt_data(d)
            kind = 'write' if last != 'write' else 'write1'

            def wr(s):
                self.ev(s, ('b' if buf else '') + kind, q, d, w)
                return UNIT if last != 'write' else X('written', q, ('I', len(s.trace), 'usize'), ty='usize')
            return self.io(st, 'write', q, wr, w)
        if p in ('std::fs::rename', 'std::fs::copy', 'std::fs::hard_link'):
            x, y = S(a[0]), S(a[1])
            return self.io(st, last, y, lambda s: (self.ev(s, last, x, y, w), UNIT if last != 'copy' else X('copied', ty='u64'))[1], w)
        if p in ('std::fs::remove_file', 'std::fs::remove_dir_all'):
            q = S(a[0])
            return self.io(st, 'remove', q, lambda s: (self.ev(s, 'remove', q, w), UNIT)[1], w)
        if p in ('std::fs::create_dir_all', 'std::fs::create_dir'):
            return self.io(st, 'mkdir', S(a[0]), lambda s: UNIT, w)
        # ---- the formatter
        if 'process::Command' in p:
            if last == 'new': return ('A', 'cmd', 'cmd', (S(a[0]),))
            if last in ('output', 'status', 'spawn'):
                c = S(a[0])
                return self.io(st, 'command', c, lambda s: (self.ev(s, 'command', c, w), X('command_result', c, ty=last))[1], w)
            if last in ('arg', 'args'):
                m = a[0]
                while m[0] == 'M' and E.load(st, m)[0] == 'M': m = E.load(st, m)
                c = E.load(st, m) if m[0] == 'M' else S(m)
                v = S(a[1])
                if m[0] == 'M': E.store(st, m, ('A', 'cmd', 'cmd', c[3] + (v,)))
                return a[0]
            return a[0]
        if p in ('std::process::exit', 'std::process::abort'): return Exit(a[0] if last == 'exit' else I(134, 'i32'))
        if p.endswith('io::stdio::_print') or p.endswith('io::stdio::_eprint'): return UNIT
        if p.endswith('io::stdout') or p.endswith('io::stderr') or 'io::stdio::Std' in p: return ('A', 'stdio', 'stdio', ())
        # ---- texts and paths carried through conversions
        if last in SAME and len(a) == 1:
            v = S(a[0])
            if v == self.code or v == OUT or v[0] == 'X' and v[1] == 'contents' or v[0] == 'V' and v[1].startswith('input-path'):
                r = out(v)
                if last == 'to_str': r = Some(('R', v))
                return r
        if last == 'drop' and p.endswith('mem::drop'):
            self.ev(st, 'drop', w); return UNIT
        if last in ('chunks', 'chunks_exact', 'rchunks') and len(a) == 2:
            v, k = S(a[0]), S(a[1])
            if v[0] == 'S' and k[0] == 'I' and k[1] > 0 and v[1].isascii() and last != 'rchunks':
                ps = [v[1][i:i + k[1]] for i in range(0, len(v[1]), k[1])]
                if last == 'chunks_exact' and ps and len(ps[-1]) < k[1]: ps.pop()
                return models.into_iter(E, st, ('L', tuple(('R', ('S', x)) for x in ps)))
        if last == 'split_at' and len(a) == 2:
            v, k = S(a[0]), S(a[1])
            if v[0] == 'S' and k[0] == 'I' and v[1].isascii() and 0 <= k[1] <= len(v[1]): return ('T', (('R', ('S', v[1][:k[1]])), ('R', ('S', v[1][k[1]:]))))
        return None


def fmt_data(d):
    t = models.fmt_text(None, None, d)
    return t if t is not None else X('formatted', d)


WRITES = ('create', 'append', 'overwrite', 'write', 'write1', 'bwrite', 'bwrite1', 'remove')


def touches(e):
    """path an event writes"""
    if e[0] in WRITES: return e[1]
    if e[0] in ('rename', 'copy', 'hard_link'): return e[2]
    return None


def content(tr, q, code=CODE):
    """abstract content of file q after the events: 'complete', 'untouched', or a reason it is not complete; None if unknown"""
    files = {}
    for e in tr:
        k = e[0]
        if k == 'create': files[e[1]] = ('empty', e[-1])
        elif k in ('append', 'overwrite'):
            files[e[1]] = ('stale', 'is %s without truncating it, so that old content remains' % ('appended to' if k == 'append' else 'overwritten'), e[-1])
        elif k in ('write', 'bwrite', 'write1', 'bwrite1'):
            old = files.get(e[1]); d = e[2]
            if d[0] == 'S' and d[1] == '': continue
            if old is None: files[e[1]] = ('unknown', e[-1]); continue
            if old[0] in ('stale', 'short'): continue
            if k.endswith('1') and (d == code or d[0] == 'S'): files[e[1]] = ('short', 'is written with `write`, which may store only a part of the code', e[-1]); continue
            have = {'empty': '', 'complete': code, 'pending': code}.get(old[0], old[3] if old[0] == 'partial' else None)
            if d == code and have == '': new = code
            elif d == code and have == code: files[e[1]] = ('twice', 'receives the code twice', e[-1]); continue
            elif code[0] == 'S' and d[0] == 'S' and have is not None: new = ('S', (have[1] if have else '') + d[1])
            else: files[e[1]] = ('unknown', e[-1]); continue
            if new == code: files[e[1]] = ('complete', e[-1]) if k == 'write' and not (old[0] == 'partial' and old[4]) else ('pending', 'is written through a buffer that is only flushed on drop, where errors are lost', e[-1])
            else: files[e[1]] = ('partial', 'does not hold exactly the generated code (%d of %d bytes match)' % (len(os.path.commonprefix([new[1], code[1]])), len(code[1])), e[-1], new, k == 'bwrite')
        elif k == 'flush':
            if files.get(e[1], ('',))[0] == 'pending': files[e[1]] = ('complete', e[-1])
        elif k in ('rename', 'copy', 'hard_link'):
            files[e[2]] = files.get(e[1], ('unknown', e[-1]))
            if k == 'rename': files[e[1]] = ('gone', 'is moved away', e[-1])
        elif k == 'remove': files[e[1]] = ('gone', 'is removed', e[-1])
    return files.get(q, ('untouched',))


def judge(cli, path, lf, n):
    """-> ('ok',) | ('bad', text, where) | ('und', text)"""
    tr = lf.trace
    gen_at = next((i for i, e in enumerate(tr) if e[0] == 'generated'), None)
    pre = tr if gen_at is None else tr[:gen_at]
    for e in pre:
        if touches(e) == OUT:
            return ('bad', 'the output file is %s before the code has been generated, so a failed generation destroys it' % {'create': 'created or truncated', 'remove': 'removed'}.get(e[0], 'written'), e[-1])
    if lf.kind == 'undecided': return ('und', lf.val)
    fails = [e for e in tr if e[0] == 'fail']
    success = lf.kind == 'ret' and (lf.val == UNIT or lf.val[0] == 'A' and lf.val[2] == 'Ok') or lf.kind == 'exit' and lf.val[0] == 'I' and lf.val[1] == 0
    failure = lf.kind == 'panic' or lf.kind == 'ret' and lf.val[0] == 'A' and lf.val[2] == 'Err' or lf.kind == 'exit' and lf.val[0] == 'I' and lf.val[1] != 0
    for e in fails:
        if e[1] == 'generate' and any(touches(x) == OUT for x in tr): return ('bad', 'the output file is written although generation failed', e[-1])
        if e[1] in ('read', 'open-read') and e[2] != OUT and any(touches(x) == OUT for x in tr): return ('bad', 'the output file is written although the input %s could not be read' % show(e[2]), e[-1])
    if failure: return ('ok',)
    if not success: return ('und', 'exit status %s' % (show(lf.val) if lf.val else lf.kind)) if lf.kind != 'unreachable' else ('ok',)
    for e in fails:
        if e[1] == 'generate': return ('bad', 'a failed generation is reported as success', e[-1])
        if e[1] in ('read', 'open-read') and e[2] != OUT: return ('bad', 'an input that cannot be read is ignored', e[-1])
        if e[1] in ('create', 'open', 'write', 'flush', 'rename', 'copy', 'set_len'):
            c = content(tr, OUT, cli.code)
            if c[0] != 'complete': return ('bad', 'an I/O error of the operation `%s` on the output is not reported: the program succeeds' % e[1], e[-1])
    if gen_at is None: return ('und', 'success without generation') if any(not str(a).startswith('io') and a[0] == 'V' for a, _ in path) else ('bad', 'the program succeeds without generating code', cli.key)
    l = tr[gen_at][1]
    if l[0] != 'L': return ('und', 'inputs of generate_rs: %s' % show(l)[:80])
    got = [strip(cli.E, St([], {}, ()), x) if x[0] != 'M' else x for x in l[1]]
    want = [text(inp(i)) for i in range(n)]
    if any(g[0] != 'X' or g[1] != 'contents' for g in got): return ('und', 'inputs of generate_rs: %s' % show(l)[:80])
    if sorted(map(repr, got)) != sorted(map(repr, want)):
        miss = [w for w in want if w not in got]
        if miss: return ('bad', '%s is not passed to the generator' % show(miss[0]), tr[gen_at][-1])
        return ('bad', 'the generator receives an input more than once', tr[gen_at][-1])
    c = content(tr, OUT, cli.code)
    if c[0] == 'complete': return ('ok',)
    if c[0] == 'unknown':
        ws = [e for e in tr if e[0] in ('write', 'bwrite', 'write1') and e[1] == OUT]
        fmt = lambda t: t[0] == 'X' and t[1] == 'command_result'
        if ws and mentions(ws[-1][2], fmt) and not any(mentions(a, fmt) for a, _ in path):
            return ('bad', 'the output file receives whatever the formatter printed, also when the formatter failed', ws[-1][-1])
        return ('und', 'data written to the output')
    others = [a for a, o in path if mentions(a, lambda t: t[0] == 'V' and (t[1].startswith('flag') and t[1] != 'flag ugly' or t[1].startswith('option'))) or mentions(a, lambda t: t == text(OUT)) or mentions(a, lambda t: t[0] == 'X' and t[1] == 'written') or mentions(a, lambda t: t[0] == 'X' and str(t[1]).startswith('call?'))]
    if others:
        if c[0] == 'untouched' and any(o and a[0] == 'X' and a[1] == 'Eq' and set(a[2]) == {text(OUT), cli.code} for a, o in path): return ('ok',)
        return ('und', 'content of the output under %s' % show(others[0])[:80])
    if c[0] in ('untouched', 'empty'): return ('bad', 'the program succeeds without writing the generated code to the output file', c[1] if len(c) > 1 else cli.key)
    return ('bad', 'the output file ' + c[1], c[2])


LINE = 'use super :: operands :: PluralOperands ; pub const CLDR_VERSION : usize = 37 ; '
SAMPLES = [('S', (LINE * (k // len(LINE) + 1))[:k - 1] + '}') for k in (77, 8192, 70001, 1300003)]


def c22(rep):
    cli = Cli(); np = 0; events = {}
    for n in (1, 2, 3, 4, 6, 9, 17):
        for code in [CODE] + SAMPLES * (n == 1):
            if code != CODE and not opened: break
            dag = cli.run(n, code)
            if code == CODE: opened = []
            for path, lf in leaves(dag):
                np += 1
                for e in lf.trace: events[e[0]] = events.get(e[0], 0) + 1
                r = judge(cli, path, lf, n)
                if r[0] == 'ok': rep.ok()
                elif r[0] == 'und':
                    if code == CODE: opened.append(r[1])
                    rep.open('%d input(s): %s' % (n, r[1]))
                else: rep.bad(); rep.violation(r[1] + ('' if code == CODE else ' (generated code of %d bytes)' % len(code[1])), r[2], path=show_path(path)[:400], inputs=n)
                if len(rep.samples) < 12: rep.samples.append({'inputs': n, 'path': show_path(path)[:200], 'events': [e[0] for e in lf.trace], 'outcome': lf.kind})
    if not np: raise common.CheckError('no path of main analysed')
    if rep.dis + len(rep.viol) == 0: rep.undecided('no path of main could be analysed: %s' % (rep.und[:1] if hasattr(rep, 'und') else ''))
    rep.cov.update({'functions': sorted(cli.visited), 'paths': np, 'call_sites': cli.ops, 'events': events,
                    'explanation': 'main of the generator binary interpreted over MIR with one to seventeen inputs; each file operation is an event with a success and a failure branch, generate_rs returns or aborts. On every path: no event on the output path precedes a successful generation over the contents of all inputs; success implies a complete write to a new or truncated file; a failed operation on the output implies a failing exit.'})
