"""Shared plumbing of the checks: dump management, reports, evidence, known findings."""
import os, sys, json, hashlib, subprocess, fcntl, time, shutil, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PR_REPO', '/repo')
THOROUGH = os.environ.get('VERIF_TIER', 'quick') == 'thorough'
BUILD = os.environ.get('PR_BUILD', os.path.join(VERIF, '.build'))
VARIANT = os.environ.get('PR_VARIANT', '')      # 'rel': built without debug assertions
CRATES = ('intl_pluralrules', 'cldr_pluralrules_parser', 'make_pluralrules')


class CheckError(Exception): pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0: raise CheckError('command failed: %s\n%s' % (cmd, r.stdout[-4000:]))
    return r.stdout


def tree_files():
    out = []
    for root, ds, fs in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in ('.git', 'target'))
        for f in sorted(fs):
            p = os.path.join(root, f)
            if not os.path.islink(p): out.append(p)
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in tree_files():
        h.update(os.path.relpath(p, REPO).encode() + b'\0')
        h.update(hashlib.sha256(open(p, 'rb').read()).digest())
    for p in sorted(glob.glob(os.path.join(VERIF, 'driver', 'src', '*.rs'))): h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


def build_driver():
    d = os.path.join(VERIF, 'driver')
    tgt = os.path.join(BUILD, 'driver')
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true')
    env.pop('RUSTC_WORKSPACE_WRAPPER', None); env.pop('RUSTFLAGS', None)
    exe = os.path.join(tgt, 'release', 'mirdump')
    srcs = glob.glob(os.path.join(d, 'src', '*.rs'))
    stamp = hashlib.sha256(b''.join(open(s, 'rb').read() for s in sorted(srcs))).hexdigest()
    sf = os.path.join(tgt, 'stamp')
    if os.path.exists(exe) and os.path.exists(sf) and open(sf).read() == stamp: return exe
    os.makedirs(tgt, exist_ok=True)
    sh(['cargo', '+nightly', 'build', '--offline', '--release'], cwd=d, env=env)
    open(sf, 'w').write(stamp)
    return exe


def ensure_dump():
    """MIR dump of the three crates for the current /repo tree; returns the directory"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        out = os.path.join(BUILD, 'dumps', h + VARIANT)
        if os.path.exists(os.path.join(out, 'done')): return out
        exe = build_driver()
        for old in glob.glob(os.path.join(BUILD, 'dumps', '*')):
            if not os.path.basename(old).startswith(h) or old == out: shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(BUILD, 'target' + VARIANT)
        for c in CRATES:
            for f in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', c.replace('_', '[_-]') + '-*')) + [os.path.join(tgt, 'debug', 'build', c)]: shutil.rmtree(f, ignore_errors=True)
        sysroot = sh(['rustc', '+nightly', '--print', 'sysroot']).strip()
        env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true', RUSTC_WORKSPACE_WRAPPER=exe, MIRDUMP_OUT=out,
                   LD_LIBRARY_PATH=os.path.join(sysroot, 'lib'))
        env.pop('RUSTFLAGS', None)
        sh(['cargo', '+nightly', 'check', '--offline', '--workspace', '--lib', '--bins'] + (['--config', 'profile.dev.debug-assertions=false', '--config', 'profile.dev.overflow-checks=true'] if VARIANT else []), cwd=REPO, env=env)
        for c in CRATES:
            if not os.path.exists(os.path.join(out, c + '.json')): raise CheckError('no MIR dumped for crate ' + c)
        open(os.path.join(out, 'done'), 'w').write(h)
        return out


def profile_dependent():
    """does some source of the three crates depend on whether debug assertions are on?"""
    for c in CRATES:
        for root, _, fs in os.walk(os.path.join(REPO, c, 'src')):
            for f in fs:
                if f.endswith('.rs') and b'debug_assert' in open(os.path.join(root, f), 'rb').read(): return True
    return False


def other_profile(rep, prop):
    """repeat the analysis on the program built without debug assertions"""
    ev = os.path.join(BUILD, 'evrel'); os.makedirs(ev, exist_ok=True)
    for f in glob.glob(os.path.join(ev, prop + '*.json')): os.remove(f)
    r = subprocess.run([sys.executable, os.path.join(VERIF, 'analysis', 'check.py'), prop], env=dict(os.environ, PR_VARIANT='rel', VERIF_EV=ev), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    vf = os.path.join(ev, prop + '-violation.json')
    if r.returncode == 1 and os.path.exists(vf):
        for v in json.load(open(vf))['violations']:
            rep.bad(); rep.violation(v['what'] + ' (in builds without debug assertions)', v.get('where', ''))
    elif r.returncode: rep.undecided('the program built without debug assertions could not be analysed: ' + r.stdout.strip()[-200:])
    else:
        d = json.load(open(os.path.join(ev, prop + '.json')))
        rep.ok(); rep.cov['without_debug_assertions'] = {k: d['coverage'].get(k) for k in ('obligations', 'discharged')}
        for u in d['coverage'].get('undecided', []): rep.undecided(u + ' (in builds without debug assertions)')


class Report:
    def __init__(self, prop, level):
        self.prop = prop; self.level = level; self.t0 = time.time()
        self.viol = []; self.und = []; self.known_hits = []; self.cov = {}; self.assumptions = []; self.samples = []
        self.obl = 0; self.dis = 0; self.notes = []
        self.kf = [k for k in load_known()['known'] if k['property'] == prop]

    def violation(self, what, where='', **detail):
        v = {'what': what, 'where': where}; v.update(detail)
        if v not in self.viol: self.viol.append(v)

    def undecided(self, what):
        if what not in self.und: self.und.append(what)

    def known(self, kid, what):
        if (kid, what) not in self.known_hits: self.known_hits.append((kid, what))

    def ok(self, n=1): self.obl += n; self.dis += n

    def bad(self, n=1): self.obl += n

    def open(self, what):
        """an obligation that could not be decided"""
        self.obl += 1; self.undecided(what)

    def absorb(self, o):
        self.viol += [v for v in o.viol if v not in self.viol]
        for u in o.und: self.undecided(u)
        self.obl += o.obl; self.dis += o.dis

    def finish(self):
        tier = os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        ev = os.environ.get('VERIF_EV') or os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
        cov = dict(self.cov)
        cov['obligations'] = self.obl; cov['discharged'] = self.dis
        if self.samples: cov['samples'] = self.samples[:12]
        cov['undecided'] = self.und[:40]
        cov['known_findings_confirmed'] = [w for _, w in self.known_hits]
        for k in glob.glob(os.path.join(ev, self.prop + '-violation*.json')): os.remove(k)
        d = {'property': self.prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': self.level, 'coverage': cov,
             'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(self.viol)}
        json.dump(d, open(os.path.join(ev, self.prop + '.json'), 'w'), indent=1, default=str)
        for kid, w in self.known_hits[:60]: print('KNOWN-FINDING: property=%s %s' % (self.prop, w))
        for u in self.und[:20]: print('UNDECIDED property=%s %s' % (self.prop, u))
        if self.viol:
            rp = os.path.join(ev, self.prop + '-violation.json')
            json.dump({'property': self.prop, 'violations': self.viol}, open(rp, 'w'), indent=1, default=str)
            for v in self.viol[:10]: print('%s: %s' % (v['where'] or self.prop, v['what']))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if self.dis == 0: print('%s: NOTHING DECIDED: the analysis could not follow this program; see the undecided entries of the evidence' % self.prop); return 0
        print('%s: held; %d obligations, %d discharged, %d undecided, %d known findings; %.1f s' % (self.prop, self.obl, self.dis, len(self.und), len(self.known_hits), time.time() - self.t0))
        return 0


_kf = None


def load_known():
    global _kf
    if _kf is None:
        _kf = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    return _kf
