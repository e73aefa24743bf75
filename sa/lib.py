"""Common runner: dump of the current tree, obligations, verdicts, evidence."""
import gc, hashlib, json, os, subprocess, sys, threading, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, os.path.join(HERE, 'sa'))


def tree_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git', 'data'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock')):
                files.append(os.path.join(root, f))
    drv = os.path.join(HERE, 'driver', 'main.rs')
    for f in files + [drv]:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:24], len(files)


def build_driver():
    drv = os.path.join(BUILD, 'sa-driver')
    src = os.path.join(HERE, 'driver', 'main.rs')
    if os.path.exists(drv) and os.path.getmtime(drv) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()
    env = dict(os.environ, LD_LIBRARY_PATH=sysroot + '/lib')
    subprocess.check_call(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', drv + '.tmp%d' % os.getpid()], env=env, stderr=subprocess.DEVNULL)
    os.rename(drv + '.tmp%d' % os.getpid(), drv)


def dump():
    """directory holding the MIR dump of the current working tree"""
    build_driver()
    h, n = tree_hash()
    out = os.path.join(BUILD, 'dump', h)
    if os.path.exists(os.path.join(out, 'done')):
        return out
    import fcntl
    os.makedirs(os.path.join(BUILD, 'dump'), exist_ok=True)
    with open(os.path.join(BUILD, 'dump.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, 'done')):
            return out
        # keep the cache small
        dd = os.path.join(BUILD, 'dump')
        old = sorted((os.path.getmtime(os.path.join(dd, x)), x) for x in os.listdir(dd))
        for _, x in old[:-12]:
            for f in os.listdir(os.path.join(dd, x)):
                os.unlink(os.path.join(dd, x, f))
            os.rmdir(os.path.join(dd, x))
        r = subprocess.run(['bash', os.path.join(HERE, 'sa', 'dump.sh'), out], capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[-4000:])
            raise SystemExit('cannot compile the tree under the MIR driver')
        for c in ('rusty_chromaprint', 'fpcalc', 'compare'):
            if not os.path.exists(os.path.join(out, c + '.json')):
                raise SystemExit('no MIR dump for crate ' + c)
        open(os.path.join(out, 'done'), 'w').close()
    return out


_progs = {}


def program(crate='rusty_chromaprint'):
    if crate not in _progs:
        from eng.interp import Program
        _progs[crate] = Program(os.path.join(dump(), crate + '.json'))
    return _progs[crate]


def raw(crate):
    k = ('raw', crate)
    if k not in _progs:
        with open(os.path.join(dump(), crate + '.json')) as f:
            _progs[k] = json.load(f)
    return _progs[k]


class TimeUp(BaseException):
    """raised in the analysis thread by the watchdog of run.py when an obligation group exceeds its time or the process its memory"""


class Anchor(Exception):
    """a public entry point the property is stated about is gone"""


class Check:
    def __init__(self, pid):
        self.id = pid
        self.obs = []            # (key, verdict, detail)
        self.keys = {}
        self.t0 = time.time()
        self.scope = {}
        self.rule = ''
        self.trusted = []
        self.assumptions = []
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.budget = 700 if not self.thorough else 3000
        self.limit = 150 if not self.thorough else 900   # seconds for one group of obligations
        self.deadlines = []
        self.thread = threading.get_ident()

    def left(self):
        return self.budget - (time.time() - self.t0)

    def _add(self, key, verdict, detail):
        self.obs.append((key, verdict, detail))

    def ok(self, key, detail=''):
        self._add(key, 'proven', detail)

    def bad(self, key, detail):
        self._add(key, 'violated', detail)

    def unk(self, key, detail=''):
        self._add(key, 'undetermined', detail)

    def decide(self, key, v, detail=''):
        """v: True / False / None"""
        (self.ok if v is True else self.bad if v is False else self.unk)(key, detail)

    def guard(self, key, f, *a):
        """run an obligation group; an analysis that gives up leaves it undetermined"""
        if self.left() < 1:
            self.unk(key, 'skipped: the time budget is used up')
            return None
        try:
            top = not self.deadlines
            self.deadlines.append(self.t0 + self.budget if top else min(time.time() + self.limit, self.deadlines[0]))
            t = time.time()
            try:
                return f(*a)
            finally:
                self.deadlines.pop()
                if os.environ.get("SA_TIMES") and len(self.deadlines) <= 1:
                    print('  %6.1f s  %s' % (time.time() - t, key), file=sys.stderr)
        except TimeUp:
            self.unk(key, 'analysis exceeded its time or memory limit')
            gc.collect()
            if self.rss() > 7 << 30:
                self.budget = 0
        except Anchor as e:
            self.bad(key + '/anchor', 'public entry point missing: %s' % e)
        except (KeyboardInterrupt, SystemExit):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            last = tb[-1]
            self.unk(key, 'analysis gave up: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], os.path.basename(last.filename), last.lineno))
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
        return None

    def watch(self):
        """called periodically by the watchdog: is the innermost group over its limits?"""
        d = self.deadlines[-1:]
        if not d:
            return False
        if time.time() > d[0]:
            return True
        return self.rss() > 9 << 30

    def rss(self):
        try:
            with open('/proc/self/statm') as f:
                return int(f.read().split()[1]) * 4096
        except OSError:
            return 0

    def finish(self):
        self.deadlines = []
        known = {}
        kf = os.path.join(HERE, 'known_findings.txt')
        if os.path.exists(kf):
            for l in open(kf):
                l = l.strip()
                if l.startswith('known: '):
                    head, _, text = l[7:].partition(' | ')
                    d = dict(x.split('=', 1) for x in head.split())
                    if d.get('property') == self.id:
                        known[d['key']] = text
        cnt = {'proven': 0, 'violated': 0, 'undetermined': 0}
        viol, kn = {}, {}
        for k, v, d in self.obs:
            if v == 'violated' and k in known:
                kn.setdefault(k, d)
            elif v == 'violated':
                viol.setdefault(k, d)
                cnt[v] += 1
                continue
            if v != 'violated':
                cnt[v] += 1
        for k, d in sorted(kn.items()):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.id, k, known[k]))
        rp = None
        if viol:
            os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
            rp = os.path.join(BUILD, 'replay', self.id + '.txt')
            with open(rp, 'w') as f:
                f.write('property %s\nrule: %s\n' % (self.id, self.rule))
                for k, d in sorted(viol.items()):
                    f.write('violated obligation %s\n    %s\n' % (k, d))
        for k, d in sorted(viol.items())[:20]:
            print('  violated: %s -- %s' % (k, str(d)[:600]))
        und = [(k, d) for k, v, d in self.obs if v == 'undetermined']
        for k, d in und[:30]:
            print('  undetermined: %s -- %s' % (k, str(d)[:300]))
        samples = []
        seen = set()
        for k, v, d in self.obs:
            g = k.split('/')[0]
            if g not in seen or len(samples) < 8:
                seen.add(g)
                if len(samples) < 40:
                    samples.append({'obligation': k, 'verdict': v, 'detail': str(d)[:300]})
        ev = {
            'property': self.id, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': getattr(self, 'level', 'other'),
            'coverage': {
                'explanation': 'Static analysis of the MIR of the current tree. Rule: ' + self.rule,
                'obligations': len(self.obs), 'discharged': cnt['proven'],
                'undetermined': cnt['undetermined'], 'known_findings': len(kn),
                'distinct_obligation_keys': len(set(k for k, _, _ in self.obs)),
                'checker_cmd': 'python3 sa/run.py ' + self.id,
                'trusted_base': self.trusted or ['rustc nightly MIR', 'sa/eng transfer functions for core/alloc', 'reference tables in sa/checks'],
                'analysed': self.scope,
                'samples': samples,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(viol),
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d proven, %d undetermined, %d known, %d violated, %.1fs' % (
            self.id, len(self.obs), cnt['proven'], cnt['undetermined'], len(kn), len(viol), time.time() - self.t0))
        if viol:
            print('VIOLATION property=%s replay=%s' % (self.id, rp))
            return 1
        return 0
