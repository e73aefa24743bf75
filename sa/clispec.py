"""Specification side of the command line properties: what a run of the tools must look like, judged on the guarded
event lists extracted by climodel (each event: guard over the symbolic buffer sizes, data as terms)."""
import itertools, os, traceback
from fractions import Fraction
from climodel import *

BASE = dict(length=0, chunk=None, overlap=False, ts=False, raw=True, signed=False, output_format='json')


def preset(n):
    return opq('preset', C(n))


class Run:
    """one abstract run of fpcalc::main; sizes = symbol name -> max"""

    def __init__(self, ck, script, crate='fpcalc', sizes=None, ok=True, alg=4, tracks=None, model=None, **kw):
        self.opts = dict(BASE, algorithm=preset(alg))
        model = dict(model or {})
        self.opts.update(kw)
        self.model = dict(dict(rate=4, channels=2, delay=2, irate=8), **model)
        self.sizes = sizes or {}
        self.script = script
        self.ck = ck
        self.crate, self.okset, self.tracks, self.kwmodel = crate, ok, tracks, model
        self.c = None
        self.env = None

    def load(self, env=None):
        """abstract run with the buffer sizes of env; sample and word contents stay symbolic"""
        env = env or {}
        if self.c is not None and env == self.env:
            return
        sc = [(s[0], env.get(s[1], s[1])) if s[0] == 'buf' else s for s in self.script]
        self.c = Cli(self.ck, self.crate, sc, args=self.opts if self.crate == 'fpcalc' else {}, ok=self.okset, **self.kwmodel)
        self.c.tracklist = self.tracks
        self.env = env
        self.st, self.result = self.c.main()

    def trace(self, env):
        self.load({k: v for k, v in env.items() if k in self.sizes})
        return self.c.trace(env)

    def envs(self):
        names = sorted(self.sizes)
        for vs in itertools.product(*[range(self.sizes[n] + 1) for n in names]):
            yield dict(zip(names, vs))

    def frames(self, env):
        """decoded frames of the selected track as (script index, frame)"""
        out = []
        for k, s in enumerate(self.script):
            if s[0] == 'buf':
                n = s[1] if isinstance(s[1], int) else env[s[1]]
                out += [(k, i) for i in range(n)]
        return out

    def ids(self, frames):
        ch = self.model['channels']
        return [k * 1000 + i * ch + j for k, i in frames for j in range(ch)]

    def ok(self, env):
        """True when main returns Ok at env"""
        ev = Ev(dict(env), uf=self.c.ufval)
        v = self.result
        if not isinstance(v, Enum):
            raise Unknown('result')
        vs = self.c.p.ty[v.ty]['variants']
        for k, d, g, f in v.alts:
            if ev.bdd(g):
                return vs[k]['name'] == 'Ok'
        raise Unknown('result')

    def panics(self, env):
        ev = Ev(dict(env), uf=self.c.ufval)
        ev.arr = Elems()
        for e in self.c.I.events:
            if e['kind'] == 'panic':
                if ev.bdd(band(e['pc'], e['cond'])):
                    return '%s in %s at %s' % (e.get('what', 'panic'), e.get('fn', '?'), e.get('span'))
        return None

    def name(self):
        d = {k: v for k, v in self.opts.items() if BASE.get(k, 0) != v and k not in ('algorithm',)}
        return ','.join('%s=%s' % (k, v) for k, v in sorted(d.items())) or 'default'


def at(e):
    return '%s (%s)' % (e['fn'].split('::', 1)[-1], e['span'])


def pieces(tr):
    """all printed text, merged"""
    out = []
    for w, d, e in tr:
        if w == 'print':
            out += d['text']
    return merge_text(out)


def hole(x):
    return isinstance(x, tuple) and len(x) == 4 and x[0] == '{}'


def each(ck, run, judges, desc=None, envs=None):
    """judges: key -> (judge, text); judge(env, trace) -> None (holds) or text of the violation; decided for every assignment of the sizes"""
    bad, unk, n = {}, {}, 0
    for env in envs or run.envs():
        try:
            tr = run.trace(env)
        except RecursionError:
            raise
        except Exception as e:
            for key in judges:
                unk.setdefault(key, 'at %s: %s %s' % (env, type(e).__name__, str(e)[:120]))
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            continue
        n += 1
        for key, (judge, text) in judges.items():
            if key in bad:
                continue
            try:
                r = judge(env, tr)
            except (Unknown, KeyError, IndexError, TypeError, ValueError) as e:
                unk.setdefault(key, 'at %s: %s %s' % (env, type(e).__name__, str(e)[:120]))
                continue
            if r is not None:
                bad[key] = (env, r)
    for key, (judge, text) in judges.items():
        if key in bad:
            ck.bad(key, '%s: for %s (options %s) %s' % (text, bad[key][0] or 'this script', run.name(), bad[key][1]))
        elif key in unk or not n:
            ck.unk(key, '%s: %s' % (text, unk.get(key, 'no case')))
        else:
            ck.ok(key, '%s (%d cases)' % (text, n))


class Give(Exception):
    pass


def clean(tr):
    for w, d, e in tr:
        if w.startswith('printer-'):
            raise Unknown('fingerprinter call outside the protocol model: ' + w)


# ---------------------------------------------------------------- lifecycle
def protocol(run, overlap):
    sel = {k for k, s in enumerate(run.script) if s[0] == 'buf'}

    def judge(env, tr):
        clean(tr)
        for w, d, e in tr:
            if w == 'consume':
                if d['state'] not in (0, 1, 2, 3):
                    raise Unknown('state')
                if d['state'] == 0:
                    return 'samples are fed to a fingerprinter that was not started: ' + at(e)
                if d['state'] == 2 and not overlap:
                    return 'samples are fed to a finished fingerprinter without a new start: ' + at(e)
                for x in d['data']:
                    if not isinstance(x, int):
                        raise Unknown('sample identity')
                    if x >= 500000:
                        return 'the samples are not copied in interleaved order: ' + at(e)
                    if (x // 1000) % 100 not in sel:
                        return 'samples of another track or of no decoded buffer are fed: ' + at(e)
            elif w == 'foreign':
                return 'a packet of another track is decoded and used: ' + at(e)
            elif w == 'start':
                if (d['rate'], d['channels']) != (run.model['rate'], run.model['channels']):
                    return 'start(%s, %s) for a stream of rate %s and %s channels: %s' % (d['rate'], d['channels'], run.model['rate'], run.model['channels'], at(e))
            elif w == 'fingerprint':
                if d['state'] in (0, 1, 3):
                    return 'the fingerprint is read before finish: ' + at(e)
        return None
    return judge


# ---------------------------------------------------------------- sample accounting
def accounting(run):
    o, m = run.opts, run.model
    rate = m['rate']

    def judge(env, tr):
        clean(tr)
        total = run.frames(env)
        if o['length']:
            total = total[:o['length'] * rate]
        got = []
        for w, d, e in tr:
            if w == 'consume':
                got += d['data']
        for x in got:
            if not isinstance(x, int):
                raise Unknown('sample identity')
        want = run.ids(total)
        if got != want:
            k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            return 'the samples fed differ from the decoded ones from position %d: fed %d of %d (fed %s, expected %s)' % (k, len(got), len(want), got[k:k + 4], want[k:k + 4])
        return None
    return judge


def chunks(run, env):
    """[(frames, duration, start time)] printed for the stream"""
    o, m = run.opts, run.model
    rate = m['rate']
    n = len(run.frames(env))
    if o['length']:
        n = min(n, o['length'] * rate)
    L = (o['chunk'] or 0) * rate
    if not L:
        return [(n, Fraction(n, rate), Fraction(0))] if n else []
    ov = Fraction(m['delay'], m['irate']) if o['overlap'] else Fraction(0)
    extra = int(ov * rate)
    out = []
    ts = Fraction(0)
    size = L + extra
    while n:
        k = min(n, size)
        d = Fraction(k - extra, rate) + ov
        out.append((k, d, ts))
        ts += d - ov
        n -= k
        size, extra = L, 0
    return out


def printed(run):
    """durations, chunk contents and timestamps of JSON output"""
    o = run.opts

    def judge(env, tr):
        clean(tr)
        want = chunks(run, env)
        fed = 0
        epoch = None
        seen = []
        for w, d, e in tr:
            if w == 'consume':
                fed += len(d['data']) // run.model['channels']
            elif w == 'print':
                t = d['text']
                i = find_hole(t, '"duration": ')
                if i is None:
                    continue
                seen.append((fed, t[i][3], t[find_hole(t, '"timestamp": ')][3] if find_hole(t, '"timestamp": ') is not None else None, e))
                fed = 0
        if not seen and any(w == 'print' for w, d, e in tr):
            raise Unknown('no duration found in the output')
        if len(seen) != len(want):
            return '%d results are printed where the audio makes %d' % (len(seen), len(want))
        for j, ((f, dur, ts, e), (wf, wd, wt)) in enumerate(zip(seen, want)):
            if f != wf:
                return 'result %d covers %d sample frames instead of %d: %s' % (j, f, wf, at(e))
            if abs(float(dur) - float(wd)) > 1e-9:
                return 'result %d prints a duration of %s s for %s s of audio: %s' % (j, float(dur), float(wd), at(e))
            if o['chunk'] and not o['ts'] and (ts is None or abs(float(ts) - float(wt)) > 1e-9):
                return 'result %d prints the timestamp %s instead of %s: %s' % (j, ts, float(wt), at(e))
        return None
    return judge


def find_hole(t, lit):
    for i, x in enumerate(t[:-1]):
        if isinstance(x, str) and x.endswith(lit) and hole(t[i + 1]):
            return i + 1
    return None


def words_once(run):
    """raw words printed over all results = the words of the fingerprint, each once and in order"""
    def judge(env, tr):
        clean(tr)
        acc = {}
        last = {}
        cur = None
        for w, d, e in tr:
            if w == 'fingerprint':
                cur = d['epoch']
                last[cur] = 3 * d['n']
            if w == 'print':
                ws = [x[3] for x in raw_words(d['text'])]
                acc.setdefault(cur, []).extend(ws)
        el = Elems()
        for ep in last:
            f = el.get('words:%d' % ep)
            want = [f(i, ()) for i in range(last[ep])]
            if acc.get(ep, []) != want:
                return 'the words printed are not the words of the fingerprint, each once and in order: %d printed, %d computed' % (len(acc.get(ep, [])), len(want))
        return None
    return judge


def raw_words(t):
    i = None
    for k, x in enumerate(t):
        if isinstance(x, str) and x.endswith('"fingerprint": ['):
            i = k + 1
    if i is None:
        return []
    return [x for x in t[i:] if hole(x)]
