"""algorithm identifiers and configurations"""
from clispec import *


def run(ck):
    ck.rule = ('every function of fpcalc that turns a string into an Algorithm is interpreted with a symbolic parsed number: n in 0..4 must give the preset with identifier n and everything else an error; '
               'the configuration objects reaching Fingerprinter::new, the compressor, match_fingerprints and the segment accessors are tracked by identity')
    ck.assumptions = ['str::parse::<u8> succeeds exactly for decimal numbers 0 to 255']
    ck.guard('parse', parse, ck)
    for alg in range(1, 6):
        for opts in (dict(raw=False), dict(raw=False, chunk=1), dict(raw=False, chunk=1, overlap=True), dict(raw=False, output_format='text', length=1), dict(raw=False, output_format='plain')):
            ck.guard('fpcalc/preset%d' % alg, same_cfg, ck, 'fpcalc', alg, opts)
    ck.guard('compare', same_cfg, ck, 'compare', None, {})
    ck.guard('display', display, ck)


def parse(ck):
    p = lib.program('fpcalc')
    n = 0
    for i, x in enumerate(p.inst):
        b = x.get('body')
        if x['crate'] != 'fpcalc' or not b:
            continue
        rt = p.ty[b['locals'][0]]
        if not (rt['k'] == 'adt' and rt.get('path') == 'std::result::Result' and rt['name'].startswith(('std::result::Result<fpcalc::Algorithm,', 'std::result::Result<Algorithm,'))):
            continue
        sarg = [k for k in range(1, b['argc'] + 1) if p.ty[b['locals'][k]]['name'] in ('&str', "&'static str")]
        if len(sarg) != 1:
            continue
        n += 1
        key = 'parse/%s' % x['path'].split('::', 1)[-1]
        ck.guard(key, parse1, ck, i, key)
    if not n:
        # the conversion may have been inlined into the parser closures; nothing to decide then
        ck.unk('parse', 'no function from &str to Algorithm found')


def parse1(ck, i, key):
    c = Cli(ck, 'fpcalc', [], args={}, ok=True)
    x = c.p.inst[i]
    b = x['body']
    args = []
    for k in range(1, b['argc'] + 1):
        t = b['locals'][k]
        if c.p.ty[t]['name'] in ('&str', "&'static str"):
            args.append(opq('&', opq('str', 'user text')))
        else:
            args.append(Agg((), c.p.ty[t]['to'] if c.p.ty[t]['k'] == 'ref' else t))
    st, v = run_fn(c, i, args)
    if not isinstance(v, Enum):
        raise Unknown('result')
    vs = c.p.ty[v.ty]['variants']
    bad = None
    texts = [e for e in c.log if e['what'] == 'parse']
    if not texts:
        raise Unknown('no number is parsed')
    for okp in (True, False):
        for num in range(256):
            ev = Ev({'ok:parse': okp, 'parsed': num}, uf=c.ufval)
            alt = [(vs[k]['name'], f) for k, d, g, f in v.alts if ev.bdd(g)]
            if len(alt) != 1:
                raise Unknown('ambiguous result')
            name, f = alt[0]
            want = okp and num <= 4
            if want != (name == 'Ok'):
                bad = 'number %s is %s' % (num if okp else 'not parseable', 'accepted' if name == 'Ok' else 'rejected')
                break
            if want:
                cfg = c.conc(ev, f[0])
                while isinstance(cfg, tuple) and cfg[0] == 'agg' and len(cfg) == 2:
                    cfg = cfg[1]
                if not (isinstance(cfg, tuple) and cfg[0] == 'preset'):
                    raise Unknown('configuration %s' % (cfg,))
                if cfg[1] != num + 1:
                    bad = 'algorithm %d selects preset %d, whose identifier is %d' % (num, cfg[1], cfg[1] - 1)
                    break
        if bad:
            break
    ck.decide(key, not bad, bad or 'algorithm n selects the preset with identifier n (0..4), all other text is rejected (256 numbers and unparseable text)')
    for e in c.I.events:
        if e['kind'] == 'panic':
            for num in range(256):
                ev = Ev({'ok:parse': True, 'parsed': num}, uf=c.ufval)
                if ev.bdd(band(e['pc'], e['cond'])):
                    ck.bad(key + '/panic', 'panics for algorithm %d: %s' % (num, e.get('what')))
                    break


def run_fn(c, i, args):
    from eng.model import run as go
    return go(c.I, i, args)


def configs(tr):
    out = []
    for w, d, e in tr:
        if w == 'new':
            out.append(('fingerprinter', d['config'], e))
        elif w == 'compress':
            k = d['compressor']
            out.append(('compressor', k[1] if isinstance(k, tuple) and k[0] == 'compressor' else k, e))
        elif w in ('match', 'segment'):
            out.append((w, d['config'], e))
    return out


def same_cfg(ck, crate, alg, opts):
    r = Run(ck, [('buf', 6), ('buf', 5)], crate, {}, alg=alg or 1, **opts)
    key = '%s%s/%s' % (crate, '/preset%d' % alg if alg else '', r.name())

    def judge(env, tr):
        clean(tr)
        cs = configs(tr)
        for w, c, e in cs:
            if not (isinstance(c, tuple) and c[0] == 'preset'):
                raise Unknown('configuration %s' % (c,))
        want = alg if alg else (cs[0][1][1] if cs else None)
        for w, c, e in cs:
            if c[1] != want:
                return 'the %s uses the configuration of algorithm %d, the %s %s: %s' % (w, c[1] - 1, 'option selects' if alg else 'fingerprint', want - 1, at(e))
        kinds = {w for w, c, e in cs}
        if 'fingerprinter' not in kinds or (crate == 'fpcalc' and 'compressor' not in kinds) or (crate == 'compare' and not {'match', 'segment'} <= kinds):
            raise Unknown('not every use was seen: %s' % sorted(kinds))
        return None
    each(ck, r, {key: (judge, 'one configuration from computation to output')})


def display(ck):
    """the default value shown to and parsed by clap is the identifier of the default configuration"""
    c = Cli(ck, 'fpcalc', [], args={}, ok=True)
    i = c.p.find('<fpcalc::Algorithm as std::default::Default>::default')
    if len(i) != 1:
        return
    st, v = run_fn(c, i[0], [])
    cfg = c.conc(Ev({}, uf=c.ufval), v)
    while isinstance(cfg, tuple) and cfg[0] == 'agg' and len(cfg) == 2:
        cfg = cfg[1]
    ck.decide('default', True if cfg == ('preset', 2) else False if isinstance(cfg, tuple) and cfg[0] == 'preset' else None, 'without --algorithm the default preset (test2) is used: %s' % (cfg,))
