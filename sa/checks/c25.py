"""fpcalc output formats"""
from clispec import *

STD = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def run(ck):
    ck.rule = ('the text printed by fpcalc::main is extracted by abstract interpretation for every combination of the output options (format templates decoded from the constants, arguments kept as terms with '
               'symbolic fingerprint words) and compared with the documented output token by token')
    ck.assumptions = ['number formatting and base64 encoding of std / base64 follow their documentation']
    for fmt in ('text', 'json', 'plain'):
        for raw in (False, True):
            for signed in (False, True):
                for ts in (False, True):
                    for chunk, overlap in ((None, False), (1, False), (1, True)):
                        o = dict(output_format=fmt, raw=raw, signed=signed, ts=ts, chunk=chunk, overlap=overlap)
                        k = '%s%s%s%s%s' % (fmt, ' raw' if raw else '', ' signed' if signed else '', ' ts' if ts else '', '' if not chunk else ' overlap' if overlap else ' chunk')
                        ck.guard(k, one, ck, k, o)
    ck.guard('format names', names, ck)
    ck.scope['combinations'] = '3 formats x raw x signed x ts x (no chunk, chunk, overlapped chunk), symbolic words (identities), three results per chunked run'


def one(ck, key, o):
    r = Run(ck, [('buf', 6), ('buf', 5)], 'fpcalc', {}, **o)
    each(ck, r, {key: (output(r), 'the output has exactly the documented form'), key + '/panic': (lambda env, tr: r.panics(env), 'no panic')})


def output(run):
    o = run.opts

    def judge(env, tr):
        clean(tr)
        want = []                   # tokens: text or ('ts',k,value) ('dur',value) ('words',[..]) ('b64',[..])
        ch = chunks(run, env)
        # words of every chunk from the protocol events
        el = Elems()
        i = 0
        n0 = {}
        reads = [(d, e) for w, d, e in tr if w == 'fingerprint']
        nows = [d['k'] for w, d, e in tr if w == 'now']
        got = pieces(tr)
        res = []
        for w, d, e in tr:
            if w == 'finish':
                a = n0.get(d['epoch'], 0)
                b = 3 * d['n']
                if b > a:
                    f = el.get('words:%d' % d['epoch'])
                    res.append([f(x, ()) for x in range(a, b)])
                    n0[d['epoch']] = b
        if len(res) != len(ch):
            raise Unknown('results')
        for j, (ws, (k, dur, t)) in enumerate(zip(res, ch)):
            fp = []
            if o['raw']:
                for q, x in enumerate(ws):
                    if q:
                        fp.append(',')
                    fp.append(('num', (x - (1 << 32) if x >= 1 << 31 else x) if o['signed'] else x))
            else:
                fp.append(('b64', tuple(ws)))
            if o['output_format'] == 'text':
                if j:
                    want.append('\n')
                if o['ts']:
                    want += ['TIMESTAMP=', ('ts', j, t), '\n']
                want += ['DURATION=', ('dur', dur), '\nFINGERPRINT='] + fp + ['\n']
            elif o['output_format'] == 'json':
                want.append('{')
                if o['chunk']:
                    want += ['"timestamp": ', ('ts', j, t), ', ']
                want += ['"duration": ', ('dur', dur), ', "fingerprint": ', '[' if o['raw'] else '"'] + fp + [']' if o['raw'] else '"', '}\n']
            else:
                want += fp + ['\n']
        want = merge_text(want)
        if len(want) != len(got):
            for x in got:
                if not isinstance(x, str) and not hole(x):
                    raise Unknown('printed piece %s' % (x,))
        lastnow = 0
        for i in range(max(len(want), len(got))):
            w = want[i] if i < len(want) else None
            g = got[i] if i < len(got) else None
            if g is None or w is None:
                return 'the output %s %r' % ('lacks' if g is None else 'has additional', w if g is None else g)
            if isinstance(w, str) or isinstance(g, str):
                if w != g:
                    if not isinstance(g, str) and not hole(g):
                        raise Unknown('printed piece')
                    return 'prints %s where %s is documented' % (repr(g)[:80], repr(w)[:80])
                continue
            if not hole(g):
                raise Unknown('printed piece')
            trait, (fl, wd, pr), v = g[1], g[2], g[3]
            if trait not in ('new_display', 'new_debug') or wd:
                raise Unknown('formatting trait %s' % trait)
            if w[0] == 'num':
                if not isinstance(v, int):
                    raise Unknown('number')
                if v != w[1]:
                    return 'prints the word %d as %s' % (w[1] & 0xffffffff, v)
            elif w[0] == 'b64':
                bad = base64(v, w[1])
                if bad:
                    return bad
            else:
                if pr is not None and pr < 2:
                    return 'prints seconds with %d decimals' % pr
                if w[0] == 'ts' and o['ts']:
                    k = now_of(v)
                    if k is None:
                        if isinstance(v, (int, float, Fraction)):
                            return 'prints %s as the UNIX timestamp' % v
                        raise Unknown('timestamp')
                    ov = Fraction(run.model['delay'], run.model['irate']) if o['overlap'] and w[1] else 0
                    rel = (k + float(ov) - 1e6) / 1000
                    if abs(rel - round(rel)) > 1e-9:
                        return 'timestamp %d is not a clock reading%s' % (w[1], ' minus the overlap' if ov else '')
                    if round(rel) <= lastnow:
                        return 'timestamp %d does not come from a new clock reading' % w[1]
                    lastnow = round(rel)
                    continue
                if not isinstance(v, (int, float, Fraction)):
                    raise Unknown('seconds')
                if abs(float(v) - float(w[-1])) > 1e-9:
                    return 'prints %s for %s of %s s' % (float(v), 'a timestamp' if w[0] == 'ts' else 'a duration', float(w[-1]))
        return None
    return judge


def now_of(v):
    """the clock value is an uninterpreted number near 1e6 (see Cli.ufval)"""
    if isinstance(v, (int, float, Fraction)) and v > 900000:
        return float(v)
    return None


def base64(v, words):
    if not (isinstance(v, tuple) and v and v[0] == 'base64'):
        raise Unknown('not a base64 text: %s' % str(v)[:60])
    eng, data = v[1], v[2]
    if not (isinstance(data, tuple) and data[0] == 'compressed'):
        raise Unknown('data of the base64 text')
    if data[2] != list(words):
        return 'the compressed words are not those of this result'
    if isinstance(eng, tuple) and eng[0] == 'const' and 'GeneralPurpose' in str(eng[1]):
        d = str(eng[2])
        if STD.encode().hex() not in d:
            return 'the base64 alphabet is not the URL-safe one'
        pad = d[d.rindex("'adt': 0, 'f': ["):]
        if "f': [1" in pad:
            return 'the base64 text is padded'
        return None
    raise Unknown('base64 engine')


def names(ck):
    """text, json, plain select the formats"""
    c = Cli(ck, 'fpcalc', [], args={}, ok=True)
    n = 0
    for i, x in enumerate(c.p.inst):
        b = x.get('body')
        if x['crate'] != 'fpcalc' or not b or b['argc'] < 1:
            continue
        rt = c.p.ty[b['locals'][0]]
        if not rt['name'].startswith(('std::result::Result<fpcalc::OutputFormat,', 'std::result::Result<OutputFormat,')):
            continue
        for text in ('text', 'json', 'plain', 'Text', '', 'xml'):
            c = Cli(ck, 'fpcalc', [], args={}, ok=True)
            args = [opq('str', text) if c.p.ty[b['locals'][k]]['name'] == '&str' else Agg((), b['locals'][k]) for k in range(1, b['argc'] + 1)]
            from eng.model import run as go
            st, v = go(c.I, i, args)
            if not isinstance(v, Enum) or len(v.alts) != 1:
                continue
            k, d, g, f = v.alts[0]
            nm = c.p.ty[v.ty]['variants'][k]['name']
            n += 1
            if text in ('text', 'json', 'plain'):
                w = None
                if nm == 'Ok' and isinstance(f[0], Enum) and len(f[0].alts) == 1:
                    w = c.p.ty[f[0].ty]['variants'][f[0].alts[0][0]]['name'].lower()
                ck.decide('names/%s' % text, nm == 'Ok' and (w == text), 'format %s selects %s' % (text, w))
            else:
                ck.decide('names/other', nm == 'Err', 'format name %r is rejected' % text)
    if not n:
        ck.unk('names', 'format names are compared by code outside the model')
