"""every command line option has an effect"""
from clispec import *

# option -> (values to compare, [contexts of other options])
VALUES = {
    'format': ((None, opq('str', 'wav')), [dict()]),
    'rate': ((None, 8), [dict()]),
    'channels': ((None, 1), [dict()]),
    'length': ((0, 1), [dict()]),
    'chunk': ((None, 1), [dict()]),
    'algorithm': ((preset(4), preset(5)), [dict(raw=False)]),
    'overlap': ((False, True), [dict(chunk=1)]),
    'ts': ((False, True), [dict(output_format='text'), dict(output_format='json', chunk=1)]),
    'raw': ((False, True), [dict(), dict(output_format='text'), dict(output_format='plain')]),
    'signed': ((False, True), [dict(raw=True)]),
    'output_format': (('text', 'json', 'plain'), [dict()]),
    'file': ((opq('path', 'a'), opq('path', 'b')), [dict()]),
}


def run(ck):
    ck.rule = ('for each field of the parsed arguments the observable behaviour (library calls with their arguments, fingerprinter calls, printed text) extracted from fpcalc::main by abstract interpretation '
               'is compared between two values of the field, all else equal: a field that changes nothing has no effect; the length option keeps its documented default')
    ck.assumptions = ['clap stores each option in the field of its name']
    c = Cli(ck, 'fpcalc', [('buf', 6)], args=dict(BASE, algorithm=preset(2)), ok=True)
    c.main()
    fields = getattr(c, 'argfields', None)
    if not fields:
        raise Unknown('arguments are not parsed into a structure')
    ck.scope['options'] = fields
    for f in fields:
        ck.guard('option/' + f, one, ck, f, c)
    ck.guard('table', table, ck)


def observe(opts):
    r = Run(None, [('buf', 6), ('other',), ('buf', 5)], 'fpcalc', {}, **opts)
    tr = r.trace({})
    out = []
    for w, d, e in tr:
        if w in ('now', 'timestamp'):
            continue
        out.append((w, repr(sorted(d.items(), key=str))))
    for e in r.c.I.events:
        if e['kind'] == 'extern' and 'chrono' not in e['name']:
            out.append(('call', e['name'], T_full(e['args'])))
    out.append(('result', r.ok({})))
    return out


def one(ck, f, c0):
    key = 'option/' + f
    if f not in VALUES:
        ty = next(ft for n, ft in c0.argty if n == f)
        vals, ctxs = generic(c0, ty)
    else:
        vals, ctxs = VALUES[f]
    for ctx in ctxs:
        seen = []
        for v in vals:
            seen.append(observe(dict(ctx, **{f: v})))
        for i in range(len(seen)):
            for j in range(i):
                k = key if not ctx or len(ctxs) == 1 else key + '/' + ','.join('%s=%s' % x for x in sorted(ctx.items()))
                ck.decide(k, seen[i] != seen[j], '--%s %s and %s %s' % (f, short(vals[j]), short(vals[i]), 'differ in their effect' if seen[i] != seen[j] else 'behave the same: the option is parsed and ignored'))


def short(v):
    return str(v.args[0]) if isinstance(v, Opq) else str(v)


def generic(c, ty):
    n = c.p.ty[ty]
    if n['k'] == 'bool':
        return (False, True), [dict(), dict(chunk=1), dict(raw=False)]
    raise Unknown('new option of type ' + n['name'])


def table(ck):
    """names, short forms and defaults handed to clap"""
    p = lib.program('fpcalc')
    i = [k for k, x in enumerate(p.inst) if x['path'].endswith('Args>::augment_args') and x.get('body')]
    if len(i) != 1:
        raise Unknown('augment_args')
    c = Cli(ck, 'fpcalc', [], args={}, ok=True)
    from eng.model import run as go
    go(c.I, i[0], [opq('command')])
    got = {}
    cur = None
    for e in c.I.events:
        if e['kind'] != 'extern':
            continue
        nm = e['name'].rsplit('::', 1)[-1]
        if e['name'].endswith('clap::Arg::new'):
            cur = c.strval(e['args'][0])
            got[cur] = {}
        elif cur and e['name'].startswith('clap::Arg::') and nm in ('short', 'long', 'default_value'):
            a = e['args'][1]
            got[cur][nm] = chr(int(a.cval())) if nm == 'short' and isinstance(a, Poly) and a.is_const() else c.strval(a)
    ck.scope['option table'] = {str(k): str(v) for k, v in got.items()}
    docs = {'format': ('f', 'format'), 'rate': ('r', 'rate'), 'channels': ('c', 'channels'), 'length': ('l', 'length'), 'chunk': ('C', 'chunk'), 'algorithm': ('a', 'algorithm'),
            'overlap': ('o', 'overlap'), 'ts': ('T', 'ts'), 'raw': ('R', 'raw'), 'signed': ('s', 'signed'), 'output_format': ('F', 'output-format')}
    for f, (s, l) in docs.items():
        if f not in got:
            ck.unk('table/' + f, 'option not found in the parser definition')
            continue
        g = got[f]
        if any(not isinstance(g.get(k), str) for k in ('short', 'long') if k in g):
            ck.unk('table/' + f, str(g))
            continue
        ck.decide('table/' + f, (g.get('short'), g.get('long')) == (s, l), 'option %s is -%s / --%s (documented -%s / --%s)' % (f, g.get('short'), g.get('long'), s, l))
    for what in ('short', 'long'):
        names = [g[what] for g in got.values() if isinstance(g.get(what), str)]
        ck.decide('table/distinct ' + what, len(set(names)) == len(names), '%s names are distinct: %s' % (what, ' '.join(names)))
    if isinstance(got.get('output_format', {}).get('default_value'), str):
        ck.decide('table/default format', got['output_format']['default_value'] == 'text', 'the default output format is text')
    # computed defaults: closures returning the default as text
    for k, x in enumerate(c.p.inst):
        b = x.get('body')
        if b and 'Args>::augment_args::' in x['path'] and c.p.ty[b['locals'][0]]['name'] == 'std::string::String' and b['argc'] == 1:
            c = Cli(ck, 'fpcalc', [], args={}, ok=True)
            st, v = go(c.I, k, [Agg((), b['locals'][1])])
            if isinstance(v, Opq) and v.name == 'display' and isinstance(v.args[1], Poly) and v.args[1].is_const():
                ck.decide('table/default length', v.args[1].cval() == 120, 'the default length limit is 120 s: %s' % v.args[1])
