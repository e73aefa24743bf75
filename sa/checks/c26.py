"""no unsafe code in the workspace"""
import lib

CRATES = ('rusty_chromaprint', 'fpcalc', 'compare')


def run(ck):
    ck.rule = ('effect query over the HIR and the item table of every workspace crate: no unsafe block, unsafe function, unsafe impl, extern block, '
               'global asm, static mut or exported symbol in user-written code')
    ck.trusted = ['rustc HIR (user-provided unsafe blocks)', 'rustc item signatures']
    for c in CRATES:
        r = lib.raw(c)
        bad = 0
        for what, path, span in r['unsafe']:
            ck.bad('%s/%s@%s' % (c, what, path), '%s in %s (%s)' % (what, path, span))
            bad += 1
        fns = [i for i in r['items'] if i['kind'] in ('Fn', 'AssocFn', 'Closure')]
        for i in r['items']:
            if i['safety'] == 'Unsafe':
                ck.bad('%s/unsafe fn@%s' % (c, i['path']), 'unsafe function %s' % i['path'])
                bad += 1
        local = [x for x in r['instances'] if x['crate'] == c and x.get('body')]
        ck.scope[c] = {'items': len(r['items']), 'instances with MIR': len(local)}
        if len(r['items']) == 0 or not local:
            ck.bad(c + '/floor', 'no items analysed')
        if not bad:
            ck.ok(c, '%d items, no unsafe construct' % len(r['items']))
