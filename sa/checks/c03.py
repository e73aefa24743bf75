"""determinism and isolation: effect analysis of everything reachable from the library"""
import lib

AMBIENT = ('std::time::Instant', 'std::time::SystemTime', 'std::env::', 'std::fs::', 'std::net::', 'std::process::', 'std::thread::', 'std::random::', 'std::os::', 'std::io::stdin', 'std::io::stdio',
           'std::io::Stdin')
KEYED = ('std::hash::RandomState', 'std::hash::random', 'std::collections::hash_map::RandomState')
PURE_STD = ('core::', 'alloc::', 'std::intrinsics', 'std::fmt', 'std::alloc', 'std::option', 'std::result', 'std::rt', 'std::panicking', 'std::vec', 'std::ptr',
            'std::slice', 'std::ops', 'std::cmp', 'std::convert', 'std::clone', 'std::iter', 'std::num', 'std::str', 'std::string', 'std::boxed', 'std::f64', 'std::f32',
            'std::mem', 'std::collections::VecDeque', 'std::collections::BTree', 'std::collections::BinaryHeap', 'std::borrow', 'std::array', 'std::char', 'std::error', 'std::default', 'std::hash::Hash', 'std::any')
ORDER = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'into_keys', 'into_values', 'drain', 'retain', 'next')
LOCKS = ('std::sync::Mutex', 'std::sync::RwLock', 'std::cell::Cell', 'std::cell::RefCell', 'std::cell::UnsafeCell', 'std::sync::mpsc', 'std::sync::Condvar', 'std::thread::LocalKey')
ATOMIC = 'std::sync::atomic::Atomic'
ONCE = ('std::sync::OnceLock', 'std::cell::OnceCell', 'std::sync::Once', 'std::sync::LazyLock', 'std::cell::LazyCell')


def run(ck):
    ck.rule = ('effect analysis over the call graph rooted at every function of the library: no static or thread-local state with interior mutability '
               'that is written after initialisation or initialised from arguments, no call to time, environment, thread, process, file or random sources, '
               'no iteration over hash tables, no pointer-to-integer conversion, no shared interior mutability inside the instances')
    ck.assumptions = ['rustfft, rubato and the allocator are deterministic', 'CPU feature dispatch inside rustfft is constant on a machine']
    ck.trusted = ['rustc MIR', 'classification of std paths in this file']
    r = lib.raw('rusty_chromaprint')
    inst, ty = r['instances'], r['types']
    local = [x for x in inst if x['crate'] == 'rusty_chromaprint' and x.get('body')]
    ck.scope.update({'local functions with MIR': len(local), 'instances reachable': len(inst), 'types': len(ty), 'statics': len(r['statics'])})
    if len(local) < 20:
        ck.bad('floor', 'only %d local functions analysed' % len(local))
    statics(ck, r)
    calls(ck, r)
    casts(ck, r, local)
    shared(ck, r)


def reach(r, t, stop=()):
    """names of all types reachable through fields and generic arguments"""
    ty = r['types']
    seen, work = set(), [t]
    while work:
        k = work.pop()
        if k is None or k in seen or ty[k] is None:
            continue
        seen.add(k)
        x = ty[k]
        for key in ('elem', 'inner', 'pointee', 'to', 't'):
            if isinstance(x.get(key), int):
                work.append(x[key])
        for a in x.get('args') or []:
            if isinstance(a, dict) and isinstance(a.get('t'), int):
                work.append(a['t'])
        for v in x.get('variants') or []:
            for _, ft in v['fields']:
                work.append(ft)
        for e in x.get('elems') or x.get('fields') or []:
            if isinstance(e, int):
                work.append(e)
    return [ty[k] for k in seen]


def path_of(t):
    return t.get('path') or t.get('name') or ''


def statics(ck, r):
    n = 0
    for s in r['statics']:
        n += 1
        if s['crate'] != 'rusty_chromaprint':
            continue
        key = 'static/' + s['name']
        paths = [path_of(x) for x in reach(r, s['ty'])]
        if any(p.startswith(LOCKS) for p in paths) and not any(p.startswith(ONCE) for p in paths):
            if any(p.startswith('std::sync::atomic') for p in paths) and not any(p.startswith(('std::sync::Mutex', 'std::sync::RwLock', 'std::cell::RefCell', 'std::cell::Cell')) for p in paths):
                used = atomic_reads(r)
                if used:
                    ck.bad(key, 'shared atomic state %s is read in %s' % (s['name'], used[0]))
                else:
                    ck.ok(key, 'write-only counter')
            else:
                ck.bad(key, 'static %s is shared mutable state' % s['name'])
        else:
            ck.ok(key, 'no interior mutability beyond one-time initialisation')
    ck.ok('statics', '%d statics examined' % n)
    for w, path, span in r['unsafe']:
        if w == 'static mut':
            ck.bad('static/' + path, 'static mut ' + path)


def atomic_reads(r):
    """local functions that use the value of an atomic operation"""
    out = []
    for x in r['instances']:
        b = x.get('body')
        if x['crate'] != 'rusty_chromaprint' or not b:
            continue
        for stmts, term, *_ in b['blocks']:
            if term[0] == 'call':
                p = callee(r, term)
                if p and 'sync::atomic' in p and not p.endswith('::store') and not p.endswith('::new'):
                    dest = term[4][0]
                    if used_local(b, dest):
                        out.append(x['path'])
    return out


def used_local(b, l):
    n = 0

    def walk(o):
        nonlocal n
        if isinstance(o, list):
            if len(o) == 2 and o[0] in ('c', 'm') and isinstance(o[1], list) and o[1] and o[1][0] == l:
                n += 1
            if len(o) >= 3 and o[0] == 'ref' and isinstance(o[2], list) and o[2] and o[2][0] == l:
                n += 1
            for y in o:
                walk(y)
    walk(b['blocks'])
    return n > 0


def callee(r, term):
    t = r['types'][term[2]] if isinstance(term[2], int) else None
    if t and t['k'] == 'fndef':
        k = t.get('inst', t.get('body'))
        if isinstance(k, int):
            return r['instances'][k]['path']
        return t.get('path') or t['name']
    return None


def calls(ck, r):
    ext = {}
    for x in r['instances']:
        p = x['path']
        if x['crate'] == 'rusty_chromaprint':
            continue
        ext.setdefault(p, x)
        if 'fmt::Pointer' in p and '::fmt' in p and not x.get('body') and called_by_local(r, x):
            ck.bad('effect/' + p, 'addresses are formatted')
    bad = set()
    for p, x in sorted(ext.items()):
        q = p.lstrip('<')
        cs = callers(r, x)
        if q.startswith(KEYED):
            # hash tables are keyed randomly: harmless unless the keys or the iteration order get out
            if p.endswith(('::build_hasher', '::hash_one')) and called_by_local(r, x):
                bad.add(p)
                ck.bad('effect/' + p, 'randomly keyed hash used by %s' % ', '.join(cs[:4]))
            continue
        if q.startswith('std::thread') and (not cs and 'RandomState' in ''.join(ext) or cs and all(c.lstrip('<').startswith(KEYED + ('std::thread',)) for c in cs)):
            continue
        if q.startswith(AMBIENT) or any((' as ' + a) in p for a in AMBIENT) and not p.startswith('core::'):
            bad.add(p)
            ck.bad('effect/' + p, 'the library reaches %s (%s)' % (p, ', '.join(callers(r, x)[:4])))
        elif ('collections::HashMap' in p or 'collections::HashSet' in p or 'hash_map::' in p or 'hash_set::' in p or 'hashbrown::' in p) and p.rsplit('::', 1)[-1] in ORDER and (called_by_local(r, x) or p.endswith('::next')):
            bad.add(p)
            ck.bad('effect/' + p, 'iteration over a hash table: %s (%s)' % (p, ', '.join(callers(r, x)[:4])))
        elif 'std::thread::LocalKey' in p:
            bad.add(p)
            ck.bad('effect/' + p, 'thread-local state: (%s)' % ', '.join(callers(r, x)[:4]))
        elif q.startswith(ONCE) and p.endswith(('::get_or_init', '::get_or_try_init', '::call_once', '::set')):
            if p.endswith('::set') or captures(r, x):
                bad.add(p)
                ck.bad('effect/%s' % p, 'process-wide value initialised from the arguments of one call (%s)' % ', '.join(callers(r, x)[:4]))
        elif x['crate'] not in ('core', 'alloc', 'std', 'rustfft', 'rubato', 'num_complex', 'num_traits', 'hashbrown'):
            ck.unk('effect/' + p, 'call into crate %s, effects unknown' % x['crate'])
    ck.scope['external functions classified'] = len(ext)
    if not bad:
        ck.ok('effects', '%d external functions, none reads ambient state' % len(ext))


def captures(r, x):
    for a in x.get('args') or []:
        if isinstance(a, dict) and isinstance(a.get('t'), int):
            t = r['types'][a['t']]
            if t['k'] == 'closure' and t.get('upvars'):
                return True
    return False


def callers(r, x):
    k = r['instances'].index(x)
    out = []
    for y in r['instances']:
        b = y.get('body')
        if b and any(t[1][0] == 'call' and isinstance(t[1][2], int) and target(r, t[1][2]) == k for t in b['blocks']):
            out.append(y['path'])
    return out


def called_by_local(r, x):
    return any(not y.startswith(('std::', 'core::', 'alloc::', '<')) for y in callers(r, x))


def target(r, t):
    f = r['types'][t]
    if f['k'] != 'fndef':
        return None
    k = f.get('inst', f.get('body'))
    return k if isinstance(k, int) else None


def casts(ck, r, local):
    n = 0
    for x in local:
        bad = []

        def walk(o):
            nonlocal n
            if isinstance(o, list):
                if o and o[0] == 'cast' and isinstance(o[1], str):
                    n += 1
                    if o[1] in ('PointerExposeAddress', 'PointerExposeProvenance', 'FnPtrToPtr'):
                        bad.append(o[1])
                if o and o[0] == 'tls':
                    bad.append('thread local ' + str(o[1]))
                for y in o:
                    walk(y)
        walk(x['body']['blocks'])
        for b in bad:
            ck.bad('cast/%s@%s' % (b, x['path']), '%s in %s' % (b, x['path']))
    ck.ok('casts', '%d casts in %d functions: no address becomes a number' % (n, len(local)))
    for x in r['instances']:
        if x['path'].endswith('::addr') and 'ptr::' in x['path'] and any('rusty_chromaprint' in c and not c.startswith('std') for c in callers(r, x)):
            ck.bad('cast/addr', 'pointer address used as a number by %s' % callers(r, x))


def shared(ck, r):
    """Rc / Arc whose pointee has interior mutability, inside the library's own types"""
    n = 0
    for t in r['types']:
        if t and t['k'] == 'adt' and t['crate'] == 'rusty_chromaprint':
            n += 1
            for v in t['variants']:
                for fname, ft in v['fields']:
                    for y in reach_limited(r, ft):
                        p = path_of(y)
                        if p in ('std::sync::Arc', 'std::rc::Rc', 'alloc::sync::Arc', 'alloc::rc::Rc'):
                            a = [z['t'] for z in y.get('args') or [] if isinstance(z, dict) and 't' in z][:1]
                            inner = [path_of(z) for k in a for z in reach_limited(r, k)]
                            if any(q.startswith(LOCKS) or q.startswith(ATOMIC) for q in inner):
                                ck.bad('shared/%s.%s' % (t['path'], fname), 'instances may share mutable state through %s' % y['name'])
    ck.ok('shared', '%d types of the library hold no shared mutable state' % n)


def reach_limited(r, t):
    """type and its generic arguments / fields of local types, not looking into the standard containers' representation"""
    ty = r['types']
    seen, work = set(), [t]
    while work:
        k = work.pop()
        if k is None or k in seen or ty[k] is None:
            continue
        seen.add(k)
        x = ty[k]
        for a in x.get('args') or []:
            if isinstance(a, dict) and isinstance(a.get('t'), int):
                work.append(a['t'])
        if x.get('crate') == 'rusty_chromaprint' or x['k'] in ('tuple', 'array', 'ref', 'slice'):
            for key in ('elem', 'inner', 'pointee', 'to'):
                if isinstance(x.get(key), int):
                    work.append(x[key])
            for v in x.get('variants') or []:
                for _, ft in v['fields']:
                    work.append(ft)
    return [ty[k] for k in seen]
