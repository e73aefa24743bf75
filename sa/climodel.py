"""Abstract runs of the command line tools: the libraries they call are boundaries with scripted contracts."""
import re
import lib
from eng.model import *
from eng import terms as T
from eng import interp as IN
from evalx import Ev, same, close, holds, verdict, Unknown
from fpmodel import Model, U32, U8, I16, leaves_differ

UNIT = Agg(())


def opq(name, *a):
    return Opq(name, tuple(a))


class Cli:
    """script: list of ('buf', frames) | ('other',) packet of another track | ('decode-error',) | ('io-error',) from decode; ends with end of stream"""

    def __init__(self, ck, crate, script, args=None, rate=4, channels=2, ok=False, delay=2, irate=8, unroll=60, nargs=3, words=None):
        self.ck = ck
        self.crate = crate
        self.p = lib.program(crate)
        for t in self.p.ty:
            if t['k'] == 'adt' and t['name'].rsplit('::', 1)[-1] in ('Configuration', 'Fingerprinter'):
                t['variants'] = None
        self.I = new_interp(self.p)
        self.I.unroll = unroll
        self.I.external = self.ext
        self.script = script
        self.argv = args or {}
        self.rate = rate
        self.ch = channels
        self.ok = ok                 # every fallible external succeeds
        self.delay, self.irate = delay, irate
        self.tracklist = None
        self.words = words or (lambda n: 3 * n)
        self.log = []                # (kind, pc, data)
        self.nargs = nargs
        self.nsegs = 2
        self.unknown_ext = set()
        self.hooks()
        if ck is not None:
            ck.scope.setdefault('functions with MIR', {})[crate] = sum(1 for x in self.p.inst if x.get('body'))

    # ---- helpers
    def tname(self, t):
        return self.p.ty[t]['name']

    def result(self, t, ok_val=None, err_val=None, good=TRUE):
        """Result / Option value of type t"""
        vs = self.p.ty[t]['variants']
        names = [v['name'] for v in vs]
        alts = []
        for i, v in enumerate(vs):
            pos = v['name'] in ('Ok', 'Some')
            g = good if pos else bnot(good)
            if g is FALSE:
                continue
            val = ok_val if pos else err_val
            alts.append((i, v['discr'], g, (val,) if v['fields'] else ()))
        return Enum(alts, t)

    def payload(self, t, pos=True):
        for v in self.p.ty[t]['variants']:
            if (v['name'] in ('Ok', 'Some')) == pos:
                return v['fields'][0][1] if v['fields'] else None

    def ev(self, kind, st, call, **kw):
        e = dict(what=kind, pc=st.pc, assume=st.assume, span=call.span, fn=call.caller.inst['path'] if call.caller else '?', **kw)
        self.log.append(e)
        return e

    def deref(self, st, v):
        for _ in range(6):
            if isinstance(v, Ref):
                w = self.I.deref_val(st, v)
                if isinstance(w, BoxV):
                    w = w.inner
                v = w
            elif isinstance(v, BoxV):
                v = v.inner
            else:
                break
        return v

    def set(self, st, ref, val):
        old = self.I.walk(st, st.mem.get(ref.obj, UNDEF), ref.path)
        if isinstance(old, BoxV):
            val = BoxV(val, old.dyn)
        self.I.write_to(st, [(TRUE, ref.obj, ref.path, None, None)], val)

    def okg(self, st, name):
        return TRUE if self.ok is True or (self.ok and name in self.ok) else bsym('ok:' + name)

    # ---- the boundary
    def ext(self, I, st, inst, args, call):
        p = inst['path']
        rt = call.retty
        last = p.rsplit('::', 1)[-1]
        if self.crate == inst['crate'] and inst.get('body'):
            return None
        if p.endswith('Parser::parse'):
            return st, self.make_args(st, rt)
        if 'anyhow' in p and p.endswith('::context') or 'anyhow' in p and p.endswith('::with_context'):
            v = args[0]
            if isinstance(v, Enum):
                src = self.p.ty[v.ty]['variants']
                g = FALSE
                val = UNDEF
                for k, d, gg, f in v.alts:
                    if src[k]['name'] in ('Ok', 'Some'):
                        g = bor(g, gg)
                        val = f[0] if f else UNIT
                return st, self.result(rt, val, opq('anyhow', args[1] if len(args) > 1 else UNIT), g)
            return None
        if p.endswith('Fingerprinter::new'):
            o = self.deref(st, args[0])
            self.ev('new', st, call, config=o)
            return st, opq('printer', I.snapshot(st, args[0]), C(0), C(0), C(0))
        if 'Fingerprinter::' in p and 'rusty_chromaprint' in p or p.startswith('rusty_chromaprint::Fingerprinter'):
            return self.printer(I, st, inst, args, call, last)
        if p.endswith('Configuration::delay'):
            return st, C(self.delay)
        if p.endswith('Configuration::sample_rate'):
            return st, C(self.irate)
        if 'FingerprintCompressor' in p and p.endswith('::from'):
            return st, Agg((args[0],), rt) if False else opq('compressor', I.snapshot(st, args[0]))
        if 'FingerprintCompressor' in p and last == 'compress':
            c = self.deref(st, args[0])
            data = self.seqof(st, args[1])
            self.ev('compress', st, call, compressor=c, data=data)
            return st, SeqV(ArrOp('compressed', (c, data), self.u8()), op('uf', ('clen', (), (c, data)), USIZE, 4, 1 << 30))
        if p.endswith('match_fingerprints'):
            a, b = self.seqof(st, args[0]), self.seqof(st, args[1])
            self.ev('match', st, call, a=a, b=b, config=I.snapshot(st, args[2]))
            ok = self.payload(call.retty)
            el = self.p.ty[ok].get('elem') or next((x['t'] for x in self.p.ty[ok].get('args', []) if 't' in x), None)
            segs = [I.build(el, IN.UfGen(I, st, 'segment', (C(i),))) for i in range(self.nsegs)]
            err = I.build(self.payload(call.retty, False), IN.UfGen(I, st, 'match error', ()))
            return st, self.result(call.retty, SeqV(ArrList(segs), C(len(segs))), err, self.okg(st, 'match'))
        if 'rusty_chromaprint' in p and 'Segment::' in p:
            seg = I.snapshot(st, args[0])
            self.ev('segment', st, call, name=last, seg=seg, config=I.snapshot(st, args[1]))
            return st, op('uf', ('segtime ' + last, (), (seg,)), I.numty(call.retty))
        if 'Configuration::preset_test' in p:
            return st, opq('preset', C(int(last[-1])))
        if p.startswith('<rusty_chromaprint::Configuration as') and last == 'default':
            return st, opq('preset', C(2))
        if p.startswith('<rusty_chromaprint::Configuration as') and last == 'clone':
            return st, self.deref(st, args[0])
        if p.endswith('Configuration::id'):
            c = self.deref(st, args[0])
            if isinstance(c, Opq) and c.name == 'preset':
                return st, c.args[0] - 1
            if isinstance(c, Gated) and all(isinstance(x, Opq) and x.name == 'preset' for g, x in c.alts):
                r = None
                for g, x in c.alts:
                    r = x.args[0] - 1 if r is None else T.ite(g, x.args[0] - 1, r)
                return st, r
            return st, op('uf', ('config id', (), (c,)), U8)
        if last == 'parse' and 'str' in p:
            v = self.deref(st, args[0])
            self.ev('parse', st, call, text=v)
            ok = self.payload(call.retty)
            if self.p.ty[ok]['k'] != 'int':
                return None
            val = I.build(ok, IN.SymGen(I, st, 'parsed'))
            err = I.build(self.payload(call.retty, False), IN.UfGen(I, st, 'parse error', ()))
            return st, self.result(call.retty, val, err, bsym('ok:parse'))
        if last in ('eq', 'ne') and len(args) == 2:
            a, b = self.see(self.deref(st, args[0])), self.see(self.deref(st, args[1]))
            if isinstance(a, Opq) and isinstance(b, Opq) and a.name == b.name == 'str' and isinstance(a.args[0], str) and isinstance(b.args[0], str):
                return st, TRUE if (a.args[0] == b.args[0]) == (last == 'eq') else FALSE
        r = self.media(I, st, inst, args, call, p, last)
        if r is not None:
            return r
        r = self.fmt(I, st, inst, args, call, p, last)
        if r is not None:
            return r
        if rt is not None and self.p.ty[rt]['k'] == 'adt' and self.p.ty[rt].get('path') in ('std::result::Result', 'std::option::Option') and self.p.ty[rt].get('variants'):
            self.ev('fallible', st, call, name=p)
        self.unknown_ext.add(p)
        return None

    def u8(self):
        for i, t in enumerate(self.p.ty):
            if t['name'] == 'u8':
                return i

    def u32(self):
        for i, t in enumerate(self.p.ty):
            if t['name'] == 'u32':
                return i

    def i16(self):
        for i, t in enumerate(self.p.ty):
            if t['name'] == 'i16':
                return i

    def seqof(self, st, v):
        from eng.natives import seq_of
        return seq_of(self.I, st, v)

    # ---- fingerprinter: (config, epoch, pieces consumed in this epoch, state 0 idle 1 started 2 finished)
    def printer(self, I, st, inst, args, call, last):
        ref = args[0]
        v = self.deref(st, ref)
        if isinstance(v, Gated):
            res = None
            for g, x in v.alts:
                g2 = st.ctx().simplify(g)
                if g2 is FALSE:
                    continue
                s = st.fork()
                s.add_pc(g2)
                self.set(s, ref, x)
                s, rv = self.printer(I, s, inst, args, call, last)
                s.mem[('rv', 'printer')] = rv
                res = IN.merge_states(res, s)
            return res, res.mem.pop(('rv', 'printer'))
        if not (isinstance(v, Opq) and v.name == 'printer'):
            self.ev('printer-unknown', st, call, op=last, value=v)
            return None
        cfg, epoch, n, state = v.args
        if last == 'start':
            good = self.okg(st, 'start')
            self.ev('start', st, call, rate=args[1], channels=args[2], state=state, n=n, epoch=epoch)
            new = opq('printer', cfg, epoch + 1, C(0), C(1))
            if good is TRUE:
                self.set(st, ref, new)
                return st, self.result(call.retty, UNIT, None, TRUE)
            err = I.build(self.payload(call.retty, False), IN.UfGen(I, st, 'start error', ()))
            self.set(st, ref, Gated([(good, new), (bnot(good), v)]) if False else new)
            return st, self.result(call.retty, UNIT, err, good)
        if last == 'consume':
            self.ev('consume', st, call, data=self.seqof(st, args[1]), state=state, epoch=epoch, n=n)
            self.set(st, ref, opq('printer', cfg, epoch, n + 1, C(3) if state == C(2) else state))
            return st, UNIT
        if last == 'finish':
            self.ev('finish', st, call, state=state, epoch=epoch, n=n)
            self.set(st, ref, opq('printer', cfg, epoch, n, C(2)))
            return st, UNIT
        if last == 'fingerprint':
            self.ev('fingerprint', st, call, state=state, epoch=epoch, n=n)
            nn = self.words(n)
            o = ('fp words', epoch)
            st.mem[o] = SeqV(ArrSym('words:%d' % (int(epoch.cval()) + 10 * int(st.mem.get(('file',), ONE).cval() - 1)), self.u32()), nn)
            return st, Ref(o, (), (ZERO, nn))
        self.ev('printer-' + last, st, call)
        return None

    # ---- media library
    def media(self, I, st, inst, args, call, p, last):
        rt = call.retty
        if last == 'next_packet':
            k = st.mem.get(('npkt',), ZERO)
            return self.cases(st, k, len(self.script), lambda s, j: self.packet(I, s, j, call, rt))
        if last == 'track_id' and 'Packet' in p:
            v = self.deref(st, args[0])
            if isinstance(v, Opq) and v.name == 'packet' and v.args[0].is_const():
                k = int(v.args[0].cval())
                return st, C(self.TRACK if self.script[k][0] != 'other' else 99)
            return None
        if last == 'decode':
            v = self.deref(st, args[1])
            if not (isinstance(v, Opq) and v.name == 'packet'):
                return None
            k = int(v.args[0].cval())
            s = self.script[k]
            self.ev('decode', st, call, k=k)
            if s[0] == 'decode-error':
                return st, self.result(rt, None, self.error(self.payload(rt, False), 'DecodeError'), FALSE)
            if s[0] == 'io-error':
                return st, self.result(rt, None, self.error(self.payload(rt, False), 'IoError'), FALSE)
            return st, self.result(rt, self.audiobuf(st, self.payload(rt), k), None, TRUE)
        if last in ('frames', 'capacity') and 'AudioBufferRef' in p:
            k = self.bufid(self.deref(st, args[0]))
            if k is not None:
                if self.kind(k) == 'other':
                    self.ev('foreign', st, call, k=k)
                    return st, C(3)
                return st, self.frames(k) if last == 'frames' else C(64)
            return None
        if 'SampleBuffer' in p:
            if last == 'new':
                return st, opq('samples', C(-1))
            if last.startswith('copy_'):
                k = self.bufid(self.deref(st, args[1]))
                self.ev('copy', st, call, how=last, buf=k)
                self.set(st, args[0], opq('samples', C(k) if k is not None else C(-1), *([] if last == 'copy_interleaved_ref' else [opq(last)])))
                return st, UNIT
            v = self.deref(st, args[0])
            if last in ('samples', 'samples_mut', 'len') and isinstance(v, Opq) and v.name == 'samples':
                k = v.args[0]
                n = self.frames(int(k.cval())) * self.ch if k.is_const() and k.cval() >= 0 and self.kind(int(k.cval())) == 'buf' else (C(3 * self.ch) if k.is_const() and k.cval() >= 0 else ZERO)
                if last == 'len':
                    return st, n
                o = ('samples', v)
                st.mem[o] = SeqV(ArrSym('samples:%d%s' % (int(k.cval()), '' if len(v.args) == 1 else ':' + v.args[1].name), self.i16()), n)
                return st, Ref(o, (), (ZERO, n))
            return None
        if last == 'tracks':
            return self.tracks(I, st, call)
        if last == 'eq' and 'CodecType' in p or last == 'ne' and 'CodecType' in p:
            a, b = self.codec(self.deref(st, args[0])), self.codec(self.deref(st, args[1]))
            if a is None or b is None:
                return None
            g = eq(a, b)
            return st, g if last == 'eq' else bnot(g)
        if last == 'count' and 'Channels' in p:
            v = self.deref(st, args[0])
            if isinstance(v, Opq) and v.name == 'channels':
                return st, v.args[0] if isinstance(v.args[0], Poly) else None
            if isinstance(v, Gated):
                r = None
                for g, x in v.alts:
                    if not (isinstance(x, Opq) and x.name == 'channels'):
                        return None
                    r = x.args[0] if r is None else T.ite(g, x.args[0], r)
                return st, r
            return None
        if last == 'into_channels':
            v = self.deref(st, args[0])
            return st, v if isinstance(v, Opq) and v.name == 'channels' else opq('channels', op('uf', ('layout', (), (v,)), USIZE, 1, 26))
        if rt is not None and self.p.ty[rt]['k'] == 'adt' and self.p.ty[rt].get('path') == 'std::result::Result' and (inst['crate'] in ('std', 'symphonia', 'symphonia_core')):
            if last in ('open', 'format', 'make'):
                if last == 'format':
                    st.mem[('npkt',)] = ZERO
                    st.mem[('file',)] = st.mem.get(('file',), ZERO) + 1
                self.ev('fallible', st, call, name=p)
                ok = self.payload(rt)
                val = I.build(ok, IN.UfGen(I, st, last, ())) if self.p.ty[ok]['k'] != 'adt' or self.p.ty[ok].get('path') != 'std::boxed::Box' else BoxV(opq(last), None)
                err = I.build(self.payload(rt, False), IN.UfGen(I, st, last + ' error', ()))
                if last == 'make':
                    cp = self.deref(st, args[1])
                    self.ev('make', st, call, params=cp)
                return st, self.result(rt, val, err, self.okg(st, last))
        return None

    def cases(self, st, k, top, f):
        res = None
        for j in range(top + 1):
            g = st.ctx().simplify(eq(k, C(j)) if j < top else le(C(top), k))
            if g is FALSE:
                continue
            s = st.fork()
            s.add_pc(g)
            s, v = f(s, j)
            if s is None:
                continue
            s.mem[('rv', 'cases')] = v
            res = IN.merge_states(res, s)
        if res is None:
            return None, None
        return res, res.mem.pop(('rv', 'cases'))

    def packet(self, I, st, k, call, rt):
        st.mem[('npkt',)] = C(k + 1)
        self.ev('next_packet', st, call, k=k)
        if k >= len(self.script):
            return st, self.result(rt, None, self.error(self.payload(rt, False), 'IoError'), FALSE)
        if self.script[k][0] == 'packet-error':
            return st, self.result(rt, None, self.error(self.payload(rt, False), self.script[k][1]), FALSE)
        return st, self.result(rt, opq('packet', C(k)), None, TRUE)

    TRACK = 5

    def frames(self, k):
        n = self.script[k % 100][1]
        return C(n) if isinstance(n, int) else n

    def kind(self, k):
        return self.script[k % 100][0]

    def audiobuf(self, st, t, k):
        for i, v in enumerate(self.p.ty[t].get('variants') or ()):
            if v['name'] == 'S16' and len(v['fields']) == 1:
                return Enum([(i, v['discr'], TRUE, (opq('buf', C(k) + 100 * (st.mem.get(('file',), ONE) - 1)),))], t)
        return opq('buf', C(k) + 100 * (st.mem.get(('file',), ONE) - 1))

    def bufid(self, v, d=0):
        if isinstance(v, Opq):
            if v.name == 'buf':
                return int(v.args[0].cval())
            kids = v.args
        elif isinstance(v, Enum):
            kids = [x for a in v.alts for x in a[3]]
        elif isinstance(v, Agg):
            kids = v.f
        elif isinstance(v, BoxV):
            kids = [v.inner]
        else:
            return None
        if d < 6:
            for x in kids:
                r = self.bufid(x, d + 1)
                if r is not None:
                    return r
        return None

    def codec(self, v):
        if isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], Poly):
            return v.f[0]
        if isinstance(v, Poly):
            return v
        return None

    def error(self, t, name):
        vs = self.p.ty[t].get('variants')
        if not vs:
            return opq('error ' + name)
        for i, v in enumerate(vs):
            if v['name'] == name:
                return Enum([(i, v['discr'], TRUE, tuple(opq('error detail') for _ in v['fields']))], t)
        return opq('error ' + name)

    def tracks(self, I, st, call):
        """three tracks: null codec, the audio track, another audio track"""
        t = self.p.ty[call.retty]
        el = None
        if t['k'] == 'ref' and self.p.ty[t['to']]['k'] == 'slice':
            el = self.p.ty[t['to']]['elem']
        if el is None or not self.p.ty[el].get('variants'):
            return None
        vals = []
        sel = getattr(self, 'tracklist', None)
        for tid, codec, rate, ch in sel if sel is not None else ((3, 0, 111, 7), (self.TRACK, 77, self.rate, self.ch), (9, 78, 222, 5)):
            vals.append(self.track(I, st, el, tid, codec, rate, ch))
        o = ('tracks',)
        st.mem[o] = SeqV(ArrList(vals), C(len(vals)))
        self.ev('tracks', st, call)
        return st, Ref(o, (), (ZERO, C(len(vals))))

    def track(self, I, st, ty, tid, codec, rate, ch):
        fs = []
        for n, ft in self.p.ty[ty]['variants'][0]['fields']:
            if n == 'id':
                fs.append(C(tid))
            elif n == 'codec_params':
                cp = []
                for m, mt in self.p.ty[ft]['variants'][0]['fields']:
                    if m == 'codec':
                        cp.append(Agg((C(codec),), mt))
                    elif m == 'sample_rate':
                        cp.append(self.result(mt, C(rate) if isinstance(rate, int) else rate, None, self.okg(st, 'sample_rate')))
                    elif m == 'channels':
                        cp.append(self.result(mt, opq('channels', C(ch) if isinstance(ch, int) else ch), None, self.okg(st, 'channels')))
                    elif m == 'channel_layout':
                        cp.append(self.result(mt, opq('channels', C(ch) if isinstance(ch, int) else ch), None, self.okg(st, 'layout')))
                    else:
                        cp.append(I.build(mt, IN.UfGen(I, st, 'param %s' % m, (C(tid),))))
                fs.append(Agg(cp, ft))
            else:
                fs.append(I.build(ft, IN.UfGen(I, st, 'track %s' % n, (C(tid),))))
        return Agg(fs, ty)

    # ---- arguments
    def make_args(self, st, t):
        x = self.p.ty[t]
        fs = []
        self.argfields = []
        for n, ft in x['variants'][0]['fields']:
            self.argfields.append(n)
            self.argty = x['variants'][0]['fields']
            if n in self.argv:
                v = self.argv[n]
                fs.append(self.arg_value(st, ft, v, n))
            else:
                fs.append(self.I.build(ft, IN.SymGen(self.I, st, 'arg_' + n)))
        return Agg(fs, t)

    def arg_value(self, st, ft, v, n):
        t = self.p.ty[ft]
        if t['k'] == 'bool':
            return v if isinstance(v, Bdd) else TRUE if v else FALSE
        if t['k'] == 'int':
            return v if isinstance(v, Poly) else C(v)
        if t['k'] == 'adt' and t['path'] == 'std::option::Option':
            if v is None:
                return self.result(ft, None, None, FALSE)
            return self.result(ft, self.arg_value(st, self.payload(ft), v, n), None, TRUE)
        if t['k'] == 'adt' and t['adt'] == 'enum':
            for i, w in enumerate(t['variants']):
                if w['name'].lower() == v:
                    return Enum([(i, w['discr'], TRUE, ())], ft)
        if t['k'] == 'adt' and t['adt'] == 'struct' and t.get('variants') and len(t['variants'][0]['fields']) == 1:
            return Agg((v,), ft)
        return v

    # ---- formatting
    def fmt(self, I, st, inst, args, call, p, last):
        if 'Argument' in p and last.startswith('new_') and 'rt::' in p:
            return st, opq('fmtarg', opq(last), I.snapshot(st, args[0]))
        if p.endswith("Arguments::<'a>::new") or p.endswith('Arguments::new'):
            tpl = self.deref(st, args[0])
            av = self.deref(st, args[1])
            return st, opq('fmt', tpl, av)
        if p.endswith("Arguments::<'a>::from_str") or p.endswith('Arguments::from_str') or p.endswith("::from_str_nonconst"):
            return st, opq('fmtstr', self.deref(st, args[0]))
        if p.endswith('io::_print') or p.endswith('io::_eprint'):
            self.ev('print' if p.endswith('_print') else 'eprint', st, call, text=self.text(args[0]))
            return st, UNIT
        if p.endswith('Engine::encode'):
            self.ev('base64', st, call, engine=self.deref(st, args[0]), data=self.seqof(st, args[1]) if not isinstance(self.deref(st, args[1]), SeqV) else self.deref(st, args[1]))
            return st, opq('base64', self.deref(st, args[0]), self.seqof(st, args[1]))
        if last == 'now' and 'chrono' in p or last == 'now' and 'std::time' in p:
            self.nnow = getattr(self, 'nnow', 0) + 1
            self.ev('now', st, call, k=self.nnow)
            return st, opq('now', C(self.nnow))
        if last in ('args_os', 'args') and 'env' in p:
            return st, opq('args_os')
        return None

    def strfn(self, I, st, inst, args, call):
        p = inst['path']
        last = p.rsplit('::', 1)[-1]
        if last == 'to_string' or last == 'spec_to_string':
            t = inst['body']['locals'][1]
            while self.p.ty[t]['k'] == 'ref':
                t = self.p.ty[t]['to']
            v = self.deref(st, args[0])
            if self.p.ty[t]['name'] in ('str', 'std::string::String'):
                return st, v
            return st, opq('display', opq('new_display'), v, opq(self.tname(t)))
        if last == 'join':
            return st, opq('join', self.resolve(st, self.deref(st, args[0])), self.deref(st, args[1]))
        if last == 'collect':
            v = args[0]
            if isinstance(v, Opq) and v.name in ('args_os', 'args'):
                return st, SeqV(ArrList([opq('arg', C(i)) for i in range(self.nargs)]), C(self.nargs))
            return NotImplemented
        if last in ('format', 'format_inner'):
            return st, opq('string', *self.text(args[0]))
        return NotImplemented

    def resolve(self, st, v):
        if isinstance(v, Ref):
            return self.deref(st, v)
        if isinstance(v, SeqV) and v.len.is_const():
            try:
                return SeqV(ArrList([self.resolve(st, self.I.elem(st, v, C(i))) for i in range(int(v.len.cval()))]), v.len)
            except Exception:
                return v
        return v

    def text(self, v):
        """list of literal strings and ('{}', trait, flags, value, type) pieces of a formatted text; None when it cannot be read"""
        f = self.find(v, lambda x: x.name == 'fmt' or x.name.startswith('fmt.') or x.name == 'fmtstr' or x.name.startswith('fmtstr.'))
        if f is None:
            return [('?', v)]
        if f.name.startswith('fmtstr'):
            return [self.strval(f.args[0])]
        tpl, av = f.args[0], f.args[1]
        b = self.bytes(tpl)
        if b is None or not isinstance(av, SeqV):
            return [('?', v)]
        out, i, k = [], 0, 0
        while i < len(b) and b[i]:
            c = b[i]
            i += 1
            if c < 0x80:
                out.append(bytes(b[i:i + c]).decode('utf8', 'replace'))
                i += c
                continue
            if c == 0x80:
                n = b[i] | b[i + 1] << 8
                i += 2
                out.append(bytes(b[i:i + n]).decode('utf8', 'replace'))
                i += n
                continue
            fl = wd = pr = None
            if c & 1:
                fl = int.from_bytes(bytes(b[i:i + 4]), 'little')
                i += 4
            if c & 2:
                wd = b[i] | b[i + 1] << 8
                i += 2
            if c & 4:
                pr = b[i] | b[i + 1] << 8
                i += 2
            if c & 8:
                k = b[i] | b[i + 1] << 8
                i += 2
            a = av.arr.vals[k] if isinstance(av.arr, ArrList) and k < len(av.arr.vals) else None
            k += 1
            g = self.find(a, lambda x: x.name == 'fmtarg' or x.name.startswith('fmtarg.'))
            if g is None:
                out.append(('?', a))
            else:
                val = self.see(g.args[1])
                out += self.piece(str(g.args[0].name), (fl, wd, pr), val)
        r = []
        for x in out:
            if r and isinstance(x, str) and isinstance(r[-1], str):
                r[-1] += x
            else:
                r.append(x)
        return r

    def piece(self, trait, fl, val):
        if isinstance(val, Opq) and val.name == 'display' and fl == (None, None, None):
            return [('{}', val.args[0].name, fl, val.args[1])]
        if isinstance(val, Opq) and val.name == 'string' and fl == (None, None, None) and trait == 'new_display':
            return list(val.args)
        if isinstance(val, Opq) and val.name == 'str' and fl == (None, None, None) and trait == 'new_display':
            return [val.args[0]]
        return [('{}', trait, fl, val)]

    def see(self, v):
        while isinstance(v, Opq) and v.name in ('&', 'pointee') and v.args:
            v = v.args[0]
        if isinstance(v, BoxV):
            v = v.inner
        return v

    def strval(self, v):
        v = self.see(v)
        if isinstance(v, Opq) and v.name == 'str':
            return v.args[0]
        b = self.bytes(v)
        return bytes(b).decode('utf8', 'replace') if b is not None else ('?', v)

    def bytes(self, v):
        v = self.see(v)
        if isinstance(v, SeqV) and isinstance(v.arr, ArrList):
            try:
                return [int(x.cval()) for x in v.arr.vals[:int(v.len.cval())]]
            except Exception:
                return None
        return None

    def find(self, v, pred, d=0):
        if isinstance(v, Opq):
            if pred(v):
                return v
            kids = v.args
        elif isinstance(v, Enum):
            kids = [x for a in v.alts for x in a[3]]
        elif isinstance(v, Agg):
            kids = v.f
        elif isinstance(v, BoxV):
            kids = [v.inner]
        else:
            return None
        if d < 8:
            for x in kids:
                r = self.find(x, pred, d + 1)
                if r is not None:
                    return r
        return None

    # ---- concrete view of the guarded event list at one assignment of the symbols
    def trace(self, env, what=None):
        ev = Ev(dict(env), uf=self.ufval)
        out = []
        ev.arr = Elems()
        for e in self.log:
            if what and e['what'] not in what:
                continue
            if ev.bdd(e['pc']):
                out.append((e['what'], {k: self.conc(ev, v) for k, v in e.items() if k not in ('what', 'pc', 'assume', 'span', 'fn', 'loops')}, e))
        return out

    SEG = {'start1': 11.25, 'end1': 3712.75, 'start2': 40.5, 'end2': 3742.0, 'duration': 3701.5}

    def ufval(self, ev, a, b):
        if b:
            return False
        if str(a[0]).startswith('segtime '):
            seg = self.conc(ev, a[2][0])
            base = 0 if '(1' not in str(seg) else 0
            return self.SEG.get(a[0][8:], 1)
        if 'timestamp' in str(a[0]) or 'now' in str(a[0]):
            k = re.search(r'now, \((\d+)', T_full(a))
            return 10 ** 12 + 10 ** 9 * (int(k.group(1)) if k else 0)
        return 1

    def conc(self, ev, v):
        try:
            return self.conc1(ev, v)
        except Unknown as e:
            return ('unknown', str(v)[:80])

    def conc1(self, ev, v):
        if isinstance(v, (int, str, tuple)) or v is None:
            if isinstance(v, tuple):
                return tuple(self.conc(ev, x) for x in v)
            return v
        if isinstance(v, list):
            r = []
            for x in v:
                x = self.conc(ev, x)
                if isinstance(x, tuple) and len(x) == 4 and x[0] == '{}' and x[2] == (None, None, None) and isinstance(x[3], tuple) and x[3] and x[3][0] in ('join', 'string'):
                    y = x[3][1]
                    r += y
                else:
                    r.append(x)
            return merge_text(r)
        if isinstance(v, (Poly, Bdd)):
            return ev.val(v)
        if isinstance(v, Gated):
            for g, x in v.alts:
                if ev.bdd(g):
                    return self.conc(ev, x)
            raise Unknown('no alternative')
        if isinstance(v, Opq):
            if v.name == 'join':
                el, sep = self.conc(ev, v.args[0]), self.conc(ev, v.args[1])
                r = []
                for i, x in enumerate(el):
                    if i:
                        r.append(sep)
                    r.append(x)
                return ('join', merge_text(r))
            if v.name == 'string':
                return ('string', self.conc(ev, list(v.args)))
            if v.name == 'str':
                return v.args[0]
            if v.name == 'display':
                return ('{}', v.args[0].name, (None, None, None), self.conc(ev, v.args[1]))
            if v.name in ('&', 'pointee'):
                return self.conc(ev, v.args[0])
            if v.name == 'const':
                return ('const',) + tuple(v.args)
            return (v.name,) + tuple(self.conc(ev, x) for x in v.args)
        if isinstance(v, SeqV):
            if isinstance(v.arr, ArrOp) and v.arr.name == 'compressed!':
                return ('compressed',) + tuple(self.conc(ev, x) for x in v.arr.args)
            n = int(ev.poly(v.len))
            r = []
            for i in range(n):
                x = ev.at(v.arr, i)
                r.append(ev.arr.get(x[1])(x[2], ()) if isinstance(x, tuple) and x and x[0] == 'symel' else self.conc(ev, x))
            return r
        if isinstance(v, Agg):
            return ('agg',) + tuple(self.conc(ev, x) for x in v.f)
        if isinstance(v, Enum):
            for k, d, g, f in v.alts:
                if ev.bdd(g):
                    return ('alt', k) + tuple(self.conc(ev, x) for x in f)
            raise Unknown('no alternative')
        if isinstance(v, BoxV):
            return self.conc(ev, v.inner)
        raise Unknown(type(v).__name__)

    def main(self):
        r = self.p.find(self.crate + '::main')
        if len(r) != 1:
            raise lib.Anchor(self.crate + '::main')
        st, v = run(self.I, r[0], [])
        return st, v

    def hooks(self):
        for i, x in enumerate(self.p.inst):
            if x.get('body') and x['crate'] != self.crate and x['path'].rsplit('::', 1)[-1] in ('to_string', 'spec_to_string', 'join', 'format', 'format_inner', 'collect', 'parse'):
                self.I.intercept[i] = self.strhook(x)

    def strhook(self, x):
        return lambda I, st, args, call: self.strfn(I, st, x, args, call)


def T_full(a):
    old = T.SHOW_NODES
    T.SHOW_NODES = 400
    try:
        return str(a)
    finally:
        T.SHOW_NODES = old


def merge_text(r):
    out = []
    for x in r:
        if out and isinstance(x, str) and isinstance(out[-1], str):
            out[-1] += x
        elif x != '':
            out.append(x)
    return out


class Elems(dict):
    """identities of the elements of the scripted arrays"""

    def get(self, name, default=None):
        kind, k = (str(name).split(':') + [''])[:2]
        if kind == 'samples':
            extra = 0 if name.count(':') == 1 else 500000
            return lambda i, proj: int(k) * 1000 + int(i) + extra
        if kind == 'words':
            return lambda i, proj: (int(k) * 0x30000000 + 0x60000000 * (int(i) % 3) + int(i)) & 0xffffffff
        return lambda i, proj: ('element', str(name), i)


def events(c, *what):
    return [e for e in c.log if e['what'] in what]
