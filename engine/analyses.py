"""The analyses the checks are made of.  Each explores a set of entry points with one model and some monitors."""
import time
from terms import *
from core import *
import models, drive
from models import Model
from drive import Driver, Root, roots


class Ctx:
    """Which rules count for the property under check; collects what could not be decided."""

    def __init__(self, rules):
        self.rules = rules
        self.unknown = {}

    def report(self, eng, st, rule, what, site=None):
        if rule in self.rules:
            eng.violation(st, rule, what, site)
        # otherwise it is another property's finding, and this path is judged further: it may break this property as well

    def incomplete(self, why, where):
        self.unknown.setdefault(why, set()).add(where)


class Analysis:
    """Base: subclasses define model/monitors/roots."""
    unwind = False
    budget = 150000
    opts = {}

    def __init__(self, P, rules, config):
        self.P = P
        self.config = config
        self.ctx = Ctx(rules)
        self.eng = self.make()
        self.drv = Driver(self.eng)

    def make(self):
        raise NotImplementedError

    def tasks(self):
        return [(r.name, r) for r in self.roots()]

    def run(self, root):
        e = self.eng
        e.violations.clear()
        e.counts.clear()
        e.functions.clear()
        self.ctx.unknown.clear()
        b0, s0 = e.stats['blocks'], e.stats['states']
        t = time.time()
        try:
            self.drv.explore(root)
        except Budget as x:
            self.ctx.incomplete('exploration bounded', root.name)
        except Unsupported as x:
            self.ctx.incomplete('construct not supported: %s' % x, root.name)
        return {'root': root.name, 'violations': list(e.violations.values()),
                'counts': {k: list(v) for k, v in e.counts.items()},
                'functions': [e.P.I[i]['path'] if isinstance(i, int) else str(i) for i in e.functions],
                'unknown': {k: list(v) for k, v in self.ctx.unknown.items()},
                'blocks': e.stats['blocks'] - b0, 'states': e.stats['states'] - s0, 'wall': time.time() - t}


# ---------------------------------------------------------------- ring buffer in full
def core_insts(P):
    """Operations of the core that hand out slot references."""
    out = []
    for i in P.I:
        if not i or not i.get('blocks') or not i.get('local') or i.get('closure') or i['argc'] < 2:
            continue
        a0 = P.T[i['locals'][1][0]]
        if a0['k'] != 'ref' or P.T[a0['to']].get('path', '').split('::')[-1] != 'Core':
            continue
        r = P.T[i['locals'][0][0]]
        if r.get('np') != 'S::result::Result':
            continue
        if P.T[r['args'][0]].get('path', '').split('::')[-1] == 'Ref':
            out.append(i)
    return out


def core_simple(P):
    """Operations of the core that take nothing but a shared reference to it (closing, for one) and are used from outside."""
    def of_core(i):
        if not i.get('argc'):
            return False
        a = P.T[i['locals'][1][0]]
        return a['k'] == 'ref' and P.T[a['to']].get('path', '').split('::')[-1] == 'Core'
    used = set()
    for i in P.I:
        if not i or not i.get('blocks') or not i.get('local') or of_core(i):
            continue
        for b in i['blocks']:
            t = b['t']
            if t['k'] == 'call':
                c = t['f'].get('c') or {}
                if 'fn' in c:
                    used.add(c['fn'].get('inst'))
    return [i for i in P.I if i and i.get('blocks') and i.get('local') and not i.get('closure') and i['argc'] == 1
            and of_core(i) and not P.T[i['locals'][1][0]].get('mut') and i['id'] in used]


def core_roots(P):
    """Entry points of the queue types, plus the core operations themselves (the channels' way in)."""
    out = []
    for i in core_insts(P) + core_simple(P):
        out.append(Root('fn', i['path'], inst=i['id'], rec={'name': i['name'] if 'name' in i else i['path'].split('::')[-1], 'path': i['path']}))
    for r in roots(P):
        if r.kind == 'fn' and '::mpsc::' not in r.name and 'recycling' not in r.name:
            out.append(r)
    return out


class CoreAnalysis(Analysis):
    monitors = ()

    def make(self):
        from mon_core import CoreMon
        return Engine(self.P, Model(), [CoreMon(self.ctx)], unwind=self.unwind, budget=self.budget, opts=self.opts)

    def roots(self):
        names = set()
        out = []
        for r in core_roots(self.P):
            if r.kind == 'fn' and self.is_ctor(r):
                continue
            out.append(r)
        return out

    def is_ctor(self, r):
        n = r.rec['name']
        return n in ('new', 'default') or n.startswith('with_') or n == 'channel'


class CoreUnwind(CoreAnalysis):
    unwind = True


class DropAnalysis(CoreAnalysis):
    """Dropping whatever owns the slots."""

    def roots(self):
        from mon_core import CoreMon
        m = self.eng.mons[0]
        P = self.P
        tys = []
        for a in P.adts:
            if not a['exported']:
                continue
            tys.append(a['ty'])
            for f in P.fields(P.strip(a['ty'])) or ():
                pt = P.pointee(f) if P.T[f]['k'] == 'adt' else None
                if pt is not None:
                    tys.append(pt)
        out, seen = [], set()
        for t in tys:
            n = 'drop of ' + P.T[t].get('path', P.T[t]['s'])
            if n not in seen and m.owns(t) and P.T[t]['k'] == 'adt':
                seen.add(n)
                out.append(Root('drop', n, ty=t))
        return out


class DropUnwind(DropAnalysis):
    unwind = True


# ---------------------------------------------------------------- construction
class CtorMon:
    """A buffer starts out empty, with as many slots as its capacity says, each in its initial state."""

    def __init__(self, ctx):
        self.ctx = ctx

    def attach(self, e):
        self.e = e
        self.M = e.M

    def start(self, e, st, r):
        self.root = r
        st.mon['n:w'] = ()
        P = e.P
        ns = []
        self.arrays = {}
        rty = P.prep(r.inst).locals[0]
        for k, ty in self.parts(rty):
            if k == 'slots' and P.T[P.strip(ty)]['k'] == 'array':
                n = P.T[P.strip(ty)]['n']
                ns.append(I(n) if isinstance(n, int) else ('s', (e.tag('const', n), 0)))
        st.mon['n:cap'] = tuple(ns[:1])

    def parts(self, ty, depth=0):
        P = self.e.P
        ty = P.strip(ty)
        t = P.T[ty]
        if depth > 7:
            return
        last = t.get('path', '').split('::')[-1]
        if t['k'] == 'adt' and t.get('local') and last == 'Core':
            yield 'core', ty
        elif t['k'] in ('array', 'slice'):
            if P.T[P.strip(t['elem'])].get('path', '').split('::')[-1] == 'Slot':
                yield 'slots', ty
        elif P.pointee(ty) is not None and t['k'] == 'adt':
            yield from self.parts(P.pointee(ty), depth + 1)
        elif t['k'] == 'tuple' or (t['k'] == 'adt' and t.get('local') and t.get('ak') == 'struct'):
            for f in P.fields(ty) or ():
                yield from self.parts(f, depth + 1)

    def bad(self, st, what):
        self.ctx.report(self.e, st, 'ctor', what, self.root.name)

    def slot_state(self, v, ty):
        e = self.e
        if v[0] != 'a':
            return None
        ty = e.P.strip(ty)
        for i, (n, f) in enumerate(e.T[ty]['variants'][0]['f']):
            if n == 'state':
                x = v[2][i]
                while x[0] == 'a' and len(x[2]) == 1:
                    x = x[2][0]
                return x
        return None

    def on_elem_write(self, e, st, ev):
        t = e.obj_type(ev.obj)
        if not isinstance(t, int) or e.T[e.P.strip(t)].get('path', '').split('::')[-1] != 'Slot':
            return
        s = self.slot_state(ev.val, t)
        ix = ev.obj[3]
        if s is None or s == TOP:
            self.ctx.incomplete('slot construction not understood', self.root.name)
            return
        if s != ix:
            self.bad(st, 'slot i is not built in state i')
            return
        e.count('slots built', e.site(st))
        if ix not in st.mon['n:w'] and len(st.mon['n:w']) < 8:
            st.mon['n:w'] = st.mon['n:w'] + (ix,)

    def on_collect(self, e, st, ev):
        t = e.T[e.P.strip(e.objty[ev.obj])].get('elem')
        if t is None or e.T[e.P.strip(t)].get('path', '').split('::')[-1] != 'Slot':
            return
        s = self.slot_state(ev.elem, t)
        if s is None or s == TOP:
            self.ctx.incomplete('slot construction not understood', self.root.name)
        elif s != sub(ev.ix, ev.start):
            self.bad(st, 'slot i is not built in state i')
        else:
            e.count('slots built', e.site(st))

    def walk(self, st, v, ty, depth=0):
        """(kind, value, type, length) of the core and the slots in a value."""
        e, P = self.e, self.e.P
        if not isinstance(ty, int) or depth > 7:
            return
        ty = P.strip(ty)
        t = P.T[ty]
        last = t.get('path', '').split('::')[-1]
        if t['k'] == 'adt' and t.get('local') and last == 'Core':
            yield 'core', v, ty, None
        elif t['k'] in ('array', 'slice'):
            if P.T[P.strip(t['elem'])].get('path', '').split('::')[-1] == 'Slot':
                yield 'slots', v, ty, None
        elif P.pointee(ty) is not None and t['k'] == 'adt':
            if v[0] == 'p':
                pt = P.pointee(ty)
                for k, x, y, n in self.walk(st, e.read(st, v[1], v[2]), pt, depth + 1):
                    yield k, x, y, v[3] if k == 'slots' and n is None and P.T[P.strip(pt)]['k'] == 'slice' else n
        elif t['k'] == 'tuple' or (t['k'] == 'adt' and t.get('local') and t.get('ak') == 'struct'):
            for i, f in enumerate(P.fields(ty) or ()):
                yield from self.walk(st, e.proj(v, i), f, depth + 1)

    def on_ret(self, e, st, ev):
        core = slots = None
        for k, v, ty, n in self.walk(st, ev.val, ev.ty):
            if k == 'core':
                core = (v, ty)
            else:
                slots = (v, ty, n)
        if core is not None and slots is not None:
            e.count('constructors', ev.root.name)
            self.check(e, st, core, slots)
        st.dead = True

    def check(self, e, st, core, slots):
        v, ty = core
        if v[0] != 'a':
            self.ctx.incomplete('constructor result not understood', self.root.name)
            return
        f = {n: v[2][i] for i, (n, _) in enumerate(e.T[ty]['variants'][0]['f'])}
        for n in ('head', 'tail'):
            x = f.get(n)
            while x is not None and x[0] == 'a' and len(x[2]) == 1:
                x = x[2][0]
            if x is not None and x != I(0):
                self.bad(st, '%s does not start at position 0' % n)
                return
        cap = f.get('capacity')
        if cap is not None:
            if e.truth(st, mk_cmp('eq', cap)) is not False:
                self.bad(st, 'a buffer of capacity 0 can be built')
                return
            ln = slots[2]
            if ln is None and st.mon['n:cap']:
                ln = st.mon['n:cap'][0]
            if ln is None or ln == TOP:
                self.ctx.incomplete('number of slots not understood', self.root.name)
            elif sub(ln, cap) != I(0) and syms(ln) - syms(cap):
                self.ctx.incomplete('number of slots not understood', self.root.name)
            elif sub(ln, cap) != I(0):
                self.bad(st, 'the capacity differs from the number of slots')
                return
            if st.mon['n:cap'] and cap[0] == 'i' and slots[0][0] == 'arr' and cap[1] <= 8:
                w = sorted(x[1] for x in st.mon['n:w'] if x[0] == 'i')
                if any(x[0] != 'i' for x in st.mon['n:w']):
                    self.ctx.incomplete('slot construction not understood', self.root.name)
                elif w != list(range(cap[1])):
                    self.bad(st, 'not every slot is put into its initial state (capacity %d: %s)' % (cap[1], w))
                    return
        self.masks(st, f, cap)

    def masks(self, st, f, cap):
        """index, closed bit and generation occupy disjoint bits for every capacity."""
        if cap is None:
            return
        e = self.e
        names = sorted(syms(cap))
        for c in range(1, 70):
            env = {n: c for n in names}
            if cap[0] == 'i' and cap[1] != c:
                continue
            g = {n: eval_at(f[n], env) if n in f else None for n in ('closed', 'idx_mask', 'gen', 'gen_mask')}
            if any(x is None for x in g.values()):
                if any(n not in f for n in g):
                    self.ctx.incomplete('layout of positions not understood', self.root.name)
                continue
            x = g['closed']
            bad = None
            if x == 0 or x & (x - 1):
                bad = 'the closed bit is not a single bit'
            elif g['idx_mask'] & x or g['gen_mask'] & x or g['idx_mask'] & g['gen_mask']:
                bad = 'the fields of a position overlap'
            elif g['idx_mask'] < c - 1 or g['idx_mask'] & (g['idx_mask'] + 1):
                bad = 'the index field cannot hold every index'
            elif g['gen'] & ~g['gen_mask'] % M64 or g['gen'] == 0 or (g['gen_mask'] // g['gen']) * g['gen'] != g['gen_mask'] :
                bad = 'the generation step does not match the generation field'
            if bad:
                self.bad(st, '%s for capacity %d' % (bad, c))
                return


class CtorAnalysis(Analysis):
    def make(self):
        return Engine(self.P, Model(), [CtorMon(self.ctx)], budget=self.budget)

    def roots(self):
        out = []
        m = self.eng.mons[0]
        for r in roots(self.P):
            if r.kind != 'fn' or '::fmt' in r.name or self.takes_handle(r):
                continue
            rty = self.P.prep(r.inst).locals[0]
            ks = [k for k, _ in m.parts(rty)]
            if 'core' in ks and 'slots' in ks:
                out.append(r)
        return out


    def takes_handle(self, r):
        """Splitting or cloning a handle builds no buffer."""
        P = self.P
        m = self.eng.mons[0]
        for t in P.prep(r.inst).locals[1:1 + P.prep(r.inst).argc]:
            while P.T[t]['k'] in ('ref', 'ptr'):
                t = P.T[t]['to']
            if 'core' in [k for k, _ in m.parts(t)]:
                return True
        return False


# ---------------------------------------------------------------- the world standing still
def is_blocking(r):
    n = r.rec['name'] if r.rec else ''
    return r.kind == 'fn' and '::blocking::' in r.name and (n in ('next',) or (n.startswith(('send', 'recv')) and not n.startswith('try')))


def seq_roots(r):
    """Entry points that between them take the wait structures through all their states."""
    if '::async_impl::' not in r.name or (r.kind == 'fn' and 'Static' not in r.name):
        return False
    n = r.rec['name'] if r.rec else ''
    return (r.kind == 'drop' and r.name.endswith(('StaticSender', 'StaticReceiver', 'SendRef', 'RecvRef'))) or \
        n in ('try_send_ref', 'try_recv_ref', 'poll_recv_ref', 'send_ref')


class FrozenAnalysis(Analysis):
    budget = 60000

    def make(self):
        import frozen
        dom, F = frozen.rest_values(self.P, seq_roots)
        e = Engine(self.P, frozen.FrozenModel(F, dom), [frozen.FrozenMon(self.ctx, is_blocking)], budget=self.budget,
                   opts={'arc_last': 'never', 'closable': True})
        e.K = 1000
        return e

    def roots(self):
        out = []
        for r in core_roots(self.P):
            if not CoreAnalysis.is_ctor(self, r):
                out.append(r)
        for r in roots(self.P):
            if r.kind == 'fn' and '::mpsc::' in r.name:
                n = r.rec['name']
                if n.startswith(('try_', 'poll_')) or n in ('is_closed',):
                    out.append(r)
            elif r.kind == 'drop' and self.P.T[r.ty]['path'].endswith('Ref'):
                out.append(r)
        return out

    def run(self, root):
        import frozen
        e = self.eng
        e.rec = frozen.CycleRec()
        e.opts['closable'] = not (root.rec and root.rec['name'] in ('len', 'capacity', 'remaining', 'is_empty'))
        r = super().run(root)
        cyc = e.rec.cycles()
        r['counts']['loops closed or bounded'] = [(root.name, len(e.rec.ids))]
        for rule in ('nb-spin', 'closed-spin'):
            if not cyc or rule not in self.ctx.rules:
                continue
            seen = set()
            for c in cyc:
                st = e.rec.at.get(c[0])
                if rule == 'closed-spin' and not frozen.may_be_closed(e, st):
                    continue
                site = e.site(st) if st is not None else root.name
                if site in seen:
                    continue
                seen.add(site)
                what = ('a non-blocking operation (%s) can loop without end while nothing else changes' if rule == 'nb-spin' else
                        '%s can loop without end on a closed queue instead of reporting that it is closed') % root.name
                r['violations'].append({'rule': rule, 'construct': site, 'what': what,
                                        'stack': e.where(st) if st is not None else [], 'path': e.trace(st) if st is not None else []})
        e.rec = None
        return r


class FrozenLen(FrozenAnalysis):
    def roots(self):
        return [r for r in core_roots(self.P) if r.rec['name'] in ('len', 'capacity', 'remaining', 'is_empty')]


class LenBoundAnalysis(Analysis):
    def make(self):
        import frozen
        return Engine(self.P, Model(), [frozen.LenBoundMon(self.ctx)], budget=self.budget)

    def roots(self):
        return [r for r in core_roots(self.P) if r.rec['name'] in ('len', 'remaining')]


class LenSnapAnalysis(Analysis):
    def make(self):
        import frozen
        return Engine(self.P, Model(), [frozen.LenSnapMon(self.ctx)], budget=self.budget)

    def roots(self):
        return [r for r in core_roots(self.P) if r.rec['name'] in ('len', 'remaining', 'is_empty')]


# ---------------------------------------------------------------- channels
def chan_seq(r, drops):
    """Entry points that between them take the channel's shared words through all their states."""
    n = r.rec['name'] if r.rec else ''
    if '::mpsc::' not in r.name:
        return False
    if r.kind == 'drop':
        if r.name.endswith(('StaticSender', 'StaticReceiver')):
            return drops
        return False
    if 'Static' not in r.name:
        return False
    return n in ('try_send_ref', 'try_recv_ref', 'poll_recv_ref', 'send_ref', 'recv_ref', 'send_ref_timeout', 'recv_ref_timeout')


def chan_facts(P, unwind=False):
    """Values of the shared words, and those among them that only occur once one side is gone."""
    import chan

    def fix(F, drops):
        rs = [r for r in roots(P) if chan_seq(r, drops)]
        while True:
            s0 = F.snap()
            e = Engine(P, chan.ChanModel(F), [], budget=60000, opts={'arc_last': 'never'})
            d = Driver(e)
            for r in rs:
                try:
                    d.explore(r)
                except (Budget, Unsupported):
                    pass
            if F.snap() == s0:
                return F
    A = fix(chan.Facts(), False)
    B = chan.Facts()
    B.merge(A.snap())
    B.q0, B.c0 = A.q0, A.c0
    fix(B, True)
    C = chan.Facts()
    C.q, C.cell, C.nd, C.lv = B.q - A.q, B.cell - A.cell, {x for x in B.nd if x[0] not in {a for a, _ in A.nd}}, set()
    return B, C


class ChanLocal(Analysis):
    budget = 120000
    opts = {'arc_last': 'never'}

    def make(self):
        import chan
        from mon_chan import ChanMon
        self.F, self.closed = chan_facts(self.P)
        e = Engine(self.P, chan.ChanModel(self.F), [ChanMon(self.ctx, self.closed)], unwind=self.unwind, budget=self.budget, opts=self.opts)
        return e

    def roots(self):
        return [r for r in roots(self.P) if '::mpsc::' in r.name]


class ChanUnwind(ChanLocal):
    unwind = True


class ChanSync(ChanLocal):
    def make(self):
        import chan
        from mon_sync import SyncMon, Grants
        self.F, _ = chan_facts(self.P)
        G = Grants()
        e = Engine(self.P, chan.ChanModel(self.F), [SyncMon(self.ctx, self.F, G, learn=True)], budget=60000, opts=self.opts)
        d = Driver(e)
        for r in roots(self.P):
            if chan_seq(r, True):
                try:
                    d.explore(r)
                except (Budget, Unsupported):
                    pass
        self.G = G
        return Engine(self.P, chan.ChanModel(self.F), [SyncMon(self.ctx, self.F, G)], unwind=self.unwind, budget=self.budget, opts=self.opts)


class ChanSyncUnwind(ChanSync):
    unwind = True


class ChanTimed(ChanLocal):
    def roots(self):
        P = self.P
        return [r for r in super().roots() if r.kind == 'fn' and any(
            P.T[P.strip(t)].get('np') == 'S::time::Duration' for t in P.prep(r.inst).locals[1:1 + P.prep(r.inst).argc])]


# ---------------------------------------------------------------- the waiting protocol
import os
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'


class Scenario:
    def __init__(self, name, threads, cap, cancels, spurious, moves):
        self.name, self.threads, self.cap, self.cancels, self.spurious, self.moves = name, threads, cap, cancels, spurious, moves


class ProtoAnalysis(Analysis):
    """Composes the automata of the channel's operations (compose.py)."""
    budget = 120000
    combined = 3000000 if THOROUGH else 1200000
    TX = ('send_ref', 'send', 'send_ref_timeout', 'send_timeout', 'try_send_ref', 'try_send')
    RX = ('poll_recv_ref', 'poll_recv', 'recv_ref', 'recv', 'recv_ref_timeout', 'recv_timeout', 'try_recv_ref', 'try_recv', 'next', 'poll')

    def make(self):
        import chan
        self.F, _ = chan_facts(self.P)
        self.autos = {}
        self.R = {}
        for r in roots(self.P):
            m = self.classify(r)
            if m is not None:
                self.R.setdefault(m, r)
        return Engine(self.P, chan.ChanModel(self.F), [chan.ProtoMon()], budget=self.budget, opts={'arc_last': 'never', 'wakers': True})

    def classify(self, r):
        """(module, static?, 'tx' | 'rx', operation)"""
        if '::mpsc::' not in r.name:
            return None
        mod = 'async' if '::async_impl::' in r.name else 'blocking' if '::blocking::' in r.name else None
        if mod is None:
            return None
        P = self.P
        if r.kind == 'drop':
            t, op = P.T[r.ty]['path'].split('::')[-1], 'drop'
        else:
            t = r.rec.get('iself')
            if not isinstance(t, int):
                return None
            while P.T[t]['k'] == 'ref':
                t = P.T[t]['to']
            t, op = P.T[t].get('path', '').split('::')[-1], r.rec['name']
            if op == 'poll':
                op = 'poll ' + t
                t = 'Receiver'
            elif P.T[P.prep(r.inst).locals[0]].get('path', '').endswith('Future'):
                return None         # the future's poll is what waits
        st = t.startswith('Static')
        side = {'Sender': 'tx', 'Receiver': 'rx'}.get(t[6:] if st else t)
        if side is None:
            return None
        return mod, st, side, op

    def tasks(self):
        out = []
        for mod in ('async', 'blocking'):
            for st in (False, True):
                txs = [o for (m, s, side, o) in self.R if m == mod and s == st and side == 'tx' and o in self.TX]
                rxs = [o for (m, s, side, o) in self.R if m == mod and (s == st or o.startswith('poll ')) and side == 'rx' and o.split(' ')[0] in self.RX]
                if not txs or not rxs or (mod, st, 'tx', 'drop') not in self.R or (mod, st, 'rx', 'drop') not in self.R:
                    continue
                tx0 = 'send_ref' if 'send_ref' in txs else txs[0]
                rx0 = next((o for o in ('poll_recv_ref', 'recv_ref') if o in rxs), rxs[0])
                K = lambda side, o: (mod, st if (mod, st, side, o) in self.R else False, side, o)

                def tx(ops):
                    n = len(ops)
                    return ('tx', [(K('tx', o), i + 1, (n,)) for i, o in enumerate(ops)] + [(K('tx', 'drop'), n + 1, ())])

                def rx(o):
                    return ('rx', [(K('rx', o), 0, (1,)), (K('rx', 'drop'), 2, ())])
                pre = '%s%s: ' % (mod, ' static' if st else '')
                add = lambda rx_, txs_, cap, c, s, m=0: out.append(Scenario(pre + '%s with %s, capacity %d%s%s%s' % (
                    rx_, ' and '.join('+'.join(x) for x in txs_), cap, ', cancelling' * c, ', spurious polls' * s, ', changing tasks' * m), [rx(rx_)] + [tx(x) for x in txs_], cap, c, s, m))
                self.scenarios(add, txs, rxs, tx0, rx0, (mod, st, 'tx', 'clone') in self.R, st)
        return [(s.name, s) for s in out]

    def scenarios(self, add, txs, rxs, tx0, rx0, clone, static):
        asy = any(o.startswith('poll') for o in rxs)
        add(rx0, [(tx0,), (tx0,)], 1, 1, 0)
        if asy and (not static or THOROUGH):
            add(rx0, [(tx0,), (tx0,)], 1, 0, 1, 1)
        if asy:
            add(rx0, [(tx0,)], 1, 1, 1, 1)
        for o in rxs:
            if o != rx0:
                add(o, [(tx0,)], 1, 1, 1, 1)
                if not static:
                    add(o, [(tx0,), (tx0,)], 1, 0, 0)
        for o in txs:
            if o != tx0:
                add(rx0, [(tx0,), (o,)], 1, 1, 0)
        if not static or THOROUGH:
            add(rx0, [(tx0, tx0), (tx0,)], 1, 1, 0)
            add('try_recv_ref', [(tx0,), (tx0,), (tx0,)], 1, 1, 0)
        if THOROUGH:
            add(rx0, [(tx0,), (tx0,)], 1, 2, 1, 1)
            add(rx0, [(tx0, tx0), (tx0,)], 2, 1, 0)
            add(rx0, [(tx0,), (tx0,), (tx0,)], 2, 1, 0)
            for a in txs:
                for b in txs:
                    if tx0 not in (a, b) and a <= b:
                        add(rx0, [(a,), (b,)], 1, 1, 0)
            for o in rxs:
                if o != rx0:
                    for a in txs:
                        add(o, [(tx0,), (a,)], 1, 1, 0)
        if clone:
            add(rx0, [('clone', tx0)], 1, 0, 0)

    def auto(self, k):
        import chan, compose
        if k not in self.autos:
            e = self.eng
            e.rec = chan.Recorder()
            self.drv.explore(self.R[k])
            self.autos[k] = compose.Auto(self.R[k].name, e.rec)
            e.rec = None
        return self.autos[k]

    def run(self, sc):
        import compose
        e = self.eng
        e.violations.clear()
        e.counts.clear()
        e.functions.clear()
        self.autos.clear()
        unk = {}
        t = time.time()
        viol = []
        n = 0
        try:
            e.M.shapes = max(2, sum(1 for k, _ in sc.threads if k == 'tx'))
            ths = [(k, [(self.auto(a), nx, sk) for a, nx, sk in phs]) for k, phs in sc.threads]
            p = compose.Product(ths, sc.cap, self.F.lv, self.F.q0, self.F.c0, sum(1 for k, _ in ths if k == 'tx'),
                                cancels=sc.cancels, spurious=sc.spurious, moves=sc.moves, budget=self.combined).run()
            n = p.nstates
            unk = {x: [sc.name] for x in p.unknown}
            for (rule, what, th), s in p.found.items():
                if rule not in self.ctx.rules:
                    continue
                path = p.path(s)
                op = p.opname(s, th)
                viol.append({'rule': rule, 'construct': op, 'what': what, 'stack': [sc.name],
                             'path': ['thread %d (%s): %s' % (a, ths[a][0], ' '.join(map(str, l))) for a, l in path]})
            e.count('operations composed', '')
            cnt = {'operations composed': sorted({a.name for _, ph in ths for a, _, _ in ph}), 'compositions': [sc.name],
                   'combined states': ['%s: %d' % (sc.name, n)]}
        except Budget:
            unk = {'exploration bounded': [sc.name]}
            cnt = {}
        except Unsupported as x:
            unk = {'construct not supported: %s' % x: [sc.name]}
            cnt = {}
        e.rec = None
        return {'root': sc.name, 'violations': viol, 'counts': cnt,
                'functions': [e.P.I[i]['path'] if isinstance(i, int) else str(i) for i in e.functions],
                'unknown': unk, 'blocks': 0, 'states': n, 'wall': time.time() - t}


# ---------------------------------------------------------------- policies, the crate's own lock
class PolicyAnalysis(Analysis):
    def make(self):
        import misc
        return Engine(self.P, misc.PolicyModel(), [misc.PolicyMon(self.ctx)], budget=self.budget)

    def roots(self):
        return [r for r in roots(self.P) if r.kind == 'fn' and 'recycling' in r.name]


class MutexAnalysis(Analysis):
    def make(self):
        import misc
        return Engine(self.P, Model(own_mutex=True), [misc.MutexMon(self.ctx)], budget=self.budget)

    def roots(self):
        P = self.P
        out, seen = [], set()
        for i in P.I:
            if not i or not i.get('blocks') or not i.get('local') or i.get('closure') or '::fmt::' in i['path']:
                continue
            t = i.get('iself')
            if not isinstance(t, int) or i['path'] in seen:
                continue
            n = P.T[t].get('path', '').split('::')[-1]
            if not P.T[t].get('local') or n not in ('Mutex', 'MutexGuard') or i.get('name') == 'drop':
                continue
            seen.add(i['path'])
            out.append(Root('fn', i['path'], inst=i['id'], rec={'name': i['name'], 'path': i['path']}))
        for a in P.adts:
            if a['name'] == 'MutexGuard':
                out.append(Root('drop', 'drop of ' + a['path'], ty=a['ty']))
        return out


from misc import AllocAnalysis, WitnessAnalysis
