"""Analysis with the rest of the world standing still: atomics are plain memory, so every loop the analysis can stay
in forever is one that waits for somebody else."""
from terms import *
from core import *
from models import *
from chan import Recorder, ChanModel, Facts


class FrozenModel(ChanModel):
    """Atomics hold their value unless the analysed code itself changes it."""

    def __init__(self, facts=None, rest=None):
        super().__init__(facts, absorb=False, shapes=1)
        self.rest = rest if rest is not None else {}

    def atomic(self, st, op, ptr, role, vals, ords, rty):
        eng = self.eng
        if ptr[0] != 'p' or role == ('Waiter', 'state'):
            return super().atomic(st, op, ptr, role, vals, ords, rty)
        key = ('z',) + ptr[1:3]
        v = st.mon.get(key)
        if v is None and role == ('Slot', 'state'):
            vs = self.slot_states(st, ptr)
            if vs:
                out = []
                for x in vs:
                    s = st.copy()
                    s.mon[key] = x
                    out += self.atomic(s, op, ptr, role, vals, ords, rty)
                return out
        if v is None and role in self.rest:
            out = []
            for x in sorted(self.rest[role]):
                s = st.copy()
                s.mon[key] = I(x)
                out += self.atomic(s, op, ptr, role, vals, ords, rty)
            return out
        if v is None:
            if role in POS:
                v = self.word(st, self.closable(role), role[1])
            else:
                t = eng.path_ty(ptr[1], ptr[2])
                isbool = False
                if isinstance(t, int):
                    a = self.T[self.P.strip(t)].get('args')
                    isbool = bool(a) and self.T[a[0]]['k'] == 'bool'
                nm = eng.fresh_name(st, eng.tag('mem', role, ptr[1:3]))
                eng.symty[nm] = None
                if isbool:
                    st.dom[nm] = frozenset((0, 1))
                v = ('s', nm)
        new, ok, res = None, None, v
        if op == 'load':
            pass
        elif op == 'store':
            new, res = vals[0], UNIT
        elif op.startswith('compare'):
            c = mk_cmp('eq', sub(v, vals[0]))
            t = eng.truth(st, c) if c[0] in 'ib' else None
            if t is None:
                st.mon[key] = v
                out = []
                for b in (True, False):
                    s = st.copy()
                    if c == TOP or eng.assume(s, c, b):
                        out += self.fin(s, op, ptr, role, ords, key, s.mon[key], vals[1] if b else None, b,
                                        ('a', 0 if b else 1, (s.mon[key],)))
                return out
            ok = t
            res = ('a', 0 if t else 1, (v,))
            new = vals[1] if t else None
        else:
            new = self.rmw(op, v, vals[0] if vals else TOP)
        return self.fin(st, op, ptr, role, ords, key, v, new, ok, res)

    def slot_states(self, st, ptr):
        """What a slot's state can be when it is the one at the tail or at the head (the ring buffer's invariant, which
        the core analysis establishes)."""
        o = ptr[1]
        if o[0] != 'e' or self.C is None:
            return None
        ix = o[3]
        G = scale(self.C, 2)
        for k, v in st.mon.items():
            if not (isinstance(k, tuple) and k[0] == 'z'):
                continue
            r = self.eng.role(('p',) + k[1:])
            if r not in (('Core', 'tail'), ('Core', 'head')):
                continue
            sw = self.split_word(v)
            if sw is None or sw['idx'] != ix:
                continue
            w = sub(v, sw['cl'])
            if r[1] == 'tail':
                return [w, sub(w, G), sub(add(w, I(1)), G)]
            return [w, add(w, I(1)), sub(add(w, I(1)), G)]
        return None

    def fin(self, st, op, ptr, role, ords, key, old, new, ok, res):
        st.mon[key] = new if new is not None else old
        self.eng.note(st, '%s %s' % (op, rn(role)))
        return self.at_fin(st, op, ptr, role, ords, old, new, ok, res)

    def closable(self, role):
        return POS[role] and self.eng.opts.get('closable', True)


class CycleRec(Recorder):
    def __init__(self):
        super().__init__()
        self.at = {}

    def join(self, st, k):
        new = k not in self.ids
        super().join(st, k)
        if new:
            self.at[st.cur] = st

    def cycles(self):
        """States from which the analysis comes back to the same state without making progress."""
        adj = {}
        for a, lab, b in self.edges:
            if lab is None:
                adj.setdefault(a, set()).add(b)
        # labels split nodes: a labelled edge is progress and is left out
        idx, low, on, stack, out = {}, {}, set(), [], []
        cnt = [0]
        for r in list(adj):
            if r in idx:
                continue
            work = [(r, iter(adj.get(r, ())))]
            idx[r] = low[r] = cnt[0]
            cnt[0] += 1
            stack.append(r)
            on.add(r)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        stack.append(w)
                        on.add(w)
                        work.append((w, iter(adj.get(w, ()))))
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        comp = []
                        while True:
                            w = stack.pop()
                            on.discard(w)
                            comp.append(w)
                            if w == v:
                                break
                        if len(comp) > 1 or v in adj.get(v, ()):
                            out.append(comp)
        return out


def may_be_closed(e, st):
    """Whether the tail this state looked at may carry the closed bit."""
    if st is None:
        return False
    for k, v in st.mon.items():
        if isinstance(k, tuple) and k[0] == 'z' and e.role(('p',) + k[1:]) == ('Core', 'tail'):
            sw = e.M.split_word(v)
            if sw is not None and e.truth(st, mk_cmp('eq', sw['cl'])) is not True:
                return True
    return False


class FrozenMon:
    """Marks what bounds a loop by itself, ends paths that wait, and checks the status queries."""

    def __init__(self, ctx, blocking):
        self.ctx = ctx
        self.blocking = blocking

    def attach(self, e):
        self.e = e

    def start(self, e, st, r):
        self.root = r

    def prog(self, e, st):
        if e.rec is not None:
            e.rec.label(st, ('progress',), ())

    def on_range_next(self, e, st, ev):
        self.prog(e, st)

    def on_iter_next(self, e, st, ev):
        self.prog(e, st)

    def on_wait(self, e, st, ev):
        if not self.blocking(self.root):
            self.ctx.report(e, st, 'nb-park', 'a non-blocking operation parks the thread')
        st.dead = True

    on_park = on_wait
    on_park_timeout = on_wait

    def on_pending(self, e, st, ev):
        st.dead = True

    def on_ret(self, e, st, ev):
        n = ev.root.rec['name'] if ev.root.rec else ''
        if n in ('len', 'capacity', 'remaining', 'is_empty'):
            self.query(e, st, ev, n)
        st.dead = True

    # ---- len and friends
    def query(self, e, st, ev, n):
        M = e.M
        t = h = None
        for k, v in st.mon.items():
            if isinstance(k, tuple) and k[0] == 'z':
                r = e.role(('p',) + k[1:])
                if r == ('Core', 'tail'):
                    t = v
                elif r == ('Core', 'head'):
                    h = v
        e.count('status queries', ev.root.name)
        if n != 'capacity' and (t is None or h is None):
            # decided without looking at both ends
            if t is None:
                t = M.word(st, False, 'tail')
            if h is None:
                h = M.word(st, False, 'head')
        terms_ = [x for x in (t, h) if x is not None]
        names = set()
        for x in terms_ + [ev.val] + [r[1] for r in st.rel]:
            names |= syms(x)
        names.discard(M.CAPN)
        consts = [nm for nm in names if e._tagname[nm[0]][0] == 'const']
        names -= set(consts)
        free = []
        for nm in sorted(names, key=repr):
            l = nm[-1]
            if l not in ('@idx', '@gen', '@cl'):
                self.ctx.incomplete('the value returned by %s is not understood' % n, ev.root.name)
                return
            free.append(nm)
        import itertools
        for cap in (1, 2, 3, 4):
            C = eval_at(M.C, {M.CAPN: cap})
            G = 2 * C
            doms = [{'@idx': range(cap), '@gen': (0, G, 2 * G), '@cl': (0,)}[nm[-1]] for nm in free]
            for vals in itertools.product(*doms):
                env = dict(zip(free, vals))
                env[M.CAPN] = cap
                env.update((nm, cap) for nm in consts)
                if t is not None:
                    tv, hv = eval_at(t, env), eval_at(h, env)
                    tp = (tv // G) * cap + tv % G
                    hp = (hv // G) * cap + hv % G
                    if tv % G >= cap or hv % G >= cap or not 0 <= tp - hp <= cap:
                        continue
                    ln = tp - hp
                else:
                    ln = 0
                if any(eval_at(('b',) + r, env) == 0 for r in st.rel):
                    continue
                got = eval_at(ev.val, env)
                if got is None:
                    self.ctx.incomplete('the value returned by %s is not understood' % n, ev.root.name)
                    return
                want = {'len': ln, 'capacity': cap, 'remaining': cap - ln, 'is_empty': int(ln == 0)}[n]
                if got != want:
                    self.ctx.report(e, st, 'len', '%s() is %d for a queue of capacity %d holding %d elements (%d pushed so far)'
                                    % (n, got - M64 if got > 1 << 63 else got, cap, ln, tp if t is not None else 0))
                    return


class LenBoundMon:
    """len never exceeds the capacity, whatever the interleaving."""

    def __init__(self, ctx):
        self.ctx = ctx

    def attach(self, e):
        self.e = e

    def start(self, e, st, r):
        pass

    def on_ret(self, e, st, ev):
        n = ev.root.rec['name'] if ev.root.rec else ''
        st.dead = True
        if n not in ('len', 'remaining'):
            return
        import itertools
        M = e.M
        names = set(syms(ev.val)) - {M.CAPN}
        rels = set()
        while True:
            more = [r for r in st.rel if r not in rels and set(syms(r[1])) & names]
            if not more:
                break
            rels.update(more)
            for r in more:
                names |= syms(r[1])
        names.discard(M.CAPN)
        consts = [nm for nm in names if e._tagname[nm[0]][0] == 'const']
        free = sorted(names - set(consts), key=repr)
        if any(x[-1] not in ('@idx', '@gen', '@cl') for x in free) or len(free) > 9:
            self.ctx.incomplete('bound on %s not understood' % n, ev.root.name)
            return
        e.count('status queries under interference', ev.root.name)
        for cap in (1, 2, 3):
            C = eval_at(M.C, {M.CAPN: cap})
            doms = [{'@idx': range(cap), '@gen': (0, 2 * C, 4 * C), '@cl': (0,)}[x[-1]] for x in free]
            for vals in itertools.product(*doms):
                env = dict(zip(free, vals))
                env[M.CAPN] = cap
                env.update((nm, cap) for nm in consts)
                if any(eval_at(('b',) + r, env) == 0 for r in rels):
                    continue
                got = eval_at(ev.val, env)
                if got is None:
                    continue
                if got > cap:
                    self.ctx.report(e, st, 'len', '%s() can exceed the capacity (%d of %d) while others push and pop' % (n, got, cap))
                    return


class LenSnapMon:
    """What len, remaining and is_empty report was true at some moment of the call, whatever others do meanwhile."""

    def __init__(self, ctx):
        self.ctx = ctx

    def attach(self, e):
        self.e = e

    def start(self, e, st, r):
        st.mon['loads'] = ()

    def on_atomic(self, e, st, ev):
        if ev.role not in (('Core', 'tail'), ('Core', 'head')) or ev.op == 'store':
            return
        acq = any(o in ('Acquire', 'AcqRel', 'SeqCst') for o in ev.ords) or ev.op != 'load'
        st.mon['loads'] = st.mon['loads'][-4:] + ((ev.role[1], ev.old, acq),)

    def on_fence(self, e, st, ev):
        if ev.ord in ('Acquire', 'AcqRel', 'SeqCst') and st.mon['loads']:
            st.mon['loads'] = tuple((a, b, True) for a, b, _ in st.mon['loads'])

    def on_ret(self, e, st, ev):
        import itertools
        n = ev.root.rec['name'] if ev.root.rec else ''
        if n not in ('len', 'remaining', 'is_empty'):
            return
        M = e.M
        e.count('status queries under interference', ev.root.name)
        # the loads the answer depends on: those it mentions, those compared with these, and the last one
        # taken of each end (a constant answer follows from how these compare)
        loads = st.mon['loads']
        names = syms(ev.val) - {M.CAPN}
        for role in ('head', 'tail'):
            own = [v for r, v, _ in loads if r == role]
            if own:
                names |= syms(own[-1]) - {M.CAPN}
        rels = set()
        while True:
            more = [r for r in st.rel if r not in rels and set(syms(r[1])) & names]
            if not more:
                break
            rels.update(more)
            for r in more:
                names |= syms(r[1]) - {M.CAPN}
        consts = [nm for nm in names if e._tagname[nm[0]][0] == 'const']
        used = [(r, v, a) for r, v, a in loads if (syms(v) - {M.CAPN}) & names]
        free = sorted({nm for _, v, _ in used for nm in syms(v)} - {M.CAPN} - set(consts), key=repr)
        left = names - set(free) - set(consts)
        words = []
        for r, v, a in used:
            if v not in words:
                words.append(v)
        if left or any(M.split_word(v) is None for v in words) or len(words) > 4 or any(x[-1] not in ('@idx', '@gen', '@cl') for x in free):
            self.ctx.incomplete('how %s arrives at its answer is not understood' % n, ev.root.name)
            return
        if any(not a for _, _, a in used[:-1]):
            self.ctx.report(e, st, 'len-snap', '%s() reads both ends of the queue, but the earlier reads are not ordered before the later ones' % n)
            return
        for cap in (1, 2, 3) if len(words) <= 3 else (1, 2):
            C = eval_at(M.C, {M.CAPN: cap})
            G = 2 * C
            doms = [{'@idx': range(cap), '@gen': (0, G, 2 * G), '@cl': (0,)}[nm[-1]] for nm in free]
            for vals in itertools.product(*doms):
                env = dict(zip(free, vals))
                env[M.CAPN] = cap
                env.update((nm, cap) for nm in consts)
                if any(eval_at(('b',) + r, env) == 0 for r in rels):
                    continue
                seq = []
                for r, v, _ in used:
                    w = eval_at(v, env)
                    seq.append((r, (w // G) * cap + w % G) if w % G < cap else None)
                if None in seq:
                    continue
                got = eval_at(ev.val, env)
                if got is None:
                    self.ctx.incomplete('how %s arrives at its answer is not understood' % n, ev.root.name)
                    return
                hist = missed(seq, cap, {'len': lambda l: l == got, 'remaining': lambda l: cap - l == got, 'is_empty': lambda l: int(l == 0) == got}[n])
                if hist is not None:
                    self.ctx.report(e, st, 'len-snap', '%s() can answer %s although that was true at no moment of the call: capacity %d, reads %s, while the queue held %s'
                                    % (n, got, cap, ' '.join('%s=%d' % x for x in seq), ' .. '.join('%d' % (t - h) for h, t in hist)))
                    return


def missed(seq, cap, true_of):
    """Positions (head, tail) the queue may have had at the reads of `seq` such that the answer was never true in between, or None."""
    top = max(x for _, x in seq) if seq else 0
    good = [l for l in range(cap + 1) if not true_of(l)]
    # the length moves by one at a time, so it stays within one run of lengths that falsify the answer
    runs, run = [], []
    for l in range(cap + 2):
        if l in good:
            run.append(l)
        elif run:
            runs.append(run)
            run = []
    if not seq:
        return [(0, r[0]) for r in runs[:1]] or None
    for run in runs:
        cur = None
        for r, x in seq:
            here = {(x, x + l) for l in run} if r == 'head' else {(x - l, x) for l in run if x >= l}
            if cur is None:
                cur = {p: [p] for p in here}
            else:
                nxt = {}
                for (h, t) in here:
                    for (h0, t0), path in cur.items():
                        if (h, t) == (h0, t0) or len(run) > 1 and h >= h0 and t >= t0:
                            nxt[(h, t)] = path + [(h, t)]
                            break
                cur = nxt
        if cur:
            return next(iter(cur.values()))
    return None


class RestMon:
    """Collects what the finite words hold between operations."""

    def __init__(self, dom):
        self.dom = dom

    def attach(self, e):
        self.e = e

    def start(self, e, st, r):
        pass

    def grab(self, e, st, ev):
        for k, v in st.mon.items():
            if isinstance(k, tuple) and k[0] == 'z' and v[0] == 'i':
                r = e.role(('p',) + k[1:])
                if r in self.dom:
                    self.dom[r].add(v[1])

    on_pending = grab
    on_end = grab

    def on_park(self, e, st, ev):
        self.grab(e, st, ev)
        st.dead = True

    on_park_timeout = on_park


def rest_values(P, sel):
    """Values of the wait cell's and wait queue's words between operations: what operations run one after the other leave."""
    import drive
    F = Facts()
    Engine(P, ChanModel(F), [])
    dom = {('WaitCell', 'lock'): {F.c0} if F.c0 is not None else set(), ('WaitQueue', 'state'): {F.q0} if F.q0 is not None else set()}
    dom = {k: v for k, v in dom.items() if v}
    while True:
        n0 = (sum(map(len, dom.values())), F.snap())
        e = Engine(P, FrozenModel(F, dom), [RestMon(dom)], budget=40000, opts={'arc_last': 'never', 'closable': True})
        e.K = 1000
        d = drive.Driver(e)
        for r in drive.roots(P):
            if sel(r):
                e.rec = CycleRec()
                try:
                    d.explore(r)
                except (Budget, Unsupported):
                    pass
                e.rec = None
        if (sum(map(len, dom.values())), F.snap()) == n0:
            return dom, F
