"""Thread-modular protocol check: the automata recorded for the channel's operations (chan.Recorder) are composed over an
explicit abstraction of what they share - the ring as a bounded queue, the receiver's wait cell, the wait queue (state word,
list, lock, entries), the sender count and the wake-ups in flight - and every reachable combination is visited."""
from collections import deque


class Auto:
    """An operation's automaton without silent steps, reduced by bisimulation."""

    def __init__(self, name, rec):
        self.name = name
        succ = {}
        lab = {}
        for a, l, b in rec.edges:
            if l is None:
                succ.setdefault(a, set()).add(b)
            else:
                lab.setdefault(a, []).append((l, b))
        self.sites = rec.sites

        def closure(n):
            seen, work = {n}, [n]
            while work:
                x = work.pop()
                for y in succ.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        work.append(y)
            return seen
        # only nodes that are reached by a labelled step (or the start) matter
        out = {}
        work = [0]
        while work:
            n = work.pop()
            if n in out:
                continue
            es = set()
            for x in closure(n):
                for l, b in lab.get(x, ()):
                    es.add((l, b))
            out[n] = es
            work += [b for _, b in es]
        # partition refinement
        cls = {n: 0 for n in out}
        k = 1
        while True:
            sig = {}
            new = {}
            for n, es in out.items():
                s = (cls[n], frozenset((l, cls[b]) for l, b in es))
                new[n] = sig.setdefault(s, len(sig))
            cls = new
            if len(sig) == k:
                break
            k = len(sig)
        self.edges = [None] * k
        self.where = [None] * k
        for n, es in out.items():
            c = cls[n]
            if self.edges[c] is None:
                self.edges[c] = sorted(set((l, cls[b]) for l, b in es), key=repr)
            if self.where[c] is None and n in self.sites:
                self.where[c] = self.sites[n]
        self.start = cls[0]
        self.absolute = any(l[0] == 'poll' for es in self.edges for l, _ in es)
        self.nstates = k

    def __repr__(self):
        return '%s(%d states, %d steps)' % (self.name, self.nstates, sum(map(len, self.edges)))


# indices into a thread's local part
PH, ND, WOK, EST, ELK, EWK, REGS, TOOK, EEMPTY, VER = range(10)


class Bad(Exception):
    pass


class Product:
    def __init__(self, threads, cap, lv, q0, c0, ntx, cancels=1, spurious=1, moves=1, budget=400000):
        """threads: list of (kind 'tx'|'rx', [(Auto, next phase or None)])"""
        self.th = threads
        self.cap = cap
        self.lv = lv
        self.init = ((), 0, q0, (), None, c0, None, (), ntx,
                     tuple((0, -1, 0, None, 0, None, (), None, 1, 0) for _ in threads), (), (cancels, spurious, moves))
        self.budget = budget
        self.found = {}
        self.unknown = {}
        self.nstates = 0
        self.nsteps = 0
        self.solo = {}

    # state: ring, closed, q, list, holder, cellword, cell, inside, txc, threads
    def report(self, rule, what, s, t):
        k = (rule, what, t)
        if k not in self.found:
            self.found[k] = s

    def step(self, s, t, lab):
        """Successor of s when thread t takes a step labelled lab, or None."""
        ring, closed, q, lst, hold, cw, cell, ins, txc, th, arr, bud = s
        me = th[t]
        k = lab[0]
        if k == 'push':
            r = lab[1]
            if closed:
                return s if r == 'closed' else None
            if len(ring) < self.cap:
                return (ring + (('P', t),),) + s[1:] if r == 'ok' else None
            return s if r == 'full' else None
        if k == 'pop':
            r = lab[1]
            i = next((i for i, x in enumerate(ring) if x[0] not in 'XF'), None)
            if i is None:
                if closed:
                    return s if r == 'closed' else None
                return s if r == 'empty' else None
            if ring[i][0] == 'R':
                return (ring[:i] + (('X', t),) + ring[i + 1:],) + s[1:] if r == 'ok' else None
            return s if r == 'empty' else None
        if k == 'release':
            want = 'P' if lab[1] == 'push' else 'X'
            for i, x in enumerate(ring):
                if x == (want, t):
                    ring = list(ring)
                    ring[i] = ('R', -1) if want == 'P' else ('F', -1)
                    while ring and ring[0][0] == 'F':
                        ring.pop(0)
                    return (tuple(ring),) + s[1:]
            return None
        if k == 'close':
            if lab[1] != closed:
                return None
            return (ring, 1) + s[2:]
        if k == 'q':
            _, op, o, n, ok = lab
            if o is not None and o != q:
                return None
            if n is None or ok is False:
                return s
            return s[:2] + (n,) + s[3:]
        if k == 'c':
            _, op, o, n, ok = lab
            if o is not None and o != cw:
                return None
            if n is None or ok is False:
                return s
            return s[:5] + (n,) + s[6:]
        if k == 'cell':
            if lab[1] == 'enter':
                if lab[2] is not None and (cell is not None) != bool(lab[2]):
                    return None
                if lab[2]:
                    s = self.upd(s, t, TOOK, cell)
                if ins and ins != (t,):
                    self.report('cell-two', 'two threads use the receiver\'s wait cell at the same time', s, t)
                    return None
                return s[:7] + ((t,),) + s[8:]
            if lab[1] == 'put':
                w = lab[2]
                c = (t, self.ver(t, me, w)) if isinstance(w, tuple) else None if w is None else cell if w == 'cell' else -2
                if c == -2:
                    self.unknown['what is stored in the wait cell is not known'] = 1
                return s[:6] + (c, ()) + s[8:]
        if k == 'txc':
            _, op, c, v = lab
            if c == 2 and txc < 2 or c != 2 and txc != c:
                return None
            if op == 'fetch_sub':
                txc -= v or 1
            elif op == 'fetch_add':
                txc += v or 1
            elif op == 'swap':
                txc = v
            return s[:8] + (txc,) + s[9:]
        if k == 'lock':
            _, ids, nd, own = lab
            if hold is not None or len(ids) != len(lst):
                return None
            if own:
                if nd is None:
                    if not me[ELK]:
                        return None
                elif me[ELK] or me[EST] != nd[0] or bool(me[EEMPTY]) != nd[1]:
                    return None
            regs = dict(me[REGS])
            for i, x in zip(ids, lst):
                if (i == 'O') != (x == t):
                    return None
                if i != 'O':
                    regs[i] = (x, th[x][EWK])
            s = self.upd(s, t, REGS, tuple(sorted(regs.items())))
            return s[:4] + (t,) + s[5:]
        if k == 'unlock':
            _, pre, post, info = lab
            if hold != t:
                return None
            regs = {i: x for i, (x, _) in me[REGS]}
            new = tuple(t if i == 'O' else regs[i] for i in post)
            th = list(th)
            gone = [t if i == 'O' else regs[i] for i in pre if i not in post]
            pub = {x for x in gone if x != t and not th[x][ELK]}      # their owners may know already
            for x in gone:
                if x not in pub:
                    th[x] = self.sub(th[x], ELK, 0)
            for x in new:
                if x != t and not th[x][ELK]:
                    self.report('entry-linked', 'an entry stays in the wait queue although its owner is told that it was removed', s, t)
                    return None
            arr = tuple(x for x in arr if x in new)
            for x in gone:
                if x != t and any(s[10].index(y) < s[10].index(x) for y in arr):
                    self.report('wake-order', 'a sender is woken before one that has been waiting longer', s, t)
                    return None
            arr += tuple(x for x in new if x not in arr)
            if set(new) != {x for x in s[3] if x not in gone} | ({t} if 'O' in post else set()):
                self.report('entry-lost', 'entries of other senders vanish from the wait queue', s, t)
                return None
            for i, sv, w in info:
                x = t if i == 'O' else regs[i]
                e = th[x]
                if i == 'O':
                    e = self.sub(e, EST, sv)
                    e = self.sub(e, ELK, 1)
                    if w is not None and not isinstance(w, tuple):
                        self.unknown['what is stored in a queue entry is not known'] = 1
                    e = self.sub(e, EWK, (x, self.ver(t, me, w)) if isinstance(w, tuple) else None)
                    e = self.sub(e, EEMPTY, int(w is None))
                elif x not in pub or e[EST] == sv:
                    e = self.sub(e, EST, sv)
                    e = self.sub(e, EEMPTY, int(w is True))
                th[x] = e
            return s[:3] + (new, None) + s[5:9] + (tuple(th), arr, bud)
        if k == 'deq':
            if me[EST] != lab[1][0] or me[EST] in self.lv and me[ELK]:
                return None
            return s
        if k == 'linked':
            return s if me[ELK] and me[EST] in self.lv else None
        if k == 'ns':
            _, who, o, n = lab
            if n is None:
                return s
            if who == 'O':
                return self.upd(s, t, EST, n)
            x = dict(me[REGS]).get(who, (None, None))[0]
            if x is None:
                return s
            if not self.alive(s, t, x):
                return None
            s = self.upd(s, x, EST, n)
            return s if n in self.lv else self.upd(s, x, ELK, 0)
        if k == 'wt':
            x = dict(me[REGS]).get(lab[1], (None, None))[0]
            if x is not None and not self.alive(s, t, x):
                return None
            return s
        if k == 'wake':
            w = lab[1]
            if isinstance(w, tuple):
                x = (t, self.ver(t, me, w))
            elif w == 'cell':
                x = me[TOOK]
            elif isinstance(w, str) and w.startswith('W'):
                x = dict(me[REGS]).get(w, (None, None))[1]
            else:
                self.unknown['a wake whose target is not known'] = 1
                x = None
            if x is None or x == -2:
                return s
            if s[9][x[0]][VER] != x[1]:
                return s
            return self.upd(s, x[0], WOK, 1)
        if k == 'park':
            return self.upd(s, t, WOK, 0) if me[WOK] else None
        if k == 'park_timeout':
            return self.upd(s, t, WOK, 0)
        if k == 'poll':
            if me[WOK]:
                return self.moved(self.upd(s, t, WOK, 0), t, lab[1])
            return None
        if k == 'ret':
            if lab[1] == 'closed':
                kind = self.th[t][0]
                if not closed:
                    self.report('false-closed', 'an operation reports that the channel is closed although it is not', s, t)
                    return None
                if kind == 'rx' and any(x[0] == 'R' for x in ring):
                    self.report('early-closed', 'the receiver is told that the channel is closed before it has all messages', s, t)
                    return None
            return s
        if k in ('pending', 'bad', 'spin'):
            return s
        if k == 'end':
            if me[ELK]:
                self.report('entry-linked', 'an operation ends while its entry is still in the wait queue', s, t)
                return None
            return s
        self.unknown['step %s' % (k,)] = 1
        return s

    def alive(self, s, t, x):
        """Thread t uses the queue entry of thread x."""
        e = s[9][x]
        if x != t and e[EST] is None:
            self.report('entry-freed', 'a queue entry is used after the operation that owns it has ended', s, t)
            return False
        return True

    def moved(self, s, t, v):
        """The future is polled by the task with waker v."""
        if s[9][t][VER] == v:
            return s
        b = s[11]
        if b[2] <= 0:
            return None
        return self.upd(s[:11] + ((b[0], b[1], b[2] - 1),), t, VER, v)

    def ver(self, t, me, w):
        """Which of a task's wakers: futures keep theirs apart, a plain poll function only knows the current one."""
        return w[1] if self.th[t][1][me[PH]][0].absolute else me[VER]

    @staticmethod
    def sub(e, i, v):
        return e[:i] + (v,) + e[i + 1:]

    def upd(self, s, t, i, v):
        th = s[9]
        e = th[t]
        if e[i] == v:
            return s
        return s[:9] + (th[:t] + (e[:i] + (v,) + e[i + 1:],) + th[t + 1:],) + s[10:]

    # ------------------------------------------------------------ exploring
    def private(self, s, t, lab):
        """Can no other thread see or influence this step?"""
        k = lab[0]
        if k in ('cell', 'pending', 'ret'):
            return True
        me = s[9][t]
        if k == 'end':
            return lab[1] != 'pending'
        if k == 'ns':
            if lab[1] == 'O':
                return not me[ELK]
            return lab[3] is None
        if k == 'wt':
            x = dict(me[REGS]).get(lab[1], (None, None))[0]
            return x is None or s[9][x][ELK]
        if k == 'unlock':
            regs = {i: x for i, (x, _) in me[REGS]}
            return all(i == 'O' or not s[9][regs[i]][ELK] for i in lab[1] if i not in lab[2])
        return False

    def moves(self, s, t):
        """(label, successor, obligatory?)"""
        me = s[9][t]
        ph, nd = me[PH], me[ND]
        phases = self.th[t][1]
        out = []
        if ph >= len(phases):
            return out
        if nd == -1:
            a = phases[ph][0]
            s2 = self.upd(s, t, ND, a.start)
            out.append((('start', a.name), s2, False))
            for n in phases[ph][2]:
                out.append((('skip',), self.upd(s, t, PH, n), False))
            return out
        a = phases[ph][0]
        for lab, b in a.edges[nd]:
            if lab[0] == 'cancel':
                if s[11][0] > 0:
                    s2 = s[:11] + ((s[11][0] - 1,) + s[11][1:],)
                    out.append((lab, self.upd(s2, t, ND, b), False))
                continue
            s2 = self.step(s, t, lab)
            if s2 is None:
                if lab[0] == 'poll' and s[11][1] > 0 and not me[WOK]:
                    s2 = s[:11] + ((s[11][0], s[11][1] - 1, s[11][2]),)
                    s2 = self.moved(s2, t, lab[1])
                    if s2 is None:
                        continue
                    out.append((('poll', 'spurious'), self.upd(s2, t, ND, b), False))
                continue
            if lab[0] == 'end':
                e = s2[9][t]
                w = e[WOK]
                e = (phases[ph][1], -1, w, None, 0, None, (), None, 1, e[VER] if lab[1] == 'pending' else 0)
                if lab[1] == 'pending':
                    e = self.sub(self.sub(e, PH, ph), ND, -2)
                s2 = s2[:9] + (s2[9][:t] + (e,) + s2[9][t + 1:],) + s2[10:]
            else:
                s2 = self.upd(s2, t, ND, b)
            out.append((lab, s2, True))
        if nd == -2:
            pass
        return out

    def waiting(self, s, t):
        """Is thread t waiting to be woken?"""
        me = s[9][t]
        if me[PH] >= len(self.th[t][1]) or me[ND] == -1:
            return False
        if me[ND] == -2:
            return True
        es = self.th[t][1][me[PH]][0].edges[me[ND]]
        return any(l[0] in ('park', 'poll') for l, _ in es)

    def run(self):
        seen = {self.init: None}
        work = deque([self.init])
        n = 0
        while work:
            s = work.popleft()
            n += 1
            if n > self.budget:
                self.unknown['more than %d combined states' % self.budget] = 1
                break
            oblig = False
            succs = []
            stuck = []
            busy = set()
            for t in range(len(self.th)):
                me = s[9][t]
                if me[PH] < len(self.th[t][1]) and me[ND] == -2:
                    # a poll returned Pending: the caller polls again when woken
                    put = lambda e, bud: s[:9] + (s[9][:t] + (e,) + s[9][t + 1:], s[10], bud)
                    if me[WOK] or s[11][1] > 0:
                        a = self.th[t][1][me[PH]][0]
                        e = self.sub(self.sub(me, ND, a.start), WOK, 0)
                        oblig = oblig or bool(me[WOK])
                        if me[WOK]:
                            busy.add(t)
                        s1 = put(e, s[11] if me[WOK] else (s[11][0], s[11][1] - 1, s[11][2]))
                        for v in (me[VER], 1 - me[VER]):
                            s2 = self.moved(s1, t, v)
                            if s2 is not None:
                                succs.append((t, ('poll', v), s2))
                    if s[11][0] > 0:
                        e = self.sub(self.sub(me, ND, -1), PH, self.th[t][1][me[PH]][1])
                        succs.append((t, ('cancel',), put(self.sub(e, VER, 0), (s[11][0] - 1,) + s[11][1:])))
                    continue
                ms = self.moves(s, t)
                ob = [m for m in ms if m[2]]
                if ob and all(self.private(s, t, m[0]) for m in ms):
                    # steps that no other thread can see or prevent: nothing else needs to be tried here
                    succs = [(t, l, s2) for l, s2, _ in ms]
                    oblig = True
                    stuck = []
                    busy = None
                    break
                if ob:
                    oblig = True
                    busy.add(t)
                elif me[PH] < len(self.th[t][1]) and me[ND] >= 0 and not self.waiting(s, t):
                    stuck.append(t)
                succs += [(t, l, s2) for l, s2, _ in ms]
            if not oblig:
                self.quiet(s, stuck)
            elif stuck:
                for t in stuck:
                    es = self.th[t][1][s[9][t][PH]][0].edges[s[9][t][ND]]
                    if s[4] is None or not all(l[0] == 'lock' for l, _ in es):
                        self.unknown['%s cannot go on from %s' % (self.th[t][1][s[9][t][PH]][0].name, es[:2])] = 1
            if busy is None or len(busy) == 1:
                # only one thread is bound to move: it must not go round in circles
                for t, l, s2 in succs:
                    if (busy is None or t in busy) and not self.lazy(s, t, l):
                        self.solo.setdefault(s, []).append((t, s2))
            for t, l, s2 in succs:
                self.nsteps += 1
                if s2 not in seen:
                    seen[s2] = (s, t, l)
                    work.append(s2)
        self.nstates = n
        self.seen = seen
        self.circles()
        return self

    def lazy(self, s, t, l):
        """Steps that a thread cannot repeat for ever: being woken, waiting, a compare-exchange that fails for no reason."""
        if l[0] in ('poll', 'park', 'park_timeout', 'start', 'skip', 'cancel', 'end'):
            return True
        if l[0] in ('q', 'c') and l[1].endswith('weak') and l[4] is False:
            me = s[9][t]
            return any(m[0] == l[0] and m[1] == l[1] and m[2] == l[2] and m[4] is True for m, _ in self.th[t][1][me[PH]][0].edges[me[ND]])
        return False

    def circles(self):
        """A loop of one thread's steps while nobody else is bound to do anything."""
        color = {}
        for r in self.solo:
            if r in color:
                continue
            stack = [(r, None, iter(self.solo[r]))]
            color[r] = 1
            while stack:
                s, tt, it = stack[-1]
                for t, s2 in it:
                    c = color.get(s2)
                    if c == 1:
                        i = next(i for i, x in enumerate(stack) if x[0] == s2)
                        ts = {t} | {x[1] for x in stack[i + 1:]}
                        if len(ts) == 1:
                            self.report(self.th[t][0] + '-spin', 'an operation goes round in circles although nothing changes, instead of waiting', s2, t)
                    elif c is None and s2 in self.solo:
                        color[s2] = 1
                        stack.append((s2, t, iter(self.solo[s2])))
                        break
                else:
                    color[s] = 2
                    stack.pop()

    def quiet(self, s, stuck):
        """Nothing is bound to happen any more: nobody may be waiting for something that is there."""
        ring, closed = s[0], s[1]
        for t in stuck:
            es = self.th[t][1][s[9][t][PH]][0].edges[s[9][t][ND]]
            if any(l[0] == 'lock' for l, _ in es) and s[4] is not None:
                self.report('deadlock', 'the wait queue\'s lock is never released', s, t)
            else:
                self.unknown['%s cannot go on from %s' % (self.th[t][1][s[9][t][PH]][0].name, es[:2])] = 1
                return
        if closed and any(s[9][t][PH] < len(ph) for t, (kk, ph) in enumerate(self.th) if kk == 'rx') and \
                any(s[9][t][PH] < len(ph) for t, (kk, ph) in enumerate(self.th) if kk == 'tx'):
            self.report('false-closed', 'the channel is closed although the receiver and a sender are alive', s, 0)
        gone = {k for k in ('tx', 'rx') if all(s[9][t][PH] >= len(ph) for t, (kk, ph) in enumerate(self.th) if kk == k)}
        for t, (kind, _) in enumerate(self.th):
            if not self.waiting(s, t):
                continue
            if kind == 'rx' and 'tx' in gone and not any(x[0] == 'R' for x in ring):
                self.report('close-wake-rx', 'the receiver keeps waiting although all senders are gone', s, t)
                continue
            if kind == 'tx' and 'rx' in gone:
                self.report('close-wake', 'a sender keeps waiting although the receiver is gone', s, t)
                continue
            if kind == 'rx':
                if any(x[0] == 'R' for x in ring):
                    self.report('rx-wake', 'the receiver keeps waiting although an element is ready', s, t)
                elif closed:
                    self.report('close-wake-rx', 'the receiver keeps waiting although the channel is closed', s, t)
            else:
                if closed:
                    self.report('close-wake', 'a sender keeps waiting although the channel is closed', s, t)
                elif len(ring) < self.cap:
                    self.report('tx-wake', 'a sender keeps waiting although there is room', s, t)

    def opname(self, s, t):
        me = s[9][t]
        phs = self.th[t][1]
        return phs[min(me[PH], len(phs) - 1)][0].name

    def path(self, s):
        out = []
        while self.seen.get(s) is not None:
            p, t, l = self.seen[s]
            out.append((t, l))
            s = p
        return out[::-1]
