"""Smaller analyses: recycling policies, the crate's own lock, allocation reachability, compile-time witnesses."""
import glob, json, os, re, subprocess, tempfile, shutil, time
from terms import *
from core import *
import facts as factsmod
from models import Model, acq, rel as is_rel
from drive import Driver, Root, roots

RULES = {
    'policy-default': "DefaultRecycle hands out T::default() and resets an element to T::default()",
    'policy-capacity': 'WithCapacity allocates at least its minimum, empties a recycled collection and then cuts its capacity to at most its maximum',
    'policy-config': "WithCapacity's builder methods and getters set and return exactly the bound they name; without them there is no bound",
    'policy-forward': 'a policy behind a wrapper is called exactly once, with the same element, and its result is returned',
    'mx-claim': 'a guard is only handed out after an atomic read-modify-write changed the flag from unlocked to locked',
    'mx-acquire': 'that read-modify-write is at least Acquire',
    'mx-release': 'dropping the guard unlocks with a store that is at least Release, exactly once',
    'mx-other': 'nothing else changes the flag, and the data is only reached through a guard',
    'alloc': 'no function of std that may allocate is reachable from an operation (constructors of heap-allocated queues, recycling policies and user code aside)',
    'send-sync': 'a type is Send (Sync) only if its element and policy types allow it, and always for ordinary ones',
    'no-dup': 'receivers implement neither Clone nor Copy',
    'outlive': 'safe code cannot keep a reference, handle or future beyond what it borrows from, nor use one aliased',
}


def last(t):
    return t.get('path', '').split('::')[-1]


# ---------------------------------------------------------------- recycling policies
COLL = r'(vec::Vec|string::String|collections::\w+(::\w+)*|hash::\w+::\w+)'


class PolicyModel(Model):
    def reg_all(self):
        on = self.on
        on(r'^<?S::.*(Vec|String|VecDeque|BinaryHeap|HashMap|HashSet|BTreeMap|BTreeSet).*::capacity$', self.h_capacity)
        super().reg_all()

    def h_capacity(self, eng, st, fn, args, atys, rty):
        nm = eng.fresh_name(st, eng.tag('collcap'))
        eng.symty[nm] = None
        st.mon['y:cap'] = (('s', nm),)
        return eng.deliver(st, ('s', nm))


class PolicyMon:
    def __init__(self, ctx):
        self.ctx = ctx

    def attach(self, e):
        self.e = e

    def start(self, e, st, r):
        self.root = r
        st.mon.update({'y:cap': (), 'y:empty': 0, 'y:shr': 0, 'y:min': 0, 'y:def': (), 'y:cf': 0, 'y:fw': (), 'y:a': (), 'y:odd': 0, 'y:unk': 0})

    def bad(self, st, rule, what):
        self.ctx.report(self.e, st, rule, what, self.root.name)

    def on_start(self, e, st, ev):
        st.mon['y:a'] = tuple(ev.args)
        self.tys = e.P.prep(self.root.inst).locals

    def bound(self, st, name):
        """Value of self.min / self.max."""
        e = self.e
        a = st.mon['y:a'][0]
        t = e.P.strip(self.tys[1])
        if e.T[t]['k'] == 'ref':
            t = e.P.strip(e.T[t]['to'])
            v = e.read(st, a[1], a[2])
        else:
            v = a
        for i, (n, _) in enumerate(e.T[t]['variants'][0]['f']):
            if n == name:
                return e.proj(v, i)
        return None

    def pol(self):
        t = self.root.rec.get('iself')
        return last(self.e.T[self.e.P.strip(t)]) if isinstance(t, int) else ''

    def is_elem(self, st, p):
        """Pointer to the element given to recycle."""
        a = st.mon['y:a']
        return len(a) > 1 and p[0] == 'p' and a[1][0] == 'p' and p[1:3] == a[1][1:3]

    def on_ext_call(self, e, st, ev):
        m = ev.path.split('::')[-1]
        name = self.root.rec['name']
        if self.pol() != 'WithCapacity':
            return
        if m in ('with_capacity', 'with_capacity_and_hasher', 'reserve', 'reserve_exact'):
            x = ev.args[0] if m.startswith('with') else ev.args[1]
            mn = self.bound(st, 'min')
            if mn is not None and x != TOP and (x == mn or e.truth(st, mk_cmp('ge', sub(x, mn))) is True):
                st.mon['y:min'] = 1
            elif x == TOP:
                st.mon['y:unk'] = 1
        elif m == 'clear' or (m == 'truncate' and ev.args[1] == I(0)):
            if self.is_elem(st, ev.args[0]):
                st.mon['y:empty'] = 1
        elif m == 'shrink_to' and self.is_elem(st, ev.args[0]):
            mx = self.bound(st, 'max')
            x = ev.args[1]
            if mx is not None and (x == mx or (x != TOP and e.truth(st, mk_cmp('ge', sub(mx, x))) is True)):
                st.mon['y:shr'] = 1 if st.mon['y:empty'] else 2
            elif x == TOP:
                st.mon['y:unk'] = 1
        elif m == 'shrink_to_fit' and self.is_elem(st, ev.args[0]):
            if st.mon['y:empty']:
                st.mon['y:shr'] = 1
        elif m in ('push', 'push_str', 'push_back', 'insert', 'extend') and self.is_elem(st, ev.args[0]):
            st.mon['y:empty'] = 0
        elif m in ('new', 'default', 'len', 'is_empty', 'hasher'):
            pass
        else:
            st.mon['y:unk'] = 1

    def on_foreign_ret(self, e, st, ev):
        if ev.what == 'Default::default':
            st.mon['y:def'] = st.mon['y:def'] + (ev.val,) if len(st.mon['y:def']) < 3 else st.mon['y:def']
        elif ev.what == 'Clone::clone_from' and ev.args and self.is_elem(st, ev.args[0]):
            src = ev.args[1]
            v = e.read(st, src[1], src[2]) if src[0] == 'p' else TOP
            st.mon['y:cf'] = 1 if v in st.mon['y:def'] else 2
        elif ev.what.startswith('Recycle::'):
            st.mon['y:fw'] = st.mon['y:fw'] + ((ev.what, ev.val, tuple(ev.args)),) if len(st.mon['y:fw']) < 3 else st.mon['y:fw']

    def on_ret(self, e, st, ev):
        name, pol = self.root.rec['name'], self.pol()
        tr = self.root.rec.get('itrait') or ''
        m = st.mon
        if tr.endswith('::Recycle'):
            e.count('policy methods', self.root.name)
            if pol == 'DefaultRecycle':
                if name == 'new_element':
                    if ev.val not in m['y:def']:
                        self.bad(st, 'policy-default', 'new_element does not return T::default()')
                elif name == 'recycle':
                    a = m['y:a'][1]
                    v = e.read(st, a[1], a[2])
                    if m['y:cf'] == 2:
                        self.bad(st, 'policy-default', 'recycle resets the element to something other than T::default()')
                    elif not m['y:cf'] and v not in m['y:def']:
                        self.bad(st, 'policy-default', 'recycle does not reset the element to T::default()')
            elif pol == 'WithCapacity':
                if m['y:unk']:
                    self.ctx.incomplete('use of a collection not understood', self.root.name)
                elif name == 'new_element' and not m['y:min']:
                    self.bad(st, 'policy-capacity', 'new_element does not allocate the minimum capacity')
                elif name == 'recycle':
                    a = m['y:a'][1]
                    v = e.read(st, a[1], a[2])
                    fresh = e.read(new_state(), a[1], a[2]) != v     # replaced by another collection
                    if not m['y:empty'] and not fresh:
                        self.bad(st, 'policy-capacity', 'recycle does not empty the collection')
                    elif not fresh:
                        cap = m['y:cap']
                        mx = self.bound(st, 'max')
                        small = bool(cap) and e.truth(st, mk_cmp('ge', sub(mx, cap[0]))) is True
                        if not m['y:shr'] and not small:
                            self.bad(st, 'policy-capacity', 'recycle does not limit the capacity to the maximum')
                        elif m['y:shr'] == 2:
                            self.bad(st, 'policy-capacity', 'recycle cuts the capacity before it empties the collection')
            elif pol in ('Arc', 'Box', 'Rc') or self.is_ref_policy():
                want = 'Recycle::' + name
                if len(m['y:fw']) != 1 or m['y:fw'][0][0] != want:
                    self.bad(st, 'policy-forward', '%s of a wrapped policy does not call the policy exactly once' % name)
                elif name == 'new_element' and ev.val != m['y:fw'][0][1]:
                    self.bad(st, 'policy-forward', 'new_element of a wrapped policy does not return what the policy returned')
                elif name == 'recycle' and m['y:fw'][0][2][-1][:3] != m['y:a'][1][:3]:
                    self.bad(st, 'policy-forward', 'recycle of a wrapped policy is given another element')
            st.dead = True
            return
        if pol == 'WithCapacity' and not tr:
            e.count('policy methods', self.root.name)
            self.check_config(e, st, ev, name)
        elif pol == 'WithCapacity' and name == 'default':
            self.check_config(e, st, ev, 'new')
        st.dead = True

    def is_ref_policy(self):
        t = self.root.rec.get('iself')
        return isinstance(t, int) and self.e.T[t]['k'] == 'ref'

    def check_config(self, e, st, ev, name):
        f = {n: i for i, (n, _) in enumerate(e.T[e.P.strip(self.root.rec['iself'])]['variants'][0]['f'])}
        if not ('min' in f and 'max' in f):
            return
        get = lambda n: e.proj(ev.val, f[n])
        if name == 'new':
            if get('min') != I(0) or get('max') != I(M64 - 1):
                self.bad(st, 'policy-config', 'a new WithCapacity is not without bounds')
        elif name in ('with_min_capacity', 'with_max_capacity'):
            k = name.split('_')[1]
            o = 'max' if k == 'min' else 'min'
            if get(k) != st.mon['y:a'][1]:
                self.bad(st, 'policy-config', '%s does not set the %simum' % (name, k))
            elif get(o) != self.bound(st, o):
                self.bad(st, 'policy-config', '%s changes the %simum' % (name, o))
        elif name in ('min_capacity', 'max_capacity'):
            k = name.split('_')[0]
            if ev.val != self.bound(st, k):
                self.bad(st, 'policy-config', '%s does not return the %simum' % (name, k))


# ---------------------------------------------------------------- the crate's own lock
class MutexMon:
    def __init__(self, ctx):
        self.ctx = ctx

    def attach(self, e):
        self.e = e

    def bad(self, st, rule, what):
        self.ctx.report(self.e, st, rule, what)

    def start(self, e, st, r):
        self.root = r
        st.mon.update({'m:held': 0, 'm:acq': 0, 'm:rel': 0, 'm:pend': (), 'm:fence': 0, 'm:rf': 0})
        self.guard = r.kind == 'drop'

    def is_flag(self, ev):
        return ev.role is not None and ev.role[0] in ('Mutex', 'MutexGuard')

    def on_fence(self, e, st, ev):
        if acq(ev.ord) and st.mon['m:held']:
            st.mon['m:acq'] = 1
        if is_rel(ev.ord):
            st.mon['m:rf'] = 1

    def on_atomic(self, e, st, ev):
        e.count('accesses of the lock flag', (e.site(st), ev.op))
        if ev.new is None or ev.ok is False:
            return
        new = ev.new
        n = new[1] if new[0] == 'i' else None
        if n is None:
            r = e.truth(st, mk_cmp('eq', new))
            n = None if r is None else (0 if r else 1)
        o = None
        if ev.old is not None:
            r = e.truth(st, mk_cmp('eq', ev.old))
            o = None if r is None else (0 if r else 1)
        if ev.op == 'store':
            if n == 0:
                return self.unlocked(e, st, ev)
            self.bad(st, 'mx-claim', 'the lock is taken with a plain store')
            return
        if n == 0:
            return self.unlocked(e, st, ev)
        if n is None:
            self.ctx.incomplete('value written to the lock flag not understood', e.site(st))
            return
        if st.mon['m:held']:
            self.bad(st, 'mx-claim', 'the lock is taken twice')
            return
        a = int(acq(ev.ords[0]))
        if o == 0:
            st.mon['m:held'], st.mon['m:acq'] = 1, a
        elif o is None:
            st.mon['m:pend'] = (ev.old, a)

    def unlocked(self, e, st, ev):
        own = st.mon['m:held'] or self.guard
        if not own:
            self.bad(st, 'mx-other', 'the lock is released by somebody who does not hold it')
            return
        if st.mon['m:rel']:
            self.bad(st, 'mx-release', 'the lock is released twice')
            return
        if not is_rel(ev.ords[0]) and not st.mon['m:rf']:
            self.bad(st, 'mx-release', 'the lock is released without Release ordering')
            return
        st.mon['m:rel'] = 1
        st.mon['m:held'] = 0
        self.guard_gone = True

    def has_guard(self, v, ty):
        e = self.e
        ty = e.P.strip(ty)
        t = e.T[ty]
        if t['k'] == 'adt' and t.get('local') and last(t) == 'MutexGuard':
            return True
        if t.get('np') in ('S::option::Option', 'S::result::Result') and v[0] == 'a':
            fs = e.P.fields(ty, v[1])
            return any(self.has_guard(x, f) for x, f in zip(v[2], fs))
        return False

    def on_ret(self, e, st, ev):
        held = st.mon['m:held']
        if st.mon['m:pend'] and not held:
            r = e.truth(st, mk_cmp('eq', st.mon['m:pend'][0]))
            if r is True:
                held = st.mon['m:held'] = 1
                st.mon['m:acq'] = st.mon['m:acq'] or st.mon['m:pend'][1]
            elif r is None and self.has_guard(ev.val, ev.ty):
                self.bad(st, 'mx-claim', 'a guard is handed out although the lock may have been held already')
                return
        if self.has_guard(ev.val, ev.ty):
            e.count('guards handed out', self.root.name)
            if not held:
                self.bad(st, 'mx-claim', 'a guard is handed out without taking the lock')
            elif not st.mon['m:acq']:
                self.bad(st, 'mx-acquire', 'the lock is taken without Acquire ordering')
        elif held:
            self.bad(st, 'mx-release', 'the lock is taken but no guard is handed out')

    def on_end(self, e, st, ev):
        if self.root.kind == 'drop':
            e.count('guards dropped', self.root.name)
            if not st.mon['m:rel']:
                self.bad(st, 'mx-release', 'dropping the guard does not release the lock')
        elif st.mon['m:held']:
            self.bad(st, 'mx-release', 'dropping the guard does not release the lock')

    def on_unwound(self, e, st, ev):
        pass


# ---------------------------------------------------------------- allocation
ALLOC = re.compile(
    r'^S::alloc::(alloc|alloc_zeroed|realloc|exchange_malloc|__rust_alloc|Global)|'
    r'^<?S::(boxed::Box|sync::(Arc|Mutex|RwLock|Condvar|mpsc)|rc::Rc)[^>]*>*(::<[^>]*>)*::(new|from|pin|new_uninit|new_cyclic|clone_from_slice|make_mut|try_new|default|from_iter|new_uninit_slice)\b|'
    r'::(collect|to_vec|to_owned|to_string|into_boxed_slice|into_boxed_str|from_iter|join|concat|repeat|into_vec|box_new|box_new_uninit)(::<.*)?$|'
    r'^<?S::(vec|string|collections)::.*::(with_capacity(_and_hasher|_in)?|push|push_str|push_back|push_front|reserve|reserve_exact|extend|extend_from_slice|insert|insert_str|append|resize|resize_with|shrink_to|shrink_to_fit|clone|clone_from|from|entry|split_off|spare_capacity)(::<.*)?$|'
    r'^S::vec::from_elem|^S::fmt::format|^S::fmt::format::|^S::slice::hack|^S::thread::(spawn|Builder|scope)|^S::io::|^S::ffi::')


def graph(P, inst):
    """Instances and external functions reachable from an instance, with the path to each."""
    seen = {inst: None}
    ext = {}
    todo = [inst]

    def fnref(f, src, sp):
        if 'ctor' in f:
            return
        if f.get('rk') in ('unresolved', 'virtual'):
            return
        n = f.get('inst')
        path = np(f.get('rpath') or f['path'])
        if n is not None and P.I[n] and P.I[n].get('blocks') and P.I[n].get('local'):
            if n not in seen:
                seen[n] = src
                todo.append(n)
            return
        ext.setdefault(path, (src, sp))

    def dtors(ty, src, done):
        if not isinstance(ty, int) or ty in done:
            return
        done.add(ty)
        t = P.T[ty]
        if not t.get('nd'):
            return
        if 'dtor' in t and t['dtor'].get('inst') is not None:
            n = t['dtor']['inst']
            if n not in seen and P.I[n] and P.I[n].get('blocks'):
                seen[n] = src
                todo.append(n)
        if t['k'] == 'adt':
            for v in t.get('variants') or ():
                for f in v['f']:
                    dtors(f[1], src, done)
            for a in t.get('args') or ():
                if not t.get('local'):
                    dtors(a, src, done)
        for f in t.get('fields') or ():
            dtors(f, src, done)
        if isinstance(t.get('elem'), int):
            dtors(t['elem'], src, done)
        if t['k'] == 'coroutine' and t.get('inst') is not None and t['inst'] not in seen:
            seen[t['inst']] = src
            todo.append(t['inst'])

    def operand(o, src, sp):
        c = o.get('c') if isinstance(o, dict) else None
        if c and 'fn' in c:
            fnref(c['fn'], src, sp)

    def closures(ty, src):
        """Closures and coroutines built here may be called."""
        t = P.T[ty]
        if t['k'] in ('closure', 'coroutine') and t.get('inst') is not None and t['inst'] not in seen:
            seen[t['inst']] = src
            todo.append(t['inst'])
    done = set()
    while todo:
        n = todo.pop()
        i = P.I[n]
        for b in i['blocks']:
            for s in b['s']:
                if s['k'] == '=':
                    r = s['r']
                    for k in ('o', 'a', 'b'):
                        if isinstance(r.get(k), dict):
                            operand(r[k], n, s.get('sp'))
                    for o in r.get('ops') or ():
                        operand(o, n, s.get('sp'))
                    if r['k'] == 'agg' and isinstance(r.get('t'), int):
                        closures(r['t'], n)
            t = b['t']
            if t['k'] == 'call':
                operand(t['f'], n, t.get('sp'))
                for a in t['a']:
                    operand(a, n, t.get('sp'))
            elif t['k'] == 'drop':
                dtors(t['p'].get('t'), n, done)
        for l in i['locals']:
            # values dropped implicitly (the MIR is taken before drop elaboration) have drop terminators; boxed closures too
            pass
    return seen, ext


class AllocAnalysis:
    def __init__(self, P, rules, config):
        from analyses import Ctx
        self.P = P
        self.ctx = Ctx(rules)
        self.rules = rules
        self.config = config
        self.eng = None

    def tasks(self):
        from analyses import CtorAnalysis
        P = self.P
        A = CtorAnalysis(P, set(), self.config)
        ctors = {r.name for r in A.roots() if 'Static' not in r.name}
        out = []
        for r in roots(P):
            if 'recycling' in r.name or r.name in ctors:
                continue
            if r.kind == 'fn' and self.heap_ctor(r):
                continue
            out.append((r.name, r))
        return out

    def heap_ctor(self, r):
        """Builds a heap-allocated queue or channel: no argument is one."""
        P = self.P
        pr = P.prep(r.inst)
        n = r.rec['name']
        if 'Static' in r.name:
            return False
        return (n in ('new', 'default', 'channel', 'with_recycle', 'build') or n.startswith(('with_', 'new_', 'from'))) and \
            not any(P.T[t]['k'] == 'ref' for t in pr.locals[1:1 + pr.argc])

    def run(self, r):
        P = self.P
        t0 = time.time()
        vio = []
        if r.kind == 'fn':
            start = [r.inst]
            rt = P.prep(r.inst).locals[0]
            if P.T[rt]['k'] == 'coroutine':
                start.append(P.T[rt]['inst'])
        else:
            start = []
            todo, dn = [r.ty], set()
            while todo:
                t = todo.pop()
                if t in dn or not isinstance(t, int):
                    continue
                dn.add(t)
                ty = P.T[t]
                if 'dtor' in ty and ty['dtor'].get('inst') is not None:
                    start.append(ty['dtor']['inst'])
                for v in ty.get('variants') or ():
                    todo += [f[1] for f in v['f']]
                todo += [a for a in ty.get('args') or () if isinstance(a, int)]
        funcs, exts = set(), set()
        for s in start:
            seen, ext = graph(P, s)
            funcs |= set(seen)
            exts |= set(ext)
            for p, (src, sp) in ext.items():
                if not ALLOC.search(p) or 'alloc' not in self.rules:
                    continue
                chain, c = [], src
                while c is not None:
                    chain.append(P.I[c]['path'])
                    c = seen[c]
                vio.append({'rule': 'alloc', 'construct': P.I[src]['path'], 'what': 'calls %s, which may allocate' % re.sub(r'::<.*?>', '', p),
                            'stack': chain, 'path': [str(sp)]})
        return {'root': r.name, 'violations': vio, 'counts': {'external functions reached': [(x,) for x in sorted(exts)]},
                'functions': [P.I[i]['path'] for i in funcs], 'unknown': {}, 'blocks': sum(len(P.I[i]['blocks']) for i in funcs),
                'states': 0, 'wall': time.time() - t0}


# ---------------------------------------------------------------- witnesses
PRE = '''#![allow(dead_code, unused)]
use std::marker::PhantomData;
use std::cell::Cell;
struct IsSend<T: ?Sized>(PhantomData<T>); trait NoSend { const V: bool = false; } impl<T: ?Sized> NoSend for IsSend<T> {} impl<T: ?Sized + Send> IsSend<T> { const V: bool = true; }
struct IsSync<T: ?Sized>(PhantomData<T>); trait NoSync { const V: bool = false; } impl<T: ?Sized> NoSync for IsSync<T> {} impl<T: ?Sized + Sync> IsSync<T> { const V: bool = true; }
struct IsClone<T: ?Sized>(PhantomData<T>); trait NoClone { const V: bool = false; } impl<T: ?Sized> NoClone for IsClone<T> {} impl<T: Clone> IsClone<T> { const V: bool = true; }
/// neither Send nor Sync
#[derive(Default, Clone)] struct Neither(PhantomData<*const ()>);
/// Send but not Sync
#[derive(Default, Clone)] struct OnlySend(Cell<u8>);
/// Sync but not Send
#[derive(Default, Clone)] struct OnlySync(PhantomData<*const ()>); unsafe impl Sync for OnlySync {}
#[derive(Default, Clone)] struct Plain(u32);
/// policies
macro_rules! policy { ($p:ty) => { impl thingbuf::recycling::Recycle<Plain> for $p { fn new_element(&self) -> Plain { Plain(0) } fn recycle(&self, e: &mut Plain) {} } }; }
policy!(Neither); policy!(OnlySend); policy!(OnlySync);
'''


def deps(config):
    """The compiled crate of a configuration and the folders with its dependencies."""
    target = os.path.join(factsmod.BUILD, 'target-' + config, 'debug')
    metas = glob.glob(os.path.join(target, '**', 'libthingbuf-*.rmeta'), recursive=True)
    if not metas:
        return None, []
    dirs = sorted({os.path.dirname(f) for f in glob.glob(os.path.join(target, '**', '*.rmeta'), recursive=True)
                   + glob.glob(os.path.join(target, '**', '*.so'), recursive=True) + glob.glob(os.path.join(target, '**', '*.rlib'), recursive=True)})
    return max(metas, key=os.path.getmtime), dirs


def compile_src(src, rmeta, dirs, name='w'):
    d = tempfile.mkdtemp(prefix='witness')
    try:
        f = os.path.join(d, name + '.rs')
        with open(f, 'w') as h:
            h.write(src)
        cmd = ['rustc', '+' + factsmod.TOOLCHAIN, '--edition', '2021', '--crate-type', 'lib', '--emit=metadata', '--error-format=json',
               '--out-dir', d, '--extern', 'thingbuf=' + rmeta]
        for x in dirs:
            cmd += ['-L', 'dependency=' + x]
        p = subprocess.run(cmd + [f], env=factsmod._env(), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        errs = []
        for l in p.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('level') == 'error':
                errs.append(((m.get('code') or {}).get('code'), m['message'], [s['line_start'] for s in m.get('spans', []) if s.get('is_primary')]))
        return p.returncode, errs
    finally:
        shutil.rmtree(d)


class Assertions:
    """Types exported by the crate and what must (not) hold of them."""

    def __init__(self, config):
        std = config != 'nostd'
        self.lines = []
        A = ['thingbuf::mpsc']
        if std:
            A.append('thingbuf::mpsc::blocking')
        elems = ('Neither', 'OnlySend', 'OnlySync', 'Plain')
        send = {'OnlySend', 'Plain'}
        sync = {'OnlySync', 'Plain'}
        # type, may it be Send for element e, may it be Sync for element e
        owners = [('thingbuf::ThingBuf<%s>', 'ThingBuf'), ('thingbuf::StaticThingBuf<%s, 4>', 'StaticThingBuf')]
        for m in A:
            owners += [(m + '::Sender<%s>', m + '::Sender'), (m + '::Receiver<%s>', m + '::Receiver'),
                       (m + '::StaticChannel<%s, 4>', m + '::StaticChannel'),
                       (m + '::StaticSender<%s>', m + '::StaticSender'), (m + '::StaticReceiver<%s>', m + '::StaticReceiver')]
        refs = [("thingbuf::Ref<'static, %s>", 'Ref')]
        for m in A:
            refs += [(m + "::SendRef<'static, %s>", m + '::SendRef'), (m + "::RecvRef<'static, %s>", m + '::RecvRef')]
        futs = [("thingbuf::mpsc::RecvFuture<'static, %s>", 'RecvFuture'), ("thingbuf::mpsc::RecvRefFuture<'static, %s>", 'RecvRefFuture')]
        errs = [('thingbuf::Full<%s>', 'Full'), ('thingbuf::mpsc::errors::TrySendError<%s>', 'TrySendError'), ('thingbuf::mpsc::errors::Closed<%s>', 'Closed')]
        for f, n in owners + futs:
            for x in elems:
                if x not in send:
                    self.no('Send', f % x, n, 'its elements are not Send')
                    self.no('Sync', f % x, n, 'its elements are not Send')
        for f, n in refs:
            for x in elems:
                if x not in send:
                    self.no('Send', f % x, n, 'its element is not Send')
                if x not in sync:
                    self.no('Sync', f % x, n, 'its element is not Sync')
        for f, n in errs:
            for x in elems:
                if x not in send:
                    self.no('Send', f % x, n, 'its element is not Send')
                if x not in sync:
                    self.no('Sync', f % x, n, 'its element is not Sync')
        for f, n in owners + refs + futs + errs:
            self.yes('Send', f % 'Plain', n)
            self.yes('Sync', f % 'Plain', n)
        # policies
        pol = [('thingbuf::ThingBuf<Plain, %s>', 'ThingBuf'), ('thingbuf::StaticThingBuf<Plain, 4, %s>', 'StaticThingBuf')]
        hand = []
        for m in A:
            pol += [(m + '::StaticChannel<Plain, 4, %s>', m + '::StaticChannel')]
            hand += [(m + '::Sender<Plain, %s>', m + '::Sender'), (m + '::Receiver<Plain, %s>', m + '::Receiver'),
                     (m + '::StaticSender<Plain, %s>', m + '::StaticSender'), (m + '::StaticReceiver<Plain, %s>', m + '::StaticReceiver')]
        for f, n in pol:
            self.no('Send', f % 'OnlySync', n, 'its policy is not Send')
            self.no('Sync', f % 'OnlySend', n, 'its policy is not Sync')
            for k in ('Send', 'Sync'):
                self.no(k, f % 'Neither', n, 'its policy is neither')
        for f, n in hand:
            # the policy is shared by all handles
            for k in ('Send', 'Sync'):
                self.no(k, f % 'OnlySend', n, 'the policy it shares is not Sync')
                self.no(k, f % 'Neither', n, 'its policy is neither')
        self.no_clone = []
        for m in A:
            for t in ('Receiver', 'StaticReceiver'):
                self.lines.append(('no-dup', 'const _: () = assert!(!IsClone::<%s::%s<Plain>>::V, "x");' % (m, t), m + '::' + t, 'a receiver can be cloned'))

    def no(self, k, t, n, why):
        self.lines.append(('send-sync', 'const _: () = assert!(!Is%s::<%s>::V, "x");' % (k, t), n, '%s is %s although %s' % (t, k, why)))

    def yes(self, k, t, n):
        self.lines.append(('send-sync', 'const _: () = assert!(Is%s::<%s>::V, "x");' % (k, t), n, '%s is not %s although its element is' % (t, k)))


# programs that must not compile: (rule, construct, what it would mean, source, wanted error codes)
FAILS = [
    ('outlive', 'thingbuf::ThingBuf', 'a reference obtained by push_ref can outlive the queue',
     'fn f() { let r; { let q = thingbuf::ThingBuf::<Plain>::new(2); r = q.push_ref().unwrap(); } drop(r); }', 'E0597'),
    ('outlive', 'thingbuf::ThingBuf', 'a reference obtained by pop_ref can outlive the queue',
     'fn f() { let r; { let q = thingbuf::ThingBuf::<Plain>::new(2); r = q.pop_ref().unwrap(); } drop(r); }', 'E0597'),
    ('outlive', 'thingbuf::StaticThingBuf', 'a reference obtained by push_ref can outlive the queue',
     'fn f() { let r; { let q = thingbuf::StaticThingBuf::<Plain, 2>::new(); r = q.push_ref().unwrap(); } drop(r); }', 'E0597'),
    ('outlive', 'thingbuf::StaticThingBuf', 'a reference obtained by pop_ref can outlive the queue',
     'fn f() { let r; { let q = thingbuf::StaticThingBuf::<Plain, 2>::new(); r = q.pop_ref().unwrap(); } drop(r); }', 'E0597'),
    ('outlive', 'thingbuf::Ref', 'the element behind a reference can be borrowed mutably and shared at once',
     'fn f(q: &thingbuf::ThingBuf<Plain>) { let mut r = q.push_ref().unwrap(); let a = &mut *r; let b = &*r; a.0 = 1; drop(b.0); }', 'E0502'),
    ('outlive', 'thingbuf::Ref', 'the element behind a reference can be borrowed mutably twice',
     'fn f(q: &thingbuf::ThingBuf<Plain>) { let mut r = q.push_ref().unwrap(); let a = &mut *r; let b = &mut *r; a.0 = 1; b.0 = 2; }', 'E0499'),
    ('outlive', 'thingbuf::Ref', 'the element behind a reference can be kept after the reference is dropped',
     'fn f(q: &thingbuf::ThingBuf<Plain>) -> u32 { let r = q.pop_ref().unwrap(); let a: &Plain = &*r; drop(r); a.0 }', 'E0505'),
    ('outlive', 'thingbuf::ThingBuf', 'the closure given to push_with can let the element escape',
     "fn f(q: &thingbuf::ThingBuf<Plain>) { let mut o: Option<&mut Plain> = None; let _ = q.push_with(|e| { o = Some(e); }); }", 'E0521'),
    ('outlive', 'thingbuf::ThingBuf', 'the closure given to pop_with can let the element escape',
     "fn f(q: &thingbuf::ThingBuf<Plain>) { let mut o: Option<&mut Plain> = None; let _ = q.pop_with(|e| { o = Some(e); }); }", 'E0521'),
    ('outlive', 'thingbuf::StaticThingBuf', 'the closure given to push_with can let the element escape',
     "fn f(q: &thingbuf::StaticThingBuf<Plain, 2>) { let mut o: Option<&mut Plain> = None; let _ = q.push_with(|e| { o = Some(e); }); }", 'E0521'),
    ('outlive', 'thingbuf::StaticThingBuf', 'the closure given to pop_with can let the element escape',
     "fn f(q: &thingbuf::StaticThingBuf<Plain, 2>) { let mut o: Option<&mut Plain> = None; let _ = q.pop_with(|e| { o = Some(e); }); }", 'E0521'),
]
for _m, _ok in (('thingbuf::mpsc', 1), ('thingbuf::mpsc::blocking', 2)):
    _b = _ok == 2
    for _s, _r, _pre in (('Sender', 'Receiver', ''), ('StaticSender', 'StaticReceiver', 'Static')):
        FAILS += [
            ('outlive', _m + '::' + _s, 'a reference obtained by try_send_ref can outlive the sender',
             "fn f(tx: %s::%s<Plain>) { let r = tx.try_send_ref().unwrap(); drop(tx); drop(r); }" % (_m, _s), 'E0505'),
            ('outlive', _m + '::' + _r, 'a reference obtained by try_recv_ref can outlive the receiver',
             "fn f(rx: %s::%s<Plain>) { let r = rx.try_recv_ref(); drop(rx); let _ = r.unwrap(); }" % (_m, _r), 'E0505'),
        ]
        if _b:
            FAILS += [
                ('outlive', _m + '::' + _s, 'a reference obtained by send_ref can outlive the sender',
                 "fn f(tx: %s::%s<Plain>) { let r = tx.send_ref().unwrap(); drop(tx); drop(r); }" % (_m, _s), 'E0505'),
                ('outlive', _m + '::' + _r, 'a reference obtained by recv_ref can outlive the receiver',
                 "fn f(rx: %s::%s<Plain>) { let r = rx.recv_ref(); drop(rx); drop(r); }" % (_m, _r), 'E0505'),
                ('outlive', _m + '::' + _s, 'a reference obtained by send_ref_timeout can outlive the sender',
                 "fn f(tx: %s::%s<Plain>) { let r = tx.send_ref_timeout(std::time::Duration::from_secs(1)); drop(tx); drop(r.ok()); }" % (_m, _s), 'E0505'),
                ('outlive', _m + '::' + _r, 'a reference obtained by recv_ref_timeout can outlive the receiver',
                 "fn f(rx: %s::%s<Plain>) { let r = rx.recv_ref_timeout(std::time::Duration::from_secs(1)); drop(rx); drop(r.ok()); }" % (_m, _r), 'E0505'),
            ]
        else:
            FAILS += [
                ('outlive', _m + '::' + _s, 'a send future can outlive the sender',
                 "fn f(tx: %s::%s<Plain>) { let r = tx.send_ref(); drop(tx); drop(r); }" % (_m, _s), 'E0505'),
                ('outlive', _m + '::' + _r, 'a receive future can outlive the receiver',
                 "fn f(rx: %s::%s<Plain>) { let r = rx.recv_ref(); drop(rx); drop(r); }" % (_m, _r), 'E0505'),
                ('outlive', _m + '::' + _r, 'a receive future can outlive the receiver',
                 "fn f(rx: %s::%s<Plain>) { let r = rx.recv(); drop(rx); drop(r); }" % (_m, _r), 'E0505'),
                ('send-sync', _m + '::' + _s, 'the future of send can be sent although the element is not Send',
                 "fn s<T: Send>(_: T) {} fn f(tx: &'static %s::%s<Neither>) { s(tx.send(Neither::default())) }" % (_m, _s), 'E0277'),
                ('send-sync', _m + '::' + _s, 'the future of send_ref can be sent although the element is not Send',
                 "fn s<T: Send>(_: T) {} fn f(tx: &'static %s::%s<Neither>) { s(tx.send_ref()) }" % (_m, _s), 'E0277'),
            ]
    FAILS.append(('one-rx', _m + '::StaticChannel', 'a channel that is not static can be split',
                  "fn f() { let c = %s::StaticChannel::<Plain, 2>::new(); let (tx, rx) = c.split(); drop((tx, rx)); }" % _m, 'E0597'))

# programs that must compile
PASSES = [
    ('send-sync', 'thingbuf::mpsc::Sender', "the futures of an ordinary channel cannot be sent", '''
fn s<T: Send>(_: T) {}
fn a(tx: &'static thingbuf::mpsc::Sender<Plain>) { s(tx.send(Plain(1))); s(tx.send_ref()); }
fn b(tx: &'static thingbuf::mpsc::StaticSender<Plain>) { s(tx.send(Plain(1))); s(tx.send_ref()); }
fn c(rx: &'static thingbuf::mpsc::Receiver<Plain>) { s(rx.recv()); s(rx.recv_ref()); }
fn d(rx: &'static thingbuf::mpsc::StaticReceiver<Plain>) { s(rx.recv()); s(rx.recv_ref()); }
static CH: thingbuf::mpsc::StaticChannel<Plain, 4> = thingbuf::mpsc::StaticChannel::new();
static Q: thingbuf::StaticThingBuf<Plain, 4> = thingbuf::StaticThingBuf::new();
'''),
]


class WitnessAnalysis:
    """Compile-time witnesses: assertions about auto traits and programs that must (not) type-check against the crate."""

    def __init__(self, P, rules, config):
        from analyses import Ctx
        self.P, self.rules, self.config = P, rules, config
        self.eng = None
        self.ctx = Ctx(rules)

    def tasks(self):
        out = []
        if 'send-sync' in self.rules or 'no-dup' in self.rules:
            out.append(('assertions', Root('w', 'assertions')))
        for i, f in enumerate(FAILS):
            if f[0] in self.rules and not (self.config == 'nostd' and 'blocking' in f[3]):
                out.append((f[2], Root('f', f[1] + ': ' + f[2], rec=f)))
        for p in PASSES:
            if p[0] in self.rules:
                out.append((p[2], Root('p', p[1] + ': must compile', rec=p)))
        return out

    def run(self, r):
        t0 = time.time()
        rmeta, dirs = deps(self.config)
        vio, counts, unknown = [], {}, {}
        if rmeta is None:
            raise RuntimeError('no compiled crate to check against')

        def add(rule, construct, what, path=()):
            vio.append({'rule': rule, 'construct': construct, 'what': what, 'stack': [], 'path': list(path)})
        if r.kind == 'w':
            A = Assertions(self.config)
            ls = [l for l in A.lines if l[0] in self.rules]
            # name resolution or bound errors would hide the assertions: such lines are dropped and reported as not decided
            skip = set()
            for _ in range(3):
                src = PRE + '\n'.join('' if i in skip else l[1].replace('"x"', '"W%d."' % i) for i, l in enumerate(ls)) + '\n'
                n0 = PRE.count('\n')
                rc, errs = compile_src(src, rmeta, dirs)
                other = {ln - n0 - 1 for c, m, lns in errs for ln in lns if c != 'E0080'} & set(range(len(ls)))
                if not other:
                    break
                skip |= other
            hit = {int(x) for c, m, lns in errs if c == 'E0080' for x in re.findall(r'W(\d+)\.', m)} & set(range(len(ls)))
            for i in sorted(skip):
                unknown.setdefault('assertion does not type-check', []).append(ls[i][1])
            if rc != 0 and not hit and not skip:
                unknown.setdefault('witness does not compile', []).append(str(errs[:3]))
            for i in sorted(hit):
                add(ls[i][0], ls[i][2], ls[i][3], [ls[i][1]])
            counts['assertions about types'] = [(l[1],) for i, l in enumerate(ls) if i not in skip]
        elif r.kind == 'f':
            rule, con, what, src, want = r.rec
            rc, errs = compile_src(PRE + src, rmeta, dirs)
            counts['programs that must be rejected'] = [(con, what)]
            codes = {c for c, m, l in errs}
            if rc == 0:
                add(rule, con, what, [src])
            elif want not in codes:
                # rejected for another reason: see whether it is one of the borrow or trait errors
                if not codes & {'E0597', 'E0505', 'E0502', 'E0499', 'E0521', 'E0277', 'E0716', 'E0506', 'E0373', 'E0515'}:
                    unknown.setdefault('witness is rejected for another reason', []).append('%s: %s' % (con, sorted(map(str, codes))))
        else:
            rule, con, what, src = r.rec
            rc, errs = compile_src(PRE + src, rmeta, dirs)
            counts['programs that must be accepted'] = [(con, what)]
            if rc != 0:
                if any(c == 'E0277' for c, m, l in errs):
                    add(rule, con, what, [m for c, m, l in errs][:3])
                else:
                    unknown.setdefault('witness does not compile', []).append(str(errs[:3]))
        return {'root': r.name, 'violations': vio, 'counts': counts, 'functions': [], 'unknown': unknown, 'blocks': 0, 'states': 0, 'wall': time.time() - t0}
