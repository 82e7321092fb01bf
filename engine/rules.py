"""Obligation bookkeeping and the reusable rules (locksets, lock order, wake-ups) the checks are built from."""
import json, os, pickle, re, sys, time
from terms import *
from prog import bare, is_ref, split_targs, AnalysisBroken, load, INTS
import prog
from absint import Interp, Path, canon, CxxThrow
import models

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TC_REPO', '/repo')
LAW_S = int(os.environ.get('TC_LAW_S', '60'))      # seconds for the paths of one law


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []          # (rule, where, ok)
        self.viol = []         # dict(key, rule, where, msg, trace)
        self.analysed = {}     # root -> paths
        self.P = None
        self.notes = []
        self.assume = []

    def load(self, *sources):
        self.P = load(list(sources))
        return self.P

    def ob(self, rule, where, ok, msg='', key=None, ev=None, path=None):
        """one obligation: `where` names the construct, `msg` says what is wrong with it"""
        self.obs.append((rule, where, bool(ok)))
        if not ok:
            k = key or ('%s@%s' % (rule, where))
            if not any(v['key'] == k for v in self.viol):
                tr = []
                if path is not None:
                    tr = trace(path)
                self.viol.append(dict(key=k, rule=rule, where=where, msg=msg, at=loc(ev) if ev else None, trace=tr))
        return bool(ok)

    def count(self, name, n):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def need(self, cond, what):
        """the analysis has something to look at; otherwise it is broken, not passing"""
        if not cond:
            raise AnalysisBroken('nothing to analyse: ' + what)


def loc(e):
    f = e['file']
    if f.startswith(REPO):
        f = f[len(REPO) + 1:]
    return '%s:%s (%s)' % (f, e['line'], e['fn'])


def trace(path):
    out = []
    for e in path.events:
        if e['kind'] in ('enter', 'leave', 'iterate', 'movefrom', 'it_deref', 'switch'):
            continue
        s = '%s:%s %s' % (e['file'].split('/')[-1], e['line'], e['kind'])
        for x in ('place', 'mutex', 'cv'):
            if isinstance(e.get(x), tuple):
                s += ' ' + show_place(e[x])
        for x in ('op', 'callee'):
            if e.get(x) is not None:
                s += ' ' + (show(e[x]) if isinstance(e[x], tuple) else str(e[x]))
        if e['locks']:
            s += ' {' + ','.join(show_place(l[0]) for l in e['locks']) + '}'
        out.append(s[:220])
    out.append('end: %s %s' % (path.end, path.exc.t if path.exc else ''))
    out += ['fact: %s = %s' % (show(a)[:160], b) for a, b in list(path.facts.items())[:25]]
    return out


# ------------------------------------------------------------------ program model
def methods(P, cls, access=('public',), kinds=(None,)):
    """fids of the class's methods with bodies (cls: name without template arguments)"""
    out = []
    for fid, f in P.fns.items():
        r = P.ref(fid) or {}
        c = r.get('cls')
        if not c or split_targs(c)[0] != cls:
            continue
        if access and ('public', 'protected', 'private', 'none')[r.get('access', 3)] not in access:
            continue
        if (r.get('k') or None) not in kinds:
            continue
        if r.get('deleted') or f.get('body') is None:
            continue
        out.append(fid)
    return sorted(out, key=lambda x: P.fns[x]['qn'] + x)


def named(P, cls, name, **kw):
    r = [f for f in methods(P, cls, **kw) if (P.ref(f) or {}).get('n') == name]
    if not r:
        raise AnalysisBroken('no body found for %s::%s' % (cls, name))
    return r


def sig(P, fid):
    f = P.fns[fid]
    q = f['qn']
    return q if len(q) < 150 else f['sq'] + '<..>'


def ctor_fids(P, cls):
    return methods(P, cls, access=None, kinds=('ctor',))


def dtor_fids(P, cls):
    return methods(P, cls, access=None, kinds=('dtor',))


def fns_named(P, sq):
    r = [fid for fid, f in P.fns.items() if f['sq'] == sq and f.get('body') is not None]
    if not r:
        raise AnalysisBroken('no body found for ' + sq)
    return sorted(r)


def record(P, cls):
    return [r for t, r in P.recs.items() if split_targs(t)[0] == cls and r.get('lib')]


def field_types(P, cls):
    for t, r in P.recs.items():
        if split_targs(t)[0] == cls and r.get('lib') and r.get('fields') is not None:
            return {f['n']: f['t'] for f in r['fields']}
    raise AnalysisBroken('class %s not found' % cls)


SYNC_HEADS = ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::timed_mutex', 'std::recursive_timed_mutex', 'std::shared_timed_mutex',
              'std::condition_variable', 'std::condition_variable_any', 'std::latch', 'std::barrier', 'std::once_flag', 'std::binary_semaphore', 'std::counting_semaphore', 'std::stop_source')


def is_sync_type(t):
    h = split_targs(bare(t))[0]
    return h in SYNC_HEADS or h in ('std::atomic', 'std::atomic_flag') or h.startswith('std::__atomic')


class Runs:
    """abstract paths of the roots of one class, with the guards its own code establishes"""

    def __init__(self, P, cls, guards=None, throws=None, no_inline=None, numeric_prune=False, **kw):
        self.P, self.cls = P, cls
        self.guards = guards or {}
        self.throws = throws
        self.no_inline = no_inline
        self.kw = dict(kw, numeric_prune=numeric_prune)
        self.cache = {}

    def interp(self, **kw):
        d = dict(self.kw)
        d.update(kw)
        return Interp(self.P, guards=self.guards, throws=self.throws, no_inline=self.no_inline, **d)

    def paths(self, fid, **kw):
        key = (fid, tuple(sorted(kw.items())))
        if key not in self.cache:
            self.cache[key] = self.interp(**kw).run(fid)
        return self.cache[key]

    def thread_paths(self, fid):
        """paths of the threads started by root fid, from their first instruction"""
        out = []
        for p in self.paths(fid, fork=('spawn',), monotone=True):
            i = next((i for i, e in enumerate(p.events) if e['kind'] == 'thread_start'), None)
            if i is None:
                continue
            q = Path()
            q.end, q.ret, q.exc, q.facts, q.mem, q.line, q.I = p.end, p.ret, p.exc, p.facts, p.mem, p.line, p.I
            q.events = p.events[i:]
            q.nf0 = p.events[i]['nf']
            out.append(q)
        return out


class Root:
    def __init__(self, fid, name, kind, paths, many=True):
        self.fid, self.name, self.kind, self.paths, self.many = fid, name, kind, paths, many


def class_roots(P, cls, runs, ctor=False, dtor=True, extra=()):
    """public methods, destructor, and the threads they start"""
    roots = []
    for fid in methods(P, cls, access=('public',)):
        if (P.ref(fid) or {}).get('static'):
            pass
        roots.append(Root(fid, sig(P, fid), 'method', runs.paths(fid)))
    if dtor:
        for fid in dtor_fids(P, cls):
            roots.append(Root(fid, sig(P, fid), 'dtor', runs.paths(fid)))
    if ctor:
        for fid in ctor_fids(P, cls):
            roots.append(Root(fid, sig(P, fid), 'ctor', runs.paths(fid)))
    for r in list(roots):
        if any(e['kind'] == 'spawn' for p in r.paths for e in p.events):
            sites = {}
            for p in runs.thread_paths(r.fid):
                sites.setdefault(p.events[0]['site'], []).append(p)
            for (fn, line), tp in sorted(sites.items()):
                many = any(p.events[0]['many'] for p in tp)
                roots.append(Root(r.fid, 'thread started by %s%s' % (r.name, '' if fn == P.fns[r.fid]['sq'] else ' via ' + fn), 'thread', tp, many=many))
    if not roots:
        raise AnalysisBroken('no methods of %s found' % cls)
    return roots


# ------------------------------------------------------------------ helpers over paths
def term_str(t):
    return _VERS.sub('', show(t))


def same_place(place, name):
    return canon(place) == name


def last_value(p, name):
    """the value of a place when the path ends, from the last write seen (None: never written)"""
    v = None
    for e in p.events:
        if e['kind'] == 'loopmod' and canon(e['place']) == name:
            v = e['val']
        elif e['kind'] == 'cop' and canon(e['place']) == name and e.get('new') is not None:
            v = e['new']
        elif e['kind'] == 'write' and canon(e['place']) == name and not e.get('method') and e.get('val') is not None:
            v = e['val']
    return v


def noop_write(p, e):
    """a write that stores the value the place is known to have"""
    if e['kind'] == 'write' and e.get('rmw') and e.get('prev') is None and e.get('val') is not None:
        # an exchange: what it replaced is what its own read returned
        i = next((i for i, x in enumerate(p.events) if x is e), 0)
        rd = p.events[i - 1] if i else None
        if rd is not None and rd['kind'] == 'read' and rd['place'] == e['place'] and rd.get('val') is not None:
            e = dict(e, prev=rd['val'])
    if e['kind'] != 'write' or e.get('prev') is None or e.get('val') is None or e.get('method') and not e.get('rmw'):
        return False
    def const(v):
        if v[0] == 'c':
            return bool(v[1])
        return p.facts.get(v) if v[0] == 's' else None
    a, b = e['prev'], e['val']
    if a == b:
        return True
    if e.get('t') and bare(e['t']) == 'bool':
        return const(a) is not None and const(a) == const(b)
    return False


def writes_of(p, name=None, deep=True):
    """events that change shared state (optionally: the place with this canonical name, or something inside it)"""
    for i, e in enumerate(p.events):
        if e['kind'] not in ('write', 'cop', 'loopmod'):
            continue
        if e['kind'] == 'cop' and e['op'] in READ_OPS:
            continue
        if e['kind'] == 'cop' and e.get('local'):
            continue
        if e['kind'] == 'write' and e.get('init'):
            continue
        k = canon(e['place'])
        if name is None or k == name or (deep and overlaps(k, name)):
            yield i, e


READ_OPS = ('front', 'back', 'at', 'find', 'contains', 'search', 'upper_bound', 'lower_bound', 'count', 'equal_range', 'size', 'empty')


def cs_serial(e, m):
    """serial of the critical section of mutex m (canonical name) the event is in"""
    return next((l[2] for l in e['locks'] if canon(l[0]) == m), None)


def entails(facts, goal, val=True, ints=True, extra=()):
    """do the branch facts imply that the term `goal` has truth value val?"""
    g = goal
    v = val
    while g[0] == 'not':
        g, v = g[1], not v
    if g[0] == 'c':
        return bool(g[1]) == v
    fd = dict(facts)
    if g in fd:
        return fd[g] == v
    num = [(t, b) for t, b in list(fd.items()) + list(extra) if t[0] in ('lt0', 'eq0', 'not', 'c')]
    if g[0] in ('lt0', 'eq0'):
        return not feasible(num + [(g, not v)], ints=ints)
    return not feasible(num, ints=ints)


def equal_under(facts, a, b, extra=()):
    if a == b:
        return True
    return entails(facts, eq(a, b), True, extra=extra)


def facts_at(p, e):
    return list(p.facts.items())[:e['nf']]


def returned(p):
    """('c', n) or a term, of a path that returns"""
    r = p.ret
    if isinstance(r, tuple) and r and r[0] == 'L':
        return p.I_load(r) if hasattr(p, 'I_load') else r
    return r


def field_returned(P, runs, fid):
    """canonical name of the member whose value a getter returns on every path (None otherwise)"""
    names = set()
    for p in runs.paths(fid):
        if p.end != 'return':
            return None
        r = p.raw
        if isinstance(r, tuple) and r[0] == 's':
            names.add(sym_key(r[1]))
        elif isinstance(r, tuple) and r[0] == 'size' and r[1][0] == 's':
            names.add('size ' + sym_key(r[1][1]))
        else:
            return None
    return names.pop() if len(names) == 1 else None


# ------------------------------------------------------------------ laws
def under(facts, t):
    """the term with the truth values of the path put in"""
    fd = dict(facts)

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x in fd:
            return C(1 if fd[x] else 0)
        if x[0] == 'not':
            return lnot(go(x[1]))
        if x[0] in ('eq0', 'lt0'):
            p = ZERO
            for m, c in to_poly(x[1]).items():
                q = C(c)
                for a, e in m:
                    if e < 0:
                        return x
                    for _ in range(e):
                        q = mul(q, go(a))
                p = add(p, q)
            return eq(p, ZERO) if x[0] == 'eq0' else lt(p, ZERO)
        if x[0] == 'eq':
            return eq(go(x[1]), go(x[2]))
        if x[0] == 'u' and len(x) == 3 and x[1] == 'bool2int':
            r = go(x[2])
            return r if r[0] == 'c' else x
        return x
    return go(t)


def law_rule(ctx, P, ns='laws', ints=True, only=None, interp=Interp, jobs=None, **kw):
    """every ensure() of every law function of spec/ holds on all abstract paths"""
    laws = []
    for fid, f in sorted(P.fns.items(), key=lambda kv: kv[1]['qn']):
        if not f['sq'].startswith(ns + '::') or f.get('body') is None or '(anonymous' in f['qn'] or (only and not only(f['sq'])):
            continue
        laws.append((fid, f['qn'][len(ns) + 2:]))
    t0 = time.time()

    def one(i, c):
        fid, name = laws[i]
        return law_one(c, P, fid, name, t0, ints, interp, kw)
    n, broken = 0, None
    for r in in_parallel(ctx, len(laws), one, jobs):
        n += r[0]
        broken = broken or r[1]
    if broken:
        raise AnalysisBroken(broken)
    ctx.need(n, 'laws in ' + ns)


def in_parallel(ctx, count, one, jobs=None):
    """one(i, ctx) for i < count in child processes; obligations and violations end up in ctx in the order of i"""
    jobs = jobs or min(8, os.cpu_count() or 1)
    if count < 6 or jobs < 2:
        return [one(i, ctx) for i in range(count)]
    done, kids = {}, []
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                out = []
                for i in range(j, count, jobs):
                    c = Ctx(ctx.pid, ctx.tier)
                    try:
                        x = one(i, c)
                    except AnalysisBroken as e:
                        x = (0, str(e))
                    out.append((i, x, c.obs, c.viol, c.analysed, c.notes))
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(out, f)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    bad = False
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if st or not data:
            bad = True
            continue
        for i, *rest in pickle.loads(data):
            done[i] = rest
    res = []
    for i in sorted(done):
        x, obs, viol, analysed, notes = done[i]
        res.append(x)
        ctx.obs += obs
        for v in viol:
            if not any(u['key'] == v['key'] for u in ctx.viol):
                ctx.viol.append(v)
        for k, m in analysed.items():
            ctx.count(k, m)
        ctx.notes += notes
    if bad:
        raise AnalysisBroken('an analysis process failed')
    return res


def law_one(ctx, P, fid, name, t0, ints, interp, kw):
    n = 0
    I = interp(P, numeric_prune=True, ints=ints, maptheory=True, **kw)
    I.partial = True
    I.BUDGET = LAW_S if time.time() < t0 + 3 * LAW_S else 5
    try:
        ps = I.run(fid)
    except AnalysisBroken as e:
        return 0, str(e)
    broken = 'too many abstract paths in law ' + name if I.incomplete else None
    ctx.count('law ' + name, len(ps))
    for p in ps:
        ctx.ob('laws end normally', name, p.end in ('return', 'cut', 'infeasible'), 'law %s: the library call ends with %s%s' % (name, p.end, ' of ' + str(p.exc.t) if p.exc else ''), path=p, key='end ' + name)
        for e in p.events:
            if e['kind'] == 'div' and bare(e.get('t') or '') in INTS:
                ok = entails(facts_at(p, e), eq(e['divisor'], ZERO), False, ints=ints)
                ctx.ob('no integer is divided by zero', name, ok, 'law %s: the library divides by %s, which may be zero' % (name, show(e['divisor'])[:100]), path=p, ev=e, key='division ' + name)
            if e['kind'] == 'oob':
                ctx.ob('nothing outside an array or text is touched', name, False, 'law %s: the library accesses %s' % (name, e['what']), path=p, ev=e, key='bounds ' + name)
            if e['kind'] == 'call' and e['callee'] == 'ensure':
                n += 1
                a = e['args'][0]
                what = e['args'][1][1] if e['args'][1][0] == 'str' else '?'
                fs = facts_at(p, e)
                b = under(fs, a)
                ok = b[0] == 'c' and bool(b[1]) or entails(fs, b if b[0] != 'c' else eq(('s', 'absurd'), ZERO), True, ints=ints)
                ctx.ob(name + ': ' + what, name, ok, 'law %s (%s) is not satisfied: %s' % (name, what, show(b)[:200]), path=p, ev=e, key='%s: %s' % (name, what))
    return n, broken


def single_instance_rule(ctx, P, fids):
    """instance() returns the one static object of the program"""
    for f in fids:
        ps = Interp(P).run(f)
        roots = set()
        for p in ps:
            r = p.ret
            if isinstance(r, tuple) and r[0] == 'L' and isinstance(r[1], tuple) and r[1][0][0] == 'global':
                roots.add(r[1][0][1])
            else:
                roots.add(None)
        ok = len(roots) == 1 and None not in roots
        ctx.ob('instance() returns a static object', sig(P, f), ok, '%s does not return one static object' % sig(P, f), key='static ' + P.fns[f]['sq'])
        if ok:
            name = roots.pop()
            gs = [g for g in P.globals.values() if g['qn'].split('::')[-1] == name.split('::')[-1] and g.get('file') == P.fns[f].get('file', g.get('file'))]
            ctx.ob('the static object is shared by all threads', sig(P, f), not any(g.get('tls') for g in gs), '%s returns a thread-local object: every thread has its own' % sig(P, f), key='tls ' + P.fns[f]['sq'])


# ------------------------------------------------------------------ lockset rule
class Acc:
    __slots__ = ('key', 'write', 'locks', 'root', 'ev', 'path', 'life', 'atomic')


def lifecycle_index(path, slids=(), jlids=()):
    """events before the first spawn / after the last join of a path happen while no worker of the object lives;
    a loop that spawns (joins) counts as one spawn (join), at its head (exit)"""
    sp = next((i for i, e in enumerate(path.events) if e['kind'] == 'spawn' or (e['kind'] == 'loop_head' and e['loop'] in slids)), None)
    jn = None
    for i, e in enumerate(path.events):
        if e['kind'] == 'join' or (e['kind'] == 'loop_exit' and e['loop'] in jlids):
            jn = i
    return sp, jn


def accesses(P, roots, cls, want=None):
    out = {}
    for r in roots:
        spawns = any(e['kind'] == 'spawn' for p in r.paths for e in p.events)
        joins = any(e['kind'] == 'join' for p in r.paths for e in p.events)
        slids = {l for p in r.paths for e in p.events if e['kind'] == 'spawn' for l, it in e['loops']}
        jlids = {l for p in r.paths for e in p.events if e['kind'] == 'join' for l, it in e['loops']}
        for p in r.paths:
            sp, jn = lifecycle_index(p, slids, jlids)
            sig_at = next((i for i, e in enumerate(p.events) if e['kind'] == 'promise_set'), -1) if r.kind == 'thread' else -1
            for i, e in enumerate(p.events):
                if e['kind'] not in ('read', 'write') or e.get('init'):
                    continue
                pl = e['place']
                b = p.I.base_root(pl)
                if b[0] not in ('this', 'global', 'deref'):
                    continue
                k = canon(pl)
                if k.startswith('global:captured') or (b[0] == 'deref' and not k.startswith('*this')):
                    continue
                t = e.get('t') or ''
                if is_sync_type(t) or e.get('atomic'):
                    continue
                life = None
                if sp is not None and i < sp:
                    life = 'prespawn'
                if jn is not None and i > jn and sp is None:
                    life = 'postjoin'
                if r.kind == 'thread' and i < sig_at:
                    life = 'presignal'
                # deferred: the same statement in a path that stops before the spawn
                if spawns and sp is None and joins is False:
                    life = None
                a = Acc()
                a.key, a.write, a.root, a.ev, a.path, a.life = k, e['kind'] == 'write', r, e, p, life
                a.locks = frozenset((canon(m), mode) for m, mode, ser in e['locks'])
                out.setdefault(k, []).append(a)
    return out


def overlaps(k1, k2):
    return k1 == k2 or k1.startswith(k2 + '.') or k1.startswith(k2 + '[') or k2.startswith(k1 + '.') or k2.startswith(k1 + '[')


def common_lock(a, b):
    glob = a.key.startswith('global:')
    for m, mode in a.locks:
        if glob and m.startswith('this'):
            continue            # each object has its own mutex; it does not protect what all objects share
        for m2, mode2 in b.locks:
            if m == m2 and not (mode == 's' and mode2 == 's' and (a.write or b.write)):
                return True
    return False


def infer_guards(P, roots, cls, owner=()):
    """fields whose every write (constructors aside) is under one common mutex
    owner: methods whose writes before they start the thread happen, by contract, while nobody else uses the object's thread-owned state"""
    acc = accesses(P, [r for r in roots if r.kind != 'ctor'], cls)
    # atomics too: they are skipped by accesses(); collect their writes here
    g = {}
    wl = {}
    for r in roots:
        if r.kind == 'ctor':
            continue
        for p in r.paths:
            sp = lifecycle_index(p)[0] if (P.ref(r.fid) or {}).get('n') in owner else None
            for i, e in enumerate(p.events):
                if sp is not None and i < sp and r.kind == 'method':
                    continue
                if e['kind'] == 'write' and not e.get('init') and p.I.base_root(e['place'])[0] == 'this':
                    k = canon(e['place'])
                    ls = frozenset(canon(m) for m, mode, ser in e['locks'] if mode == 'x')
                    wl[k] = ls if k not in wl else wl[k] & ls
    for k, ls in wl.items():
        if ls:
            g[k] = tuple(sorted(ls))
    # a container is only guarded if its elements' writers hold the lock as well
    for k in list(g):
        for k2 in wl:
            if overlaps(k, k2) and not set(g[k]) <= wl[k2]:
                g[k] = tuple(m for m in g[k] if m in wl[k2])
                if not g[k]:
                    g.pop(k)
                    break
    return g


def main_guard(guards, roots, k):
    """the mutex that protects k: of those held at every write, the one most accesses hold"""
    ms = guards.get(k) or ()
    if len(ms) < 2:
        return ms[0] if ms else None
    n = {m: 0 for m in ms}
    for r in roots:
        for p in r.paths:
            for e in p.events:
                if e['kind'] in ('read', 'write', 'cop') and canon(e['place']) == k:
                    for l in e['locks']:
                        if canon(l[0]) in n:
                            n[canon(l[0])] += 1
    return max(ms, key=lambda m: (n[m], m))


def analyse(P, cls, ctor=False, owner=(), **kw):
    """two passes: learn which mutex protects what, then analyse again using that"""
    runs = Runs(P, cls, **kw)
    roots = class_roots(P, cls, runs, ctor=ctor)
    g = infer_guards(P, roots, cls, owner)
    if g:
        runs = Runs(P, cls, guards=g, **kw)
        roots = class_roots(P, cls, runs, ctor=ctor)
    return runs, roots, g


def lockset_rule(ctx, P, cls, roots, lifecycle=(), skip=lambda k: False, note=None, signalled=False):
    """every pair of conflicting accesses from roots that may run at the same time shares a mutex.
    lifecycle: names of methods that, by contract, are not called concurrently with each other."""
    acc = accesses(P, roots, cls)
    n = 0
    shared = {}
    for k, l in acc.items():
        if skip(k):
            continue
        for a in l:
            shared.setdefault(k, []).append(a)
    written = {k for k, l in shared.items() if any(a.write for a in l)}
    short = lambda r: (P.ref(r.fid) or {}).get('n') if r.kind in ('method', 'dtor') else None

    def concurrent(a, b):
        ra, rb = a.root, b.root
        la = ra.kind == 'dtor' or short(ra) in lifecycle
        lb = rb.kind == 'dtor' or short(rb) in lifecycle
        if ra.kind == 'dtor' or rb.kind == 'dtor':
            # destruction races only with the object's own threads
            if ra.kind != 'thread' and rb.kind != 'thread':
                return False
        if la and lb and ra.kind != 'thread' and rb.kind != 'thread':
            return False
        if ra.kind == 'thread' and rb.kind == 'thread' and ra is rb and not ra.many:
            return False
        t, m = (a, b) if ra.kind == 'thread' else (b, a)
        if t.root.kind == 'thread' and m.root.kind != 'thread' and m.life in ('prespawn', 'postjoin'):
            return False
        if signalled and t.root.kind == 'thread' and m.root.kind != 'thread' and t.life == 'presignal' and (short(m.root) in lifecycle or m.root.kind == 'dtor'):
            return False            # start() returns only after the thread has signalled that it is past this point
        return True
    for k in sorted(shared):
        rel = [a for k2 in shared if overlaps(k, k2) for a in shared[k2]]
        if not any(a.write for a in rel):
            ctx.obs.append(('never written while shared', k, True))
            continue
        uniq = {}
        for a in shared[k]:
            uniq.setdefault((a.write, a.locks, a.root.name, a.life), a)
        ru = {}
        for a in rel:
            ru.setdefault((a.write, a.locks, a.root.name, a.life), a)
        for a in uniq.values():
            for b in ru.values():
                if not (a.write or b.write):
                    continue
                if not concurrent(a, b):
                    continue
                ok = common_lock(a, b)
                n += 1
                who = sorted([a.root.name, b.root.name])
                ctx.ob('common mutex', '%s: %s (%s, line %s) and %s (%s, line %s)' % (k, a.root.name, 'write' if a.write else 'read', a.ev['line'], b.root.name, 'write' if b.write else 'read', b.ev['line']), ok,
                       'no common mutex protects %s: %s holds {%s}, %s holds {%s}' % (k, loc(a.ev), ','.join(sorted(m for m, _ in a.locks)), loc(b.ev), ','.join(sorted(m for m, _ in b.locks))),
                       key='race:%s:%s:%s' % (k, strip_sig(who[0]), strip_sig(who[1])), ev=a.ev)
    return n


def strip_sig(s):
    s = s.replace('thread started by ', 'thread:')
    return re.sub(r'\(.*', '', s)


# ------------------------------------------------------------------ lock order / self-deadlock
def lock_order_rule(ctx, roots):
    """no path acquires a mutex it already holds, the acquired-while-holding relation has no cycle, and no path joins
    a thread while holding a mutex that thread takes"""
    edges = {}
    n = 0
    thread_locks = set()
    for r in roots:
        for p in r.paths:
            for e in p.events:
                if e['kind'] == 'lock':
                    n += 1
                    m = canon(e['mutex'])
                    if r.kind == 'thread':
                        thread_locks.add(m)
                    ctx.ob('no re-acquisition', '%s in %s line %s' % (m, r.name, e['line']), not e['again'],
                           '%s acquires %s which it already holds' % (loc(e), m), key='relock:%s:%s' % (m, strip_sig(r.name)), ev=e, path=p)
                    for h, mode, ser in e['locks']:
                        if canon(h) != m:
                            edges.setdefault((canon(h), m), (e, r, p))
                elif e['kind'] == 'unlock_unheld':
                    ctx.ob('unlock of a held mutex', '%s line %s' % (r.name, e['line']), False, '%s unlocks %s which is not held' % (loc(e), show_place(e['mutex'])), ev=e, path=p,
                           key='unlock:%s' % strip_sig(r.name))
    # cycles
    graph = {}
    for a, b in edges:
        graph.setdefault(a, set()).add(b)

    def reach(a, b, seen):
        if a == b:
            return True
        for c in graph.get(a, ()):
            if c not in seen:
                seen.add(c)
                if reach(c, b, seen):
                    return True
        return False
    for (a, b), (e, r, p) in sorted(edges.items(), key=lambda kv: kv[0]):
        ctx.ob('lock order acyclic', '%s -> %s' % (a, b), not reach(b, a, {b}), '%s acquires %s while holding %s, and elsewhere the order is the reverse' % (loc(e), b, a), ev=e, path=p,
               key='lockorder:%s:%s' % tuple(sorted((a, b))))
    for r in roots:
        for p in r.paths:
            for e in p.events:
                if e['kind'] in ('join',) and r.kind != 'thread':
                    held = {canon(m) for m, mode, ser in e['locks']}
                    bad = held & thread_locks
                    ctx.ob('join without a mutex the joined thread takes', '%s line %s' % (r.name, e['line']), not bad,
                           '%s joins the worker while holding %s, which the worker takes' % (loc(e), ','.join(sorted(bad))), ev=e, path=p, key='join:%s' % strip_sig(r.name))
    return n, edges


# ------------------------------------------------------------------ no foreign code under a lock
FOREIGN = ('vcall', 'invoke')


def foreign_calls(p):
    for i, e in enumerate(p.events):
        if e['kind'] in FOREIGN:
            yield i, e


# ------------------------------------------------------------------ condition variables
_SYM = re.compile(r'^(?:atomic:)?(.*?)(?:[@#]\d+)*$')


def sym_key(name):
    """place name behind a symbol"""
    return _VERS.sub('', name[7:] if name.startswith('atomic:') else name)


_VERS = re.compile(r'[@#]\d+')


def syms_in(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if len(t) >= 2 and t[0] == 's':
            out.add(t)
        else:
            for x in t:
                syms_in(x, out)
    return out


def subst(t, f):
    """rebuild a term with symbols replaced by f(sym) (None keeps it)"""
    if not isinstance(t, tuple) or not t:
        return t
    h = t[0]
    if h == 's':
        r = f(t)
        return t if r is None else r
    if h == 'c' or h == 'str':
        return t
    if h == 'poly':
        acc = ZERO
        for m, c in t[1]:
            term = C(c)
            for a, e in m:
                b = subst(a, f)
                for _ in range(abs(e)):
                    term = mul(term, b) if e > 0 else div_real(term, b)
            acc = add(acc, term)
        return acc
    if h == 'lt0':
        return lt(subst(t[1], f), ZERO)
    if h == 'eq0':
        return eq(subst(t[1], f), ZERO)
    if h == 'eq':
        return eq(subst(t[1], f), subst(t[2], f))
    if h == 'not':
        return lnot(subst(t[1], f))
    if h == 'size':
        return models.size_of(subst(t[1], f))
    return tuple(subst(x, f) if isinstance(x, tuple) else x for x in t)


class Wait:
    __slots__ = ('cv', 'mutex', 'root', 'ev', 'path', 'sleeps', 'timed', 'deadline_syms', 'places')


def collect_waits(roots):
    out = []
    for r in roots:
        for p in r.paths:
            for i, e in enumerate(p.events):
                if e['kind'] != 'cwait':
                    continue
                w = Wait()
                w.cv, w.mutex, w.root, w.ev, w.path = canon(e['cv']), canon(e['mutex']) if e['mutex'] else None, r, e, p
                w.timed = e['timed']
                # facts established in the same critical section
                ser = max([l[2] for l in e['locks'] if canon(l[0]) == w.mutex] or [0])
                nf0 = e['nf']
                for q in p.events[:i]:
                    if q['kind'] == 'lock' and canon(q['mutex']) == w.mutex:
                        nf0 = q['nf']
                for q in p.events[:i]:
                    if q['kind'] == 'cwake' and canon(q['cv']) == w.cv and q['nf'] > nf0:
                        nf0 = q['nf']
                crit = list(p.facts.items())[nf0:e['nf']]
                if e.get('haspred'):
                    w.sleeps = [crit + list(f) for res, f, rd in e.get('alts') or [] if not res]
                else:
                    w.sleeps = [crit]
                w.places = set()
                for z in w.sleeps:
                    for t, v in z:
                        for s in syms_in(t):
                            w.places.add(sym_key(s[1]))
                w.deadline_syms = {sym_key(s[1]) for s in syms_in(e.get('deadline') or ())} if e['timed'] else set()
                if e['timed'] and not e.get('haspred'):
                    # sleeping past the removal of what the deadline was computed from is harmless: it wakes at the deadline
                    dl = {d.split('[')[0] for d in w.deadline_syms}
                    w.sleeps = [[(t, v) for t, v in z if not any(sym_key(s[1]).split('[')[0] in dl for s in syms_in(t))] for z in w.sleeps]
                out.append(w)
    return out


def place_name(place):
    """the name init_value gives to the content of a place, without versions"""
    return _VERS.sub('', show_place(place))


GROW = ('push_back', 'push_front', 'insert', 'ensure', 'overwrite', 'merge', 'put')


def wakeup_rule(ctx, roots, waits, atomics_ok=True):
    """whoever makes a sleeper's condition false afterwards notifies it, ordered after the sleeper's critical section"""
    by_cv = {}
    for w in waits:
        by_cv.setdefault(w.cv, []).append(w)
    n = 0
    for cv, ws in by_cv.items():
        multi = len({w.root.name for w in ws}) > 1 or any(w.root.many for w in ws)
        mutexes = {w.mutex for w in ws}
        ctx.ob('one mutex per condition variable', cv, len(mutexes) == 1 and None not in mutexes, '%s is waited on with different mutexes %s' % (cv, sorted(map(str, mutexes))), ev=ws[0].ev)
        m = ws[0].mutex
        for w in ws:
            ctx.ob('wait holds its mutex', '%s line %s' % (w.root.name, w.ev['line']), w.ev.get('owned'), '%s waits on %s without owning the lock' % (loc(w.ev), cv), ev=w.ev, path=w.path)
        sleeps = []
        for w in ws:
            for z in w.sleeps:
                sleeps.append((w, z))
        places = set().union(*[w.places for w in ws]) | set().union(*[w.deadline_syms for w in ws])
        deadlines = set().union(*[w.deadline_syms for w in ws])
        one_used = any(e['kind'] == 'notify' and canon(e['cv']) == cv and not e['all'] for r in roots for p in r.paths for e in p.events)
        for r in roots:
            if r.kind in ('ctor',):
                continue
            for p in r.paths:
                if p.end in ('loopback',) and False:
                    continue
                n += check_path_notifies(ctx, r, p, cv, m, ws, sleeps, places, deadlines, multi, one_used)
    return n


def check_path_notifies(ctx, r, p, cv, m, ws, sleeps, places, deadlines, multi, one_used):
    n = 0
    evs = p.events
    for i, e in enumerate(evs):
        if e['kind'] == 'cop' and not e.get('local'):
            nm, old, new, op = place_name(e['place']), e.get('old'), e.get('new'), e['op']
        elif e['kind'] == 'write' and not e.get('init'):
            nm, old, new, op = place_name(e['place']), e.get('old'), e.get('val'), None
            if e.get('method') or noop_write(p, e):
                continue
        else:
            continue
        if op in ('front', 'back', 'at', 'find', 'contains', 'search', 'upper_bound', 'lower_bound', 'count', 'equal_range'):
            continue
        touched = nm in places or any(x.startswith(nm + '[') or x.startswith(nm + '.') for x in places)
        if not touched:
            continue
        # is the waiter's own thread writing? a single waiting thread cannot be asleep while it writes
        if r.kind == 'thread' and not r.many and all(w.root is r for w in ws):
            continue
        enabling = False
        for w, z in sleeps:
            if flips(p, e, nm, old, new, z):
                enabling = True
        if any(nm == d or d.startswith(nm + '[') for d in deadlines) and op in GROW:
            enabling = True
        unit = op in ('push_back', 'push_front', 'insert')
        must = enabling or (one_used and multi and unit and could_enable(e, nm, new, sleeps))
        if not must:
            n += 1
            ctx.obs.append(('wake-up not needed', '%s line %s %s' % (r.name, e['line'], nm), True))
            continue
        n += 1
        # look for a notify ordered after the write (or in the same critical section)
        own = {l[2] for l in e['locks'] if canon(l[0]) == m}
        good, how = False, None
        for j, q in enumerate(evs):
            if q['kind'] != 'notify' or canon(q['cv']) != cv:
                continue
            if j > i:
                if own or any(x['kind'] == 'lock' and canon(x['mutex']) == m for x in evs[i:j]):
                    good, how = True, q
            elif own & {l[2] for l in q['locks']}:
                good, how = True, q
            if good and (how['all'] or not multi or unit):
                break
        stops = p.end in ('terminate', 'noreturn', 'infeasible')
        if p.end == 'loopback' and not good:
            # judged on the paths that leave the loop (or follow its next iteration): the notification may come after the loop
            # a write inside the generic iteration whose notify follows the loop shows up in the loop_exit paths only as a havoc;
            # accept when some exit path of the same root notifies after that loop
            lids = {x[0] for x in e['loops']}
            if lids and any(notified_after_loop(p2, lids, cv, m) for p2 in r.paths) and all(notified_after_loop(p2, lids, cv, m) or not passes_loop(p2, lids) for p2 in r.paths if p2.end in ('return', 'threadend')):
                good, how = True, {'all': True}
        ok = stops or good
        ctx.ob('notify after enabling write', '%s: write of %s (line %s) for waiters on %s' % (r.name, nm, e['line'], cv), ok,
               '%s changes %s, which can end a wait on %s, but no notification ordered after the waiters\' critical section follows' % (loc(e), nm, cv), ev=e, path=p,
               key='lostwakeup:%s:%s' % (cv, strip_sig(r.name)))
        if ok and not stops and multi and how is not None and not how['all'] and not unit:
            ctx.ob('notify_all when several waiters may be released', '%s line %s' % (r.name, e['line']), False,
                   '%s releases every waiter on %s but only one is notified' % (loc(e), cv), ev=e, path=p, key='notifyone:%s:%s' % (cv, strip_sig(r.name)))
    return n


def passes_loop(p, lids):
    return any(e['kind'] in ('loop_exit', 'loop_break') and e['loop'] in lids for e in p.events)


def notified_after_loop(p, lids, cv, m):
    seen = False
    for e in p.events:
        if e['kind'] in ('loop_exit', 'loop_break') and e['loop'] in lids:
            seen = True
        if seen and e['kind'] == 'notify' and canon(e['cv']) == cv:
            return True
    return False


def flips(p, e, nm, old, new, z):
    """can the write turn the sleep condition z (true before) into false?"""
    lits = list(z)
    hit = False

    def rep(val):
        def f(s):
            if sym_key(s[1]) == nm:
                return val
            return None
        return f
    before, after = [], []
    changed = False
    for t, v in lits:
        if any(sym_key(s[1]) == nm for s in syms_in(t)):
            tb = subst(t, rep(old)) if old is not None else None
            ta = subst(t, rep(new)) if new is not None else None
            if tb is not None:
                before.append((tb, v))
            if ta is None:
                changed = True
            else:
                # the literal may become false
                after.append((ta, v))
    facts = list(p.facts.items())
    if e.get('op') in ('erase_it', 'pop_front', 'pop_back') and old is not None:
        facts.append((lt(ZERO, models.size_of(old)), True))      # the element removed exists
    if before and not feasible([x for x in facts if x[0][0] in ('lt0', 'eq0', 'not', 'c')] + before, ints=True):
        return False
    fd = dict(facts)
    for tb, v in before:
        k, val = tb, v
        while k[0] == 'not':
            k, val = k[1], not val
        if k in fd and fd[k] != val:
            return False
    if changed:
        return True
    for ta, v in after:
        if ta[0] == 'c':
            if bool(ta[1]) != v:
                return True
            continue
        k, val = ta, v
        while k[0] == 'not':
            k, val = k[1], not val
        if k in fd and fd[k] == val:
            continue
        # could the literal be false afterwards, given it held before?
        if feasible([x for x in facts if x[0][0] in ('lt0', 'eq0', 'not', 'c')] + before + [(ta, not v)], ints=True):
            return True
    return False


def could_enable(e, nm, new, sleeps):
    for w, z in sleeps:
        for t, v in z:
            if any(sym_key(s[1]) == nm for s in syms_in(t)):
                ta = subst(t, lambda s: new if sym_key(s[1]) == nm else None)
                if ta[0] == 'c':
                    if bool(ta[1]) != v:
                        return True
                elif feasible([(ta, not v)], ints=True):
                    return True
    return False
