from reg import check
from rules import *
from absint import Interp
import models
from c_pool import session_rule, join_rule, thread_store, _VERS_, I_val

CLS = 'tc::sdk::task_scheduler'
POOL = 'tc::sdk::thread_pool'
SRC = ['task_scheduler.cpp', 'thread_pool.cpp', 'spec:inst.cpp']
LOW, HIGH = (C(0), FALSE), (C(1), TRUE)
ASSUME = ['the thread pool behaves as its own properties (T01-T07) say', 'std::hash does not map two task ids in use to the same value',
          'std:: containers, mutexes, condition variables and threads behave as specified by the C++20 standard (modelled, not analysed)']


def pool_call(ref):
    return (ref.get('sq') or '').startswith(POOL + '::')


def elem_prefix(s, T):
    """'T[pos]' a symbol or place name starts with, with balanced brackets (versions kept)"""
    i = s.find(T + '[')
    if i < 0:
        return None
    d = 0
    for j in range(i + len(T), len(s)):
        if s[j] == '[':
            d += 1
        elif s[j] == ']':
            d -= 1
            if d == 0:
                return s[i:j + 1]
    return None


def key_of(s, T):
    """(element, field path) of a symbol that names a field of an element of T, without versions in the field"""
    nm = s[1]
    e = elem_prefix(nm, T)
    if e is None or not nm.startswith(e):
        return None
    return e, _VERS_(nm[len(e):])


def agg_get(v, *names):
    for n in names:
        if not (isinstance(v, tuple) and v and v[0] == 'agg'):
            return None
        v = dict(v[2]).get(n)
    return v


class Sched:
    def __init__(self, ctx, P):
        self.P = P
        self.runs, self.roots, self.guards = analyse(P, CLS, numeric_prune=True, induct=True, no_inline=pool_call, on_call=run_stored_job)
        for r in self.roots:
            ctx.count(r.name, len(r.paths))
        self.threads = [r for r in self.roots if r.kind == 'thread']
        ctx.need(self.threads, 'the thread started by the scheduler')
        self.adders = [f for n in ('at', 'in', 'every') for f in named(P, CLS, n)]
        q = set()
        for f in self.adders:
            for p in self.runs.paths(f):
                for i, e in writes_of(p):
                    if e['kind'] == 'cop' and canon(e['place']).startswith('this.'):
                        q.add(canon(e['place']))
        ctx.need(len(q) == 1, 'the container accepted tasks are put in (found %s)' % sorted(q))
        self.T = T = q.pop()
        self.m = main_guard(self.guards, self.roots, T)
        # roles of the fields of a stored task, read off the public queries
        self.id = self.role(ctx, 'is_scheduled', lambda p: p.ret == C(1), self.id_facts)
        # the enabled flag: true whenever is_enabled() says so, and false when it denies it for a task whose id matches
        self.en = self.role(ctx, 'is_enabled', lambda p: p.ret in LOW, lambda p: [key_of(t, T) for t, v in p.facts.items() if t[0] == 's' and v is False and key_of(t, T) and
                                                                                 any(k[0] == key_of(t, T)[0] for k in self.id_facts(p, 'is_enabled'))])
        self.iv = self.role(ctx, 'get_interval', lambda p: True, lambda p: [k for s in syms_in(opt_of(p, p.ret)) for k in [key_of(s, T)] if k and k[1].endswith('#val')])
        self.flag = None

    def id_facts(self, p, nm='is_scheduled'):
        out = []
        prm = {x['n'] for f in named(self.P, CLS, nm) for x in self.P.fns[f]['params']}
        for t, v in p.facts.items():
            if v is True and t[0] in ('eq0', 'eq'):
                ss = syms_in(t)
                ks = [key_of(s, self.T) for s in ss]
                if len([k for k in ks if k]) == 1 and any(sym_key(s[1]) in prm for s in ss):
                    out += [k for k in ks if k]
        return out

    def role(self, ctx, method, sel, find):
        c = set()
        for f in named(self.P, CLS, method):
            for p in self.runs.paths(f):
                if p.end == 'return' and sel(p):
                    c |= {k[1] for k in find(p)}
        ctx.need(len(c) == 1, 'the field of a stored task that %s() looks at (found %s)' % (method, sorted(c)))
        return c.pop()


def opt_of(p, r):
    """has/value terms of a returned optional"""
    if isinstance(r, tuple) and r and r[0] == 'obj':
        pl = r[1]
        h, v = p.mem.get((pl[0], pl[1] + ('#has',))), p.mem.get((pl[0], pl[1] + ('#val',)))
        if h is None and p.mem.get(pl) is not None:
            return opt_of(p, p.mem[pl])
        return (h, v)
    if isinstance(r, tuple) and r and r[0] == 'agg':
        return agg_get(r, '#has'), agg_get(r, '#val')
    return (None, None)


def owned(I, vals, depth=0):
    """what copies of these values keep alive: the values of the shared_ptrs they contain or capture"""
    out = []

    def at(pl):
        for q, x in list(I.mem.items()):
            if q[0] == pl[0] and q[1][:len(pl[1])] == pl[1] and isinstance(x, tuple):
                if split_targs(bare(I.ctypes.get(q, '')))[0] == 'std::shared_ptr':
                    out.append(show(x))
                elif x[0] == 'closure':
                    out.extend(owned(I, [x], depth + 1))
    for v in vals:
        if depth < 4 and v[0] == 'closure' and v in I.closures:
            for nm, how, p in I.closures[v][4]:
                if how == 'copy' and p is not None:
                    at(p)
        elif v[0] == 'obj':
            at(v[1])
    return out


def run_stored_job(I, e):
    """execute abstractly, and without keeping its effects, what is handed to the thread pool"""
    if e['callee'] != POOL + '::run' or not e.get('argp'):
        return
    locks, mem, kh, ep = I.locks, dict(I.mem), I.keepheap, I.epoch
    I.epoch += 100000
    js = I.ev_add('job_start', site=(e['file'], e['line']))
    I.locks = []
    I.keepheap = True
    # the pool stores copies of what it is given
    given = []
    for a in e['argp']:
        v = I.rv(a)
        if v[0] == 'obj':
            I.nfresh += 1
            pl = (('local', 'cap:given%d' % I.nfresh), ())
            I.ctypes[pl] = bare(v[2])
            I.copy_object(pl, v, v[2], False)
            v = ('obj', pl, v[2])
        given.append(v)
    js['owns'] = owned(I, given)
    try:
        for p, v in list(I.mem.items()):
            if p[0][0] == 'local' and not p[0][1].startswith('cap:') and v[0] != 'guard':
                I.mem[p] = ('s', 'dead:' + show_place(p))
        # by the time the job runs other threads have changed whatever they may change
        I.havoc_shared('job')
        I.call_value(given[0], given[1:])
    finally:
        I.locks = locks
        I.mem = mem
        I.keepheap, I.epoch = kh, ep
    I.ev_add('job_end')


def sched(ctx, P):
    if not hasattr(P, '_sched'):
        P._sched = Sched(ctx, P)
        def reads(roots):
            return {canon(e['place']) for ps in roots for p in ps for e in p.events
                    if e['kind'] in ('read', 'write', 'rmw') and canon(e['place']).startswith('this.') and '[' not in canon(e['place'])
                    and (bare(e.get('t') or '') in ('bool',) or 'atomic<bool>' in (e.get('t') or ''))}
        R = P._sched
        flag = reads([R.runs.paths(f) for f in R.adders])
        for nm in ('start', 'stop'):
            if len(flag) > 1:
                flag = {x for x in flag if any(canon(e['place']) == x and e['kind'] in ('write', 'rmw', 'xchg', 'cas') for f in named(P, CLS, nm) for p in R.runs.paths(f) for i, e in writes_of(p))} or flag
        ctx.need(len(flag) == 1, 'the running state consulted when a task is added (found %s)' % sorted(flag))
        P._sched.flag = flag.pop()
    return P._sched


def inserts(p, T):
    for i, e in enumerate(p.events):
        if e['kind'] == 'cop' and canon(e['place']) == T and e['op'] in models_insert:
            yield i, e


models_insert = ('insert', 'ensure', 'overwrite', 'put', 'push_back', 'push_front')


def matched(R, p, idterm=None):
    """elements of T a path knows to carry the id it was asked about"""
    out = []
    for t, v in p.facts.items():
        if v is True and t[0] in ('eq0', 'eq'):
            ss = syms_in(t)
            ks = [key_of(s, R.T) for s in ss]
            el = [k for k in ks if k and k[1] == R.id]
            if len(el) == 1 and len([k for k in ks if k]) == 1:
                out.append(el[0][0])
    return out


def ver_of(elem):
    """the element without versions of the container, for comparing positions"""
    return elem


def searched_in_vain(R, p, upto, idterm):
    """a search over the whole of T, whose every passed-over element has an id different from idterm, ends before event `upto`;
    returns the version of T it covered"""
    out = []
    for j, e in enumerate(p.events[:upto]):
        if e['kind'] != 'loop_exit':
            continue
        meta = e.get('meta')
        whole = None
        if meta and meta[0] == 'range':
            if canon(meta[1]) == R.T:
                whole = meta[2]
        elif meta and meta[1] is not None and canon(meta[1]) == R.T:
            # the search event of the same algorithm says whether it covered the whole container
            for x in reversed(p.events[:j]):
                if x['kind'] == 'cop' and x['op'] == 'search' and canon(x['place']) == R.T:
                    whole = x['old'] if x.get('full') else None
                    break
        else:
            # hand-written iterator loop: ends at end()
            for t, v in p.facts.items():
                s = show(t)
                if v is True and t[0] == 'eq' and 'end()' in s and R.T in _VERS_(s):
                    its = [x for x in t[1:] if isinstance(x, tuple) and x and x[0] == 'it']
                    if its and canon(its[0][1]) == R.T:
                        whole = its[0][2]
        if whole is None:
            continue
        ok = True
        for it in e.get('iters') or []:
            facts = it[0]
            if not contradicts_same_id(R, facts, idterm):
                ok = False
        if ok:
            out.append((whole, j))
    return out


def contradicts_same_id(R, facts, idterm):
    """can these facts about a passed-over element not hold for an element that carries the id?"""
    base = R.id[:-len('.#val')] if R.id.endswith('.#val') else None
    lits = []
    elems = {key_of(s, R.T)[0] for t, v in facts for s in syms_in(t) if key_of(s, R.T) and key_of(s, R.T)[1].startswith(base or R.id)}
    if not elems:
        return False

    def rep(s):
        k = key_of(s, R.T)
        if k and k[1] == R.id:
            return idterm
        if k and base and k[1] == base + '.#has':
            return TRUE
        return None
    for t, v in facts:
        t2 = subst(t, rep)
        while t2[0] == 'not':
            t2, v = t2[1], not v
        if t2[0] == 'c':
            if bool(t2[1]) != v:
                return True
            continue
        lits.append((t2, v))
    d = {}
    for t, v in lits:
        if d.setdefault(t, v) != v:
            return True
    return not feasible([x for x in lits if x[0][0] in ('lt0', 'eq0')], ints=True)


def flag_in_section(R, p, i, e):
    """value of the running state as last read in the critical section of event i (None: not read there)"""
    s = cs_serial(e, R.m)
    lk = max([j for j, x in enumerate(p.events[:i]) if x['kind'] in ('lock',) and canon(x['mutex']) == R.m] or [-1])
    wake = max([j for j, x in enumerate(p.events[:i]) if x['kind'] == 'cwake'] or [-1])
    for j in range(i - 1, max(lk, -1), -1):
        x = p.events[j]
        if x['kind'] == 'read' and canon(x['place']) == R.flag and (j > wake or x['inpred']) and x.get('val') is not None:
            v = x['val']
            if v[0] == 'c':
                return bool(v[1])
            r = p.facts.get(v)
            if r is not None:
                return r
    return None


def kept_task(R, v, elem, p, interval=False):
    """parts of the stored-task value v that are not carried over from element elem (its interval optionally aside)"""
    bad = []
    base = R.iv[:-len('.#val')] if R.iv.endswith('.#val') else R.iv
    if not (isinstance(v, tuple) and v and v[0] == 'agg'):
        return [('value', show(v)[:80] if isinstance(v, tuple) else v)]
    for path, t in leaves(v):
        nm = '.second' + path
        if nm.startswith(base) and not interval:
            continue
        ok = False
        if isinstance(t, tuple) and t[0] == 's':
            ok = key_of(t, R.T) == (elem, nm)
        elif isinstance(t, tuple) and t[0] == 'c':
            ok = fact_of(R, p, elem, nm) == bool(t[1]) if fact_of(R, p, elem, nm) is not None else False
        elif nm.endswith('.#val') and agg_get(v, *(path.split('.')[1:-1] + ['#has'])) in (C(0), FALSE):
            ok = True
        if not ok:
            bad.append((nm, show(t)[:80] if isinstance(t, tuple) else t))
    return bad


def leaves(v, pre=''):
    if isinstance(v, tuple) and v and v[0] == 'agg':
        for n, x in v[2]:
            yield from leaves(x, pre + '.' + n)
    else:
        yield pre, v


# ------------------------------------------------------------------------------------------ adding
def id_value(R, v):
    """(has, value) of the id in a stored-task value"""
    path = R.id.split('.')[2:]          # .second.<field>.#val
    has = None
    if path[-1] == '#val':
        has = agg_get(v, *(path[:-1] + ['#has']))
    return has, agg_get(v, *path)


def iv_value(R, v):
    path = R.iv.split('.')[2:]
    return agg_get(v, *(path[:-1] + ['#has'])), agg_get(v, *path)


def did(p):
    """did the submission succeed? (bool or engaged optional)"""
    if isinstance(p.ret, tuple) and p.ret[0] == 'c':
        return bool(p.ret[1])
    h, v = opt_of(p, p.ret)
    if h is not None and h[0] == 'c':
        return bool(h[1])
    return None


@check('S01', SRC, 'On every path of each adding call the insertion is preceded, in the same critical section and on the same version of the container, by a search of the whole container whose passed-over elements '
       'provably carry another id; a refusal occurs only when the scheduler is stopped, an interval is not positive, or a task with this very id is present.', min=20, assume=ASSUME)
def s01(ctx, P):
    R = sched(ctx, P)
    ctx.need(R.m, 'a mutex protecting the tasks')
    withid = 0
    for f in R.adders:
        for p in R.runs.paths(f):
            if p.end == 'loopback':
                continue
            if not ctx.ob('adding a task returns', sig(P, f), p.end == 'return', '%s can end with %s' % (sig(P, f), p.end), path=p, key='addend'):
                continue
            ok = did(p)
            if ok is None:
                raise AnalysisBroken('outcome of %s not decided by the path' % sig(P, f))
            ins = list(inserts(p, R.T))
            other = [e for i, e in writes_of(p, R.T) if e['kind'] in ('cop', 'write') and not (e['kind'] == 'write') and e['op'] not in models_insert]
            ctx.ob('accepted exactly when stored once', '%s -> %s' % (sig(P, f), ok), len(ins) == (1 if ok else 0) and not other, '%s reports %s after %d insertions' % (sig(P, f), ok, len(ins)), path=p, key='stored:%s' % ok)
            for i, e in ins:
                v = e['args'][-1]
                has, idt = id_value(R, v)
                if has == C(0) or has == FALSE:
                    continue
                withid += 1
                sv = [x for x in searched_in_vain(R, p, i, idt) if x[0] == e['old']]
                same = [x for x in sv if cs_serial(p.events[x[1]], R.m) == cs_serial(e, R.m) and cs_serial(e, R.m) is not None]
                ctx.ob('insertion only after no task has this id, in one critical section', sig(P, f), bool(same),
                       '%s stores a task without having established, in the same critical section, that no scheduled task has its id' % loc(e), ev=e, path=p, key='dupid')
            if ok is False:
                reason = None
                fl = [t for t, v in p.facts.items() if v is False and t[0] == 's' and sym_key(t[1]) == R.flag]
                if fl:
                    reason = 'stopped'
                elif matched(R, p):
                    reason = 'same id'
                else:
                    for prm in P.fns[f]['params']:
                        if 'duration' in prm['t'] or 'interval' in prm['t']:
                            if entails(p.facts.items(), lt(ZERO, param_term(p, prm['n'])), False):
                                reason = 'interval'
                ctx.ob('a refusal has a reason', '%s: %s' % (sig(P, f), reason), reason is not None, '%s refuses a task although the scheduler runs, no task has its id and its interval is positive' % sig(P, f), path=p, key='refusal')
    ctx.need(withid >= 2, 'insertions of tasks with an id')
    # nothing else introduces tasks (rescheduling keeps the id: S03, S07)
    for r in R.roots:
        nm = (P.ref(r.fid) or {}).get('n')
        if r.fid in R.adders or r.kind == 'thread' or nm == 'update_interval':
            continue
        for p in r.paths:
            for i, e in inserts(p, R.T):
                ctx.ob('only adding, rescheduling and changing the interval store tasks', '%s line %s' % (r.name, e['line']), False, '%s stores a task' % loc(e), ev=e, path=p, key='otherinsert:%s' % nm)


def param_term(p, name):
    best = None
    for t, v in p.facts.items():
        for s in syms_in(t):
            if sym_key(s[1]) == name:
                best = s
    return best or ('s', name)


# ------------------------------------------------------------------------------------------ dispatching
def dispatches(R, p):
    """(index of the hand-over to the pool, event, job events)"""
    for i, e in enumerate(p.events):
        if e['kind'] == 'call' and e['callee'] == POOL + '::run':
            js = next((j for j in range(i, len(p.events)) if p.events[j]['kind'] == 'job_start'), None)
            je = next((j for j in range(i, len(p.events)) if p.events[j]['kind'] == 'job_end'), None)
            yield i, e, p.events[js:je] if js is not None and je is not None else None


def dispatched_elem(R, job):
    """elements of T whose callable the job runs, one per call of user code"""
    out = []
    for e in job or []:
        if e['kind'] in FOREIGN:
            s = show_place(e['obj']) if e.get('obj') is not None else show(e['callee']) if isinstance(e['callee'], tuple) else str(e['callee'])
            out.append((elem_prefix(s, R.T), s))
    return out


def fact_of(R, p, elem, suffix):
    for t, v in p.facts.items():
        if t[0] == 's' and key_of(t, R.T) == (elem, suffix):
            return v
    return None


def now_syms(p):
    return [e['val'] for e in p.events if e['kind'] == 'now']


def visit_loops(R, p):
    """loops over tasks on a path: those in whose iterations something is dispatched"""
    return {l for r in R.threads for q in r.paths for i, e, j in dispatches(R, q) for l, it in e['loops'][-1:]}


def bound_of(R, p, elem=None):
    """iterator facts: position == bound, with bound = upper/lower bound of T at a time"""
    out = []
    for t, v in p.facts.items():
        if t[0] == 'eq':
            its = [x for x in t[1:] if isinstance(x, tuple) and x and x[0] == 'it' and canon(x[1]) == R.T]
            if len(its) == 2:
                out.append((its[0], its[1], v))
                out.append((its[1], its[0], v))
    return out


def is_due(R, p, elem, upto=None):
    """is the element's time reached, on this path?"""
    key = next((s for t, v in p.facts.items() for s in syms_in(t) if key_of(s, R.T) == (elem, '.first')), None)
    facts = list(p.facts.items())
    if key is not None:
        for n in now_syms(p):
            if entails(facts, lt(n, key), False):
                return True
    for a, b, v in bound_of(R, p):
        if v is False and isinstance(b[3], tuple) and b[3][0] == 'upper_bound' and b[3][1] in now_syms(p):
            # position a was reached from begin() without passing the bound
            if elem_of_it(a) == elem:
                return True
    return False


def elem_of_it(it):
    """name of the element an iterator denotes"""
    pos = it[3]
    if pos == ('begin',):
        pos = ('front', it[2])
    return show_place((('elem', it[1], pos), ()))


def own_iteration(p, loop):
    """events of the generic iteration of `loop` at the end of a path"""
    h = max([i for i, e in enumerate(p.events) if e['kind'] == 'loop_head' and e['loop'] == loop] or [0])
    return p.events[h:]


def iteration_elems(R, p, loop):
    """elements of T an iteration is about"""
    out = set()
    evs = own_iteration(p, loop)
    nf = evs[0]['nf'] if evs else 0
    for t, v in list(p.facts.items())[nf:]:
        for s in syms_in(t):
            k = key_of(s, R.T)
            if k:
                out.add(k[0])
    for e in evs:
        if e.get('place') is not None:
            x = elem_prefix(show_place(e['place']), R.T)
            if x:
                out.add(x)
    return out


def completed_visits(R):
    """(root, path, loop) for every complete abstract iteration over the tasks that are looked at"""
    for r in R.threads:
        loops = visit_loops(R, None)
        for p in r.paths:
            if p.events and p.events[-1]['kind'] == 'loop_back' and p.events[-1]['loop'] in loops:
                yield r, p, p.events[-1]['loop']


@check('S02', SRC, 'The scheduler thread\'s paths are enumerated with the pool opaque; whatever is handed to the pool is executed abstractly to see which task\'s callable it runs. Every hand-over belongs to a task whose enabled '
       'flag was read as true; every due enabled task visited is handed over exactly once, every disabled one never; user code runs nowhere else.', min=10, assume=ASSUME)
def s02(ctx, P):
    R = sched(ctx, P)
    n = 0
    for r in R.threads:
        for p in r.paths:
            for i, e, job in dispatches(R, p):
                n += 1
                els = dispatched_elem(R, job)
                ctx.ob('what is handed to the pool runs one task once', '%s line %s' % (r.name, e['line']), len(els) == 1 and els[0][0] is not None,
                       '%s hands over work that runs %s' % (loc(e), [s for x, s in els] or 'no task'), ev=e, path=p, key='handover')
                for el, s in els:
                    if el is None:
                        continue
                    ctx.ob('only enabled tasks are handed over', '%s line %s' % (r.name, e['line']), fact_of(R, p, el, R.en) is True, '%s hands over a task without having seen it enabled' % loc(e), ev=e, path=p, key='enabled')
    ctx.ob('due tasks are handed to the pool', CLS, n > 0, 'no path of the scheduler thread hands a task to the pool', key='nodispatch')
    for r, p, loop in completed_visits(R):
        its = [e for i, e, j in dispatches(R, p) if any(l == loop for l, it in e['loops'])]
        en = [fact_of(R, p, el, R.en) for el in iteration_elems(R, p, loop)]
        ctx.ob('a visited task is handed over exactly once unless disabled', '%s loop line %s' % (r.name, loop[1]), len(its) == 1 or (not its and False in en),
               '%s handles a task that is not disabled with %d hand-overs to the pool' % (r.name, len(its)), path=p, key='visit')
    complete_visits(ctx, R, visit_loops(R, None), False)
    for r in R.roots:
        for p in r.paths:
            injob = False
            for e in p.events:
                if e['kind'] == 'job_start':
                    injob = True
                elif e['kind'] == 'job_end':
                    injob = False
                elif e['kind'] in FOREIGN and not injob:
                    ctx.ob('tasks run only on the pool', '%s line %s' % (r.name, e['line']), False, '%s runs user code on the calling thread' % loc(e), ev=e, path=p, key='inline')


def removed_after(R, p, loop, elem):
    return [(i, e) for i, e in enumerate(p.events) if e['kind'] == 'cop' and canon(e['place']) == R.T and e['op'] in ('erase_it', 'erase_range', 'pop_front', 'clear', 'extract', 'erase')]


@check('S03', SRC, 'For each abstract visit of a due task: a task without interval is not re-inserted; a task with one is re-inserted exactly once, unchanged (callable, id, enabled flag, interval), under the key first + k*interval '
       'with integral k >= 1 (induction over the catch-up loop) which is proved not to lie before a clock reading of that round; everything visited is erased, and the re-inserted tasks are merged, in the same critical section.', min=8, assume=ASSUME)
def s03(ctx, P):
    R = sched(ctx, P)
    n = 0
    deferred = set()
    for r, p, loop in completed_visits(R):
        els = iteration_elems(R, p, loop)
        ivh = R.iv[:-len('.#val')] + '.#has' if R.iv.endswith('.#val') else None
        has = {el: fact_of(R, p, el, ivh) for el in els} if ivh else {}
        el = next((x for x in els if has.get(x) is not None), None)
        if not ctx.ob('recurring and one-shot tasks are told apart', '%s loop line %s' % (r.name, loop[1]), el is not None, '%s handles a due task without looking at its interval' % r.name, path=p, key='nointerval'):
            continue
        ins = [(i, e) for i, e in enumerate(p.events) if e['kind'] == 'cop' and e['op'] in models_insert and any(l == loop for l, it in e['loops']) and entry(R, e)]
        n += 1
        if not has[el]:
            ctx.ob('a one-shot task is not rescheduled', '%s loop line %s' % (r.name, loop[1]), not ins, '%s reschedules a task that has no interval' % r.name, ev=ins[0][1] if ins else None, path=p, key='oneshot')
            continue
        if not ctx.ob('a recurring task is rescheduled exactly once', '%s loop line %s' % (r.name, loop[1]), len(ins) == 1, '%s puts a recurring task back %d times' % (r.name, len(ins)), path=p, key='recur'):
            continue
        i, e = ins[0]
        key, v = entry(R, e)
        bad = kept_task(R, v, el, p, interval=True)
        ctx.ob('a rescheduled task is the same task', '%s line %s' % (r.name, e['line']), not bad, '%s puts back a task that differs: %s' % (loc(e), bad[:3]), ev=e, path=p, key='same')
        grid_obligations(ctx, R, r, p, e, el, next((s for t in [v] for s in syms_in(t) if key_of(s, R.T) == (el, R.iv)), None), None, key)
        if canon(e['place']) != R.T:
            deferred.add((canon(e['place']), loop))
    ctx.need(n >= 2, 'visits of due tasks by the scheduler thread')
    # what was collected aside is put back, what was visited is erased, in one critical section
    loops = visit_loops(R, None)
    for r in R.threads:
        for p in r.paths:
            for j, x in enumerate(p.events):
                if x['kind'] not in ('loop_exit', 'loop_break') or x['loop'] not in loops:
                    continue
                after = p.events[j:]
                nxt = next((q for q, y in enumerate(after) if y['kind'] in ('cwait', 'unlock') or y['kind'] == 'loop_back'), len(after))
                seg = after[:nxt]
                if p.end not in ('loopback', 'return', 'threadend'):
                    continue
                for D, lp in deferred:
                    if lp != x['loop'] or p.events[-1]['kind'] == 'loop_back' and puts_back(R, r, D, p.events[-1]['loop']):
                        continue
                    mg = [y for y in seg if y['kind'] == 'cop' and canon(y['place']) == R.T and y['op'] == 'merge'] and [y for y in seg if y['kind'] == 'cop' and canon(y['place']) == D]
                    back = mg or [y for y in seg if y['kind'] == 'loop_exit' and puts_back(R, r, D, y['loop'])]
                    ctx.ob('rescheduled tasks are put back before others can look', '%s line %s' % (r.name, x['line']), bool(back), '%s does not put the recurring tasks back in the critical section that took them out' % r.name, ev=x, path=p, key='merge')


def entry(R, e):
    """(key, task) an insertion stores, in a map or as a pair or struct of the two; None when it stores no task"""
    def istask(v):
        return isinstance(v, tuple) and v and v[0] == 'agg' and iv_value(R, v)[1] is not None
    if not e['args']:
        return None
    v = e['args'][-1]
    if len(e['args']) > 1 and istask(v):
        return e['args'][0], v
    if isinstance(v, tuple) and v and v[0] == 'agg':
        task = [x for n, x in v[2] if istask(x)]
        rest = [x for n, x in v[2] if not istask(x)]
        if len(task) == 1 and len(rest) == 1:
            return rest[0], task[0]
    return None


def puts_back(R, r, D, loop):
    """does every completed iteration of the loop put exactly one element of D, key and task, into T?"""
    ps = [p for p in r.paths if p.events and p.events[-1]['kind'] == 'loop_back' and p.events[-1]['loop'] == loop]
    for p in ps:
        ins = [e for e in p.events if e['kind'] == 'cop' and e['op'] in models_insert and canon(e['place']) == R.T and any(l == loop for l, it in e['loops'])]
        if len(ins) != 1 or entry(R, ins[0]) is None:
            return False
        key, v = entry(R, ins[0])
        els = {elem_prefix(_VERS_(s[1]), D.split(':')[-1]) for x in [key] + [t for q, t in leaves(v)] if isinstance(x, tuple) for s in syms_in(x)}
        if len(els) != 1 or None in els:
            return False
        if key[0] != 's' or any(not (isinstance(t, tuple) and t[0] in ('s', 'c')) for q, t in leaves(v)):
            return False
    return bool(ps)


def grid_obligations(ctx, R, r, p, e, el, step, base, key=None):
    """the key of insertion e is base + k*step (k integral) and not before some clock reading of this round"""
    facts = list(p.facts.items())
    key = e['args'][0] if key is None else key
    first = next((s for s in sorted(syms_in(key) | {s for t, v in facts for s in syms_in(t)}) if key_of(s, R.T) == (el, '.first')), None)
    ok = first is not None and step is not None
    if ok:
        rest = sub(key, first if base is None else base(first))
        q = div_exact(rest, step)
        ok = q is not None and is_integral(q)
        if ok and base is None:
            ok = entails(facts, lt(q, ONE), False)
        elif ok:
            ok = entails(facts, lt(q, ZERO), False)
    ctx.ob('the next start is on the grid of whole intervals', '%s line %s' % (r.name, e['line']), ok, '%s reschedules at %s, which is not a whole number of intervals after the previous start' % (loc(e), show(key)[:200]), ev=e, path=p, key='grid')
    np_ = any(entails(facts, lt(key, n), False) for n in now_syms(p))
    ctx.ob('the next start is not in the past', '%s line %s' % (r.name, e['line']), np_, '%s can reschedule at a time that has already passed' % loc(e), ev=e, path=p, key='past')


def div_exact(t, s):
    """q with t == q*s for a symbol s, or None"""
    out = {}
    for m, c in to_poly(t).items():
        d = dict(m)
        if s not in d:
            return None
        d[s] -= 1
        if d[s] == 0:
            del d[s]
        k = tuple(sorted(d.items(), key=repr))
        out[k] = out.get(k, 0) + c
    q = ZERO
    for m, c in out.items():
        term = C(c)
        for a, ex in m:
            for _ in range(ex):
                term = mul(term, a)
        q = add(q, term)
    return q


def complete_visits(ctx, R, loops, removal):
    """every loop over the due tasks ends only when none is left (and, optionally, exactly the visited ones are removed)"""
    n = 0
    for r in R.threads:
        for p in r.paths:
            for j, x in enumerate(p.events):
                if x['kind'] == 'loop_break' and x['loop'] in loops:
                    ctx.ob('every due task is visited', '%s line %s' % (r.name, x['line']), nothing_due(R, p), '%s stops looking at the tasks before all due ones were visited' % r.name, ev=x, path=p, key='break')
                if x['kind'] != 'loop_exit' or x['loop'] not in loops:
                    continue
                n += 1
                bd = [(a, b) for a, b, v in bound_of(R, p) if v is True and isinstance(b[3], tuple) and b[3][0] == 'upper_bound' and b[3][1] in now_syms(p)]
                ctx.ob('every due task is visited', '%s line %s' % (r.name, x['line']), bool(bd) or nothing_due(R, p), '%s can end the visit of the tasks before all due ones were visited' % r.name, ev=x, path=p, key='complete')
                if bd and removal:
                    seg = p.events[j:]
                    cut = next((q for q, y in enumerate(seg) if y['kind'] in ('cwait', 'unlock', 'loop_back')), len(seg))
                    er = [y for y in seg[:cut] if y['kind'] == 'cop' and canon(y['place']) == R.T and y['op'] == 'erase_range']
                    good = [y for y in er if y['args'][0][0] == 'it' and y['args'][0][3] == ('begin',) and y['args'][1] == bd[0][1]]
                    gone = good or all_erased_inside(R, r, x['loop'])
                    if p.end in ('loopback', 'return', 'threadend'):
                        ctx.ob('exactly the visited tasks are removed', '%s line %s' % (r.name, x['line']), bool(gone) and len(er) == len(good), '%s does not remove exactly the tasks it visited' % r.name, ev=x, path=p, key='removed')
                        for y in good:
                            ctx.ob('removed in the critical section of the visit', '%s line %s' % (r.name, y['line']), cs_serial(y, R.m) is not None and y['old'] == bd[0][1][2], '%s removes tasks although the lock was released since they were visited' % loc(y), ev=y, path=p, key='removedcs')
    return n


@check('S04', SRC, 'On every path of the scheduler thread each task handed over is proved due: it lies before upper_bound(t) reached from begin(), or its key was compared, with t a clock reading of this round. The visiting loop ends only '
       'at that bound (or when nothing due is left), and exactly the visited range is erased in the critical section of the visit.', min=6, assume=ASSUME)
def s04(ctx, P):
    R = sched(ctx, P)
    n = 0
    for r in R.threads:
        for p in r.paths:
            for i, e, job in dispatches(R, p):
                for el, s in dispatched_elem(R, job):
                    if el is None:
                        continue
                    n += 1
                    ctx.ob('only due tasks are handed over', '%s line %s' % (r.name, e['line']), is_due(R, p, el), '%s hands over a task whose time may not have come' % loc(e), ev=e, path=p, key='early')
                    ctx.ob('handed over while the tasks are locked', '%s line %s' % (r.name, e['line']), cs_serial(e, R.m) is not None, '%s hands over a task without holding the lock on the tasks' % loc(e), ev=e, path=p, key='unlocked')
    loops = visit_loops(R, None)
    n += complete_visits(ctx, R, loops, True)
    ctx.need(n, 'hand-overs to the pool')
    # the visit starts with the earliest task
    for l in loops:
        st = [a for r in R.threads for p in r.paths if any(x['kind'] in ('loop_exit', 'loop_back', 'loop_head') and x['loop'] == l for x in p.events) for a, b, v in bound_of(R, p) if isinstance(b[3], tuple) and b[3][0] == 'upper_bound']
        if st:
            ctx.ob('the visit starts with the earliest task', 'loop line %s' % l[1], any(a[3] == ('begin',) for a in st), 'the scheduler thread does not look at the earliest tasks first', key='frombegin')


def nothing_due(R, p):
    facts = list(p.facts.items())
    for t, v in facts:
        if t[0] == 'eq0' and v is True and any(x[0] == 's' and _VERS_(x[1]) == R.T for x in all_sizes(t)):
            return True
    for n in now_syms(p):
        for t, v in facts:
            for s in syms_in(t):
                k = key_of(s, R.T)
                if k and k[1] == '.first' and '[front(' in k[0] and entails(facts, lt(n, s), True):
                    return True
    return False


def all_sizes(t):
    if isinstance(t, tuple):
        if t and t[0] == 'size':
            yield t[1]
        for x in t:
            yield from all_sizes(x)


def all_erased_inside(R, r, loop):
    """does every completed visit remove its task itself?"""
    ps = [p for p in r.paths if p.events and p.events[-1]['kind'] == 'loop_back' and p.events[-1]['loop'] == loop]
    return bool(ps) and all(any(e['kind'] == 'cop' and canon(e['place']) == R.T and e['op'] in ('erase_it', 'extract', 'pop_front') and any(l == loop for l, it in e['loops']) for e in p.events) for p in ps)


# ------------------------------------------------------------------------------------------ life cycle
def pool_calls(p, name):
    return [(i, e) for i, e in enumerate(p.events) if e['kind'] == 'call' and e['callee'] == POOL + '::' + name]


@check('S05', SRC, 'All paths of start, stop, the destructor, the adding calls and the scheduler thread: start/stop are decided by the running state (or the pool\'s own answer) inside one exclusive section, have no effect when they report false; '
       'tasks are stored and handed over only in a critical section that read the state as running; stop empties the container in (or after) the section that lowers the state, joins the thread and stops the pool, no earlier than it lowers the state.',
       min=20, assume=ASSUME)
def s05(ctx, P):
    R = sched(ctx, P)
    V = thread_store(ctx, P, CLS, R.roots)
    for nm, after in (('start', HIGH), ('stop', LOW)):
        for f in named(P, CLS, nm):
            seen = set()
            for p in R.runs.paths(f):
                if p.end == 'loopback':
                    continue
                if not ctx.ob('%s returns' % nm, sig(P, f), p.end == 'return' and isinstance(p.ret, tuple), '%s can end with %s' % (nm, p.end), path=p, key=nm + ':end'):
                    continue
                ok = bool(p.ret[1]) if p.ret[0] == 'c' else (p.facts.get(p.ret))
                if ok is None:
                    raise AnalysisBroken('outcome of %s not decided by the path' % sig(P, f))
                seen.add(ok)
                wr = [(i, e) for i, e in enumerate(p.events) if e['kind'] == 'write' and canon(e['place']) == R.flag and not noop_write(p, e)]
                rd = [e for e in p.events if e['kind'] == 'read' and canon(e['place']) == R.flag and e.get('val') is not None]
                pc = pool_calls(p, 'start')
                state = None
                if rd:
                    v = rd[0]['val']
                    state = bool(v[1]) if v[0] == 'c' else p.facts.get(v)
                pool = next((v for t, v in p.facts.items() if t[0] == 's' and sym_key(t[1]) == POOL + '::start'), None)
                if nm == 'start':
                    just = (state is False or pool is True) if ok else (state is True or pool is False)
                    if pc and pool is None and state is None:
                        just = False
                else:
                    just = (state is True) if ok else (state is False)
                ctx.ob('%s reports true exactly when the state changes' % nm, '%s -> %s' % (sig(P, f), ok), just, '%s returns %s although the running state was %s' % (nm, ok, state if state is not None else 'not consulted'), path=p, key=nm + ':verdict')
                sp = [(i, e) for i, e in enumerate(p.events) if e['kind'] == 'spawn']
                jn = [(i, e) for i, e in enumerate(p.events) if e['kind'] == 'join']
                if not ok:
                    eff = [e for i, e in writes_of(p) if e['kind'] != 'loopmod' and not noop_write(p, e) and canon(e['place']).startswith('this') and not is_pool(canon(e['place']), R, P)] + [e for i, e in sp + jn]
                    ctx.ob('%s has no effect when it reports false' % nm, sig(P, f), not eff, '%s returns false but changes state: %s' % (nm, loc(eff[0]) if eff else ''), ev=eff[0] if eff else None, path=p, key=nm + ':effect')
                    continue
                ctx.ob('%s leaves the running state %s' % (nm, after[0][1] == 1), sig(P, f), wr and wr[-1][1].get('val') in after, '%s returns true without changing the running state' % nm, path=p, key=nm + ':set')
                if not wr:
                    continue
                first = rd[0] if rd else pc[0][1] if pc else wr[0][1]
                eff = [first] + [e for i, e in wr + sp + jn + pool_calls(p, 'start') + pool_calls(p, 'stop')]
                com = None
                for e in eff:
                    s = {(canon(l[0]), l[2]) for l in e['locks'] if l[1] == 'x'}
                    com = s if com is None else com & s
                ctx.ob('%s excludes other life-cycle calls until it is complete' % nm, sig(P, f), bool(com), '%s tests the state, changes it, starts or joins the thread and the pool without one lock held throughout' % nm, ev=wr[0][1], path=p, key=nm + ':exclusive')
                if nm == 'start':
                    ctx.ob('start creates one scheduler thread', sig(P, f), len(sp) == 1, 'start creates %d threads' % len(sp), path=p, key='spawn')
                    ctx.ob('running before the scheduler thread looks', sig(P, f), sp and wr[0][0] < sp[0][0], 'the scheduler thread is started before the scheduler counts as running: it may end at once', path=p, key='flagfirst')
                    ctx.ob('the pool is started', sig(P, f), len(pc) == 1, 'start does not start the pool exactly once', path=p, key='poolstart')
                    if pc:
                        prm = P.fns[f]['params'][0]['n']
                        ctx.ob('the pool gets the requested number of threads', sig(P, f), term_str(pc[0][1]['args'][0]) == prm, 'start asks the pool for %s threads' % show(pc[0][1]['args'][0]), ev=pc[0][1], path=p, key='poolsize')
                else:
                    i0 = wr[0][0]
                    cl = [(i, e) for i, e in writes_of(p, R.T) if e['kind'] == 'cop' and e.get('new') is not None and models.size_of(e['new']) == ZERO]
                    ctx.ob('stop discards the scheduled tasks', sig(P, f), bool(cl), 'stop leaves tasks scheduled', path=p, key='discard')
                    for i, e in cl[-1:]:
                        ctx.ob('discarded no earlier than the state is lowered', sig(P, f), i > i0 or cs_serial(e, R.m) is not None and cs_serial(e, R.m) == cs_serial(wr[0][1], R.m), 'stop discards the tasks before it lowers the running state', ev=e, path=p, key='discardorder')
                    nj = any(t[0] == 'u' and t[1] == 'joinable' and v is False for t, v in p.facts.items())
                    ctx.ob('stop joins the scheduler thread', sig(P, f), nj or any(canon(e['place']) == V and i > i0 for i, e in jn), 'stop returns while the scheduler thread may still run', path=p, key='join')
                    ps = pool_calls(p, 'stop')
                    ctx.ob('stop stops the pool', sig(P, f), bool(ps), 'stop leaves the pool running', path=p, key='poolstop')
                    if ps and jn:
                        ctx.ob('the pool is stopped after the last task has been handed over', sig(P, f), ps[-1][0] > jn[-1][0] or ps[-1][0] > i0, 'stop stops the pool while the scheduler thread can still hand over tasks, which then run in the next session', ev=ps[-1][1], path=p, key='poolorder')
            ctx.ob('%s can succeed and fail' % nm, sig(P, f), seen == {True, False}, '%s always returns %s' % (nm, seen), key=nm + ':both')
    n = 0
    for r in R.roots:
        for p in r.paths:
            if r.kind == 'method':
                for i, e in inserts(p, R.T):
                    if r.fid in R.adders:
                        n += 1
                        ctx.ob('tasks are accepted only while running', '%s line %s' % (r.name, e['line']), flag_in_section(R, p, i, e) is True, '%s stores a task without having read, in that critical section, that the scheduler runs' % loc(e), ev=e, path=p, key='accept')
            if r.kind == 'thread':
                for i, e, job in dispatches(R, p):
                    n += 1
                    ctx.ob('tasks are handed over only while running', '%s line %s' % (r.name, e['line']), flag_in_section(R, p, i, e) is True, '%s hands over a task without having checked, after its last wait, that the scheduler runs' % loc(e), ev=e, path=p, key='dispatchstopped')
                if p.end == 'throw':
                    ctx.ob('the scheduler thread survives', r.name, False, 'the scheduler thread can end with an exception', path=p, key='threadthrow')
                if p.end in ('threadend', 'return'):
                    low = [t for t, v in p.facts.items() if v is False and t[0] == 's' and sym_key(t[1]) == R.flag]
                    ctx.ob('the scheduler thread ends only when stopped', r.name, bool(low), 'the scheduler thread can end although the scheduler runs', path=p, key='threadend')
            if r.kind in ('method', 'dtor') and (P.ref(r.fid) or {}).get('n') not in ('start', 'stop') and r.kind != 'dtor':
                w = [e for i, e in writes_of(p) if e['kind'] == 'write' and canon(e['place']) == R.flag] + [e for nm in ('start', 'stop') for i, e in pool_calls(p, nm)]
                ctx.ob('only start and stop change the running state', r.name, not w, '%s changes the running state' % r.name, ev=w[0] if w else None, path=p, key='otherflag')
    ctx.need(n >= 3, 'places where tasks are accepted or handed over')
    ds = dtor_fids(P, CLS)
    ctx.ob('there is a destructor that stops', CLS, bool(ds), 'the scheduler has no destructor that stops it', key='nodtor')
    for f in ds:
        for p in R.runs.paths(f):
            if p.end != 'return':
                continue
            rd = [e for e in p.events if e['kind'] == 'read' and canon(e['place']) == R.flag and e.get('val') is not None]
            idle = rd and (p.facts.get(rd[0]['val']) is False)
            jn = [e for e in p.events if e['kind'] == 'join'] or any(t[0] == 'u' and t[1] == 'joinable' and v is False for t, v in p.facts.items())
            wr = [e for e in p.events if e['kind'] == 'write' and canon(e['place']) == R.flag and e.get('val') in LOW]
            ctx.ob('destruction stops a running scheduler', sig(P, f), bool(idle or (wr and jn)), 'the destructor leaves a running scheduler unstopped', path=p, key='dtorstop')


def is_pool(k, R, P):
    ft = field_types(P, CLS)
    return any(k == 'this.' + n or k.startswith('this.%s.' % n) for n, t in ft.items() if bare(t) == POOL)


@check('S06', SRC, 'Lost-wakeup analysis of the scheduler thread\'s waits; every timed wait sleeps until the key of the earliest task of the very version of the container it holds the lock on; an untimed wait happens only when '
       'there is no task and the scheduler runs; after a wait has timed out the due tasks are looked at before the next wait.', min=8, assume=ASSUME)
def s06(ctx, P):
    R = sched(ctx, P)
    ws = collect_waits(R.roots)
    ctx.need(ws, 'waits on a condition variable')
    wakeup_rule(ctx, R.roots, ws)
    n = 0
    for r in R.threads:
        for p in r.paths:
            for i, e in enumerate(p.events):
                if e['kind'] == 'cwait' and e['timed']:
                    n += 1
                    dl = e.get('deadline')
                    ks = [key_of(s, R.T) for s in syms_in(dl)] if dl is not None else []
                    good = dl is not None and dl[0] == 's' and len(ks) == 1 and ks[0] and ks[0][1] == '.first' and '[front(' in ks[0][0]
                    if not good and dl is not None:
                        good = any(equal_under(list(p.facts.items())[:e['nf']], dl, s) for t, v in p.facts.items() for s in syms_in(t) if (key_of(s, R.T) or ('', ''))[1] == '.first' and '[front(' in s[1])
                    ctx.ob('the thread sleeps until the earliest task is due', '%s line %s' % (r.name, e['line']), good, '%s sleeps until %s, not until the key of the earliest task' % (loc(e), show(dl) if dl else '?'), ev=e, path=p, key='deadline')
                    if good and ks and ks[0]:
                        m = re.search(r'front\((.*)\)\]$', ks[0][0])
                        cur = current_version(R, p, i)
                        ctx.ob('the earliest task is the current one', '%s line %s' % (r.name, e['line']), m and cur is not None and m.group(1) == show(cur), '%s sleeps until the key of a task that may no longer be the earliest' % loc(e), ev=e, path=p, key='stale')
                    # what happens after the timeout
                if e['kind'] == 'cwait' and not e['timed']:
                    n += 1
                    zs = [{canon(x['place']) for x in rd} for res, z, rd in e.get('alts') or [] if not res] if e.get('haspred') else [{sym_key(s[1]) for t, v in facts_at(p, e) for s in syms_in(t)}]
                    for mentions in zs:
                        ctx.ob('the thread sleeps without limit only when idle', '%s line %s' % (r.name, e['line']), R.T in mentions and R.flag in mentions, '%s can sleep without having checked both the tasks and the running state' % loc(e), ev=e, path=p, key='blindsleep')
    ctx.need(n, 'waits of the scheduler thread')
    # progress: a timed-out wait in a running scheduler leads to a look at the due tasks before the next round
    loops = visit_loops(R, None)
    heads = {e['loop'] for r in R.threads for p in r.paths for e in p.events if e['kind'] == 'loop_head' and e['loop'] in loops}
    for r in R.threads:
        prog_ = 0
        for p in r.paths:
            to = [i for i, e in enumerate(p.events) if e['kind'] == 'cwake' and e.get('timeout') is True]
            for i in to:
                fl = any(v is False and t[0] == 's' and sym_key(t[1]) == R.flag for t, v in p.facts.items())
                look = any(e['kind'] == 'loop_head' and e['loop'] in heads or e['kind'] == 'call' and e['callee'] == POOL + '::run' for e in p.events[i:])
                if p.end in ('loopback', 'threadend', 'return'):
                    prog_ += 1
                    ctx.ob('a due task is looked at when its time has come', r.name, fl or look, '%s goes back to sleep after a timeout without looking at the due tasks' % r.name, path=p, key='progress')


def current_version(R, p, upto):
    """term of the container as last read before an event"""
    for e in reversed(p.events[:upto + 1]):
        if e['kind'] == 'cop' and canon(e['place']) == R.T:
            return e.get('new') if e.get('new') is not None else e.get('old')
        if e['kind'] == 'read' and canon(e['place']) == R.T and e.get('val') is not None:
            return e['val']
    for t, v in p.facts.items():
        pass
    # fall back on the size facts of the round
    best = None
    for t, v in list(p.facts.items())[:p.events[upto]['nf']]:
        for x in all_sizes(t):
            if x[0] == 's' and _VERS_(x[1]) == R.T:
                best = x
    return best


# ------------------------------------------------------------------------------------------ operations on one task
def asked_id(R, p):
    """the term a matched element's id was found equal to"""
    for t, v in p.facts.items():
        if v is True and t[0] in ('eq0', 'eq'):
            ks = [(s, key_of(s, R.T)) for s in syms_in(t)]
            el = [(s, k) for s, k in ks if k and k[1] == R.id]
            if len(el) != 1 or len([k for s, k in ks if k]) != 1:
                continue
            s = el[0][0]
            if t[0] == 'eq':
                return t[1] if t[2] == s else t[2] if t[1] == s else None
            p0 = to_poly(t[1])
            c = p0.get(((s, 1),))
            if c is None:
                return None
            return div_real(sub(mul(C(c), s), t[1]), C(c))
    return None


def task_changes(R, p):
    """changes of the tasks on a path: [(index, event, kind, element or None, field or None)]"""
    out = []
    for i, e in writes_of(p, R.T):
        if e['kind'] == 'cop':
            out.append((i, e, e['op'], None, None))
        elif e['kind'] == 'write' and not (canon(e['place']) == R.T):
            s = show_place(e['place'])
            el = elem_prefix(s, R.T)
            out.append((i, e, 'set', el, _VERS_(s[len(el):]) if el and s.startswith(el) else None))
    return out


@check('S07', SRC, 'For each per-id operation every path is classified: either one element is proved to carry the asked id, and then exactly that element is reported, changed or removed; or a search of the whole container is proved to '
       'have passed over only elements with other ids, and then nothing changes and the failure value is returned. All of it in one critical section.', min=15, assume=ASSUME)
def s07(ctx, P):
    R = sched(ctx, P)
    base = R.iv[:-len('.#val')] if R.iv.endswith('.#val') else R.iv
    for nm in ('is_scheduled', 'is_enabled', 'set_enabled', 'remove_task', 'get_interval', 'update_interval'):
        for f in named(P, CLS, nm):
            ps = [p for p in R.runs.paths(f) if p.end != 'loopback']
            idt = next((x for x in (asked_id(R, p) for p in ps) if x is not None), None)
            ctx.ob('the operation finds a task by its id', sig(P, f), idt is not None, '%s never establishes that a task has the asked id' % nm, key=nm + ':find')
            if idt is None:
                continue
            prm = [x['n'] for x in P.fns[f]['params']]
            hit = miss = 0
            for p in ps:
                if not ctx.ob('%s returns' % nm, sig(P, f), p.end == 'return', '%s can end with %s' % (nm, p.end), path=p, key=nm + ':end'):
                    continue
                ch = task_changes(R, p)
                val = p.ret if p.ret[0] != 'obj' else ('opt',) + opt_of(p, p.ret)
                el = [x for x in matched(R, p)]
                same = [t for t, v in p.facts.items() if v is True and t[0] in ('eq0', 'eq')]
                no = p.ret in LOW or (val[0] == 'opt' and val[1] in LOW)
                if el:
                    hit += 1
                    E = el[0]
                    a = asked_id(R, p)
                    ctx.ob('the id compared is the asked one', sig(P, f), a is not None and any(sym_key(s[1]) == prm[0] for s in syms_in(a)), '%s compares task ids with %s' % (nm, show(a) if a else '?'), path=p, key=nm + ':asked')
                    whole = 'found'
                else:
                    sv = searched_in_vain(R, p, len(p.events), idt)
                    early = nm == 'update_interval' and len(prm) > 1 and entails(p.facts.items(), lt(ZERO, param_term(p, prm[1])), False)
                    if not early:
                        miss += 1
                    ctx.ob('a task is missed only when none has the id', sig(P, f), bool(sv) or early, '%s gives up although a task may have the asked id' % nm, path=p, key=nm + ':missed')
                    ctx.ob('nothing happens when there is no such task', sig(P, f), no and not ch, '%s without such a task returns %s and makes %d changes' % (nm, show(p.ret) if p.ret else '', len(ch)), path=p, key=nm + ':noeffect')
                    continue
                if nm == 'is_scheduled':
                    ctx.ob('is_scheduled reports a task that is there', sig(P, f), p.ret in HIGH and not ch, 'is_scheduled denies a scheduled task', path=p, key=nm)
                elif nm == 'is_enabled':
                    t = p.ret
                    fv = fact_of(R, p, E, R.en)
                    ok = (t[0] == 's' and key_of(t, R.T) == (E, R.en)) or (t[0] == 'c' and fv is not None and bool(t[1]) == fv)
                    ctx.ob('is_enabled reports that task\'s state', sig(P, f), ok and not ch, 'is_enabled reports %s' % show(t), path=p, key=nm)
                elif nm == 'get_interval':
                    h, v = val[1], val[2]
                    hf = fact_of(R, p, E, base + '.#has')
                    ok = (h in HIGH and hf is not False and v is not None and v[0] == 's' and key_of(v, R.T) == (E, R.iv)) or (h in LOW and hf is False) or (h is not None and h[0] == 's' and key_of(h, R.T) == (E, base + '.#has') and (v is None or key_of(v, R.T) == (E, R.iv)))
                    ctx.ob('get_interval reports that task\'s interval', sig(P, f), ok and not ch, 'get_interval reports %s of the task' % (show(v) if v else 'nothing'), path=p, key=nm)
                elif nm == 'set_enabled':
                    ok = len(ch) == 1 and ch[0][2] == 'set' and ch[0][3] == E and ch[0][4] == R.en and term_str(ch[0][1]['val']) == prm[1] or \
                        (all(c[2] == 'set' and c[3] == E and c[4] == R.en for c in ch) and set_to_param(R, p, ch, E, prm[1]))
                    ctx.ob('set_enabled changes that task only', sig(P, f), ok, 'set_enabled does not set the enabled state of exactly the task with the id', ev=ch[0][1] if ch else None, path=p, key=nm)
                    ctx.ob('set_enabled reports success', sig(P, f), p.ret in HIGH, 'set_enabled changes the task but reports failure', path=p, key=nm + ':ret')
                elif nm == 'remove_task':
                    ok = len(ch) == 1 and ch[0][2] in ('erase_it', 'extract') and ch[0][1]['args'] and ch[0][1]['args'][0][0] == 'it' and elem_of_it(ch[0][1]['args'][0]) == E
                    ctx.ob('remove_task removes that task only', sig(P, f), ok, 'remove_task does not remove exactly the task with the id', ev=ch[0][1] if ch else None, path=p, key=nm)
                    ctx.ob('remove_task reports success', sig(P, f), p.ret in HIGH, 'remove_task removes the task but reports failure', path=p, key=nm + ':ret')
                elif nm == 'update_interval':
                    hf = fact_of(R, p, E, base + '.#has')
                    if no:
                        ctx.ob('update_interval refuses one-shot tasks only', sig(P, f), hf is False and not ch, 'update_interval refuses a recurring task with a positive interval, or changes something and reports failure', path=p, key=nm + ':refuse')
                        continue
                    ctx.ob('update_interval applies to recurring tasks', sig(P, f), hf is True, 'update_interval gives an interval to a one-shot task', path=p, key=nm + ':oneshot')
                    update_obligations(ctx, R, P, f, p, E, ch, prm, base)
                # one critical section
                cs = {cs_serial(e, R.m) for i, e, k, x, fl in ch}
                vers = {x[1] for t, v in p.facts.items() for x in [()] if False}
                ctx.ob('found and changed in one critical section', sig(P, f), len(cs) <= 1 and None not in cs and all(e.get('old') is None or E in (show(e['old']), E) or still_valid(R, p, i, E) for i, e, k, x, fl in ch), '%s finds and changes the task in different critical sections' % nm, path=p, key=nm + ':section')
            ctx.ob('%s can find and miss' % nm, sig(P, f), hit and miss, '%s never %s a task' % (nm, 'finds' if not hit else 'misses'), key=nm + ':both')


def still_valid(R, p, i, E):
    """no unlock of the tasks' mutex between the lookup of E and event i"""
    first = next((j for j, e in enumerate(p.events) if e['kind'] in ('loop_break', 'loop_head')), 0)
    return not any(e['kind'] in ('unlock', 'cwait') and canon(e.get('mutex') or (('local', ''), ())) == R.m for e in p.events[first:i])


def set_to_param(R, p, ch, E, prm):
    """conditional writes: on this path the flag ends up equal to the parameter"""
    want = next((v for t, v in p.facts.items() if t[0] == 's' and sym_key(t[1]) == prm), None)
    if want is None:
        return False
    cur = fact_of(R, p, E, R.en)
    for c in ch:
        v = c[1]['val']
        cur = bool(v[1]) if v[0] == 'c' else want if v[0] == 's' and sym_key(v[1]) == prm else None
    return cur is not None and cur == want


def update_obligations(ctx, R, P, f, p, E, ch, prm, base):
    ins = [c for c in ch if c[2] in models_insert]
    rem = [c for c in ch if c[2] in ('erase_it', 'extract')]
    if not ins and not rem:
        # changed in place: the task keeps its key, which must still be on the new grid -> only if the key is recomputed elsewhere
        ctx.ob('the new interval takes effect', sig(P, f), False, 'update_interval does not move the task to its new start time', path=p, key='update:nomove')
        return
    ok = len(ins) == 1 and len(rem) == 1 and rem[0][1]['args'] and rem[0][1]['args'][0][0] == 'it' and elem_of_it(rem[0][1]['args'][0]) == E
    ctx.ob('the task is moved, not copied', sig(P, f), ok, 'update_interval inserts %d and removes %d entries' % (len(ins), len(rem)), ev=ch[0][1], path=p, key='update:move')
    if len(ins) != 1:
        return
    i, e = ins[0][0], ins[0][1]
    v = e['args'][-1]
    bad = kept_task(R, v, E, p)
    ctx.ob('the task stays the same', sig(P, f), not bad, 'update_interval changes %s' % bad[:3], ev=e, path=p, key='update:same')
    h, iv = iv_value(R, v)
    ctx.ob('the task gets the new interval', sig(P, f), iv is not None and term_str(iv) == prm[1] and (h in HIGH or (h is not None and h[0] == 's' and p.facts.get(h) is True)), 'update_interval stores interval %s' % (show(iv) if iv else None), ev=e, path=p, key='update:interval')
    old = ('s', None)
    olds = next((s for t, b in list(p.facts.items()) for s in syms_in(t) if key_of(s, R.T) == (E, R.iv)), None)
    if olds is None:
        olds = next((s for s in syms_in(e['args'][0]) if key_of(s, R.T) == (E, R.iv)), None)
    root = next(r for r in R.roots if r.fid == f)
    if iv is not None and iv[0] == 's':
        if olds is None:
            ctx.ob('the next start is computed from the last one', sig(P, f), False, 'update_interval reschedules at %s' % show(e['args'][0])[:150], ev=e, path=p, key='update:grid')
        else:
            grid_obligations(ctx, R, root, p, e, E, iv, lambda first: sub(first, olds))
    ctx.ob('success is reported', sig(P, f), p.ret in HIGH, 'update_interval reports failure after updating', path=p, key='update:ret')


# ------------------------------------------------------------------------------------------ what is stored
@check('S08', SRC, 'For every instantiated signature of at/in/every: key, interval, id and enabled flag of the stored task are compared with the arguments, and the stored callable is executed abstractly after the call has returned: '
       'it calls the submitted callable once with the submitted arguments in order, through the packaged task behind the returned future.', min=30, assume=ASSUME)
def s08(ctx, P):
    R = sched(ctx, P)
    n = 0
    for f in R.adders:
        nm = P.ref(f)['n']
        fn = P.fns[f]
        prs = fn['params']
        names = []
        for i, prm in enumerate(prs):
            j = sum(1 for q in prs[:i] if q['n'] == prm['n'])
            names.append(prm['n'] if not j else '%s.%d' % (prm['n'], j + 1))
        ts = [bare(x['t']) for x in prs]
        idn = next((names[i] for i, t in enumerate(ts) if 'basic_string' in t or t == 'std::string'), None)
        tpn = next((names[i] for i, t in enumerate(ts) if t.startswith('std::chrono::time_point')), None)
        durs = [names[i] for i, t in enumerate(ts) if t.startswith('std::chrono::duration')]
        fi = next((i for i, t in enumerate(ts) if '(' in t or t.endswith('*') or 'function' in t or 'lambda' in t), None)
        ctx.need(fi is not None, 'the callable parameter of ' + sig(P, f))

        def post(I, p):
            st = [e for e in I.events if e['kind'] == 'cop' and e['op'] in models_insert and canon(e['place']) == R.T]
            if len(st) != 1:
                return
            v = st[0]['args'][-1]
            et = v[1] if v[0] == 'agg' else None
            if et is None:
                return
            I.expire()
            pl = I.new_temp(et, 'job')
            I.store(pl, v, et, quiet=True)
            I.ev_add('job_start')
            runnable(I, et, pl)
            I.ev_add('job_end')
        I = R.runs.interp(keepheap=True, on_call=None)
        for p in I.run(f, post=post):
            if p.end != 'return':
                continue
            ins = list(inserts(p, R.T))
            if len(ins) != 1:
                continue
            n += 1
            e = ins[0][1]
            key, v = e['args'][0], e['args'][-1]
            facts = list(p.facts.items())
            nows = [x['val'] for x in p.events if x['kind'] == 'now']
            w = sig(P, f)
            sy = lambda name: next((s for t in [key, v] + [t for t, b in facts] for s in syms_in(t) if _VERS_(s[1]) == name), ('s', name))
            if nm == 'at':
                good = tpn is not None and equal_under(facts, key, sy(tpn))
                want = 'the given time'
            elif nm == 'in':
                good = any(equal_under(facts, key, add(x, sy(durs[0]))) for x in nows)
                want = 'the given delay after the call'
            else:
                good = any(equal_under(facts, key, x if len(durs) < 2 else add(x, sy(durs[1]))) for x in nows)
                want = 'the call' if len(durs) < 2 else 'the given delay after the call'
            ctx.ob('the first start is as requested', '%s' % w, good, '%s schedules the task at %s instead of %s' % (w, show(key)[:120], want), ev=e, path=p, key='when:' + nm)
            h, iv = iv_value(R, v)
            if nm == 'every':
                good = h in HIGH and term_str(iv) == durs[0]
            else:
                good = h in LOW
            ctx.ob('the interval is as requested', w, good, '%s stores %s as interval' % (w, show(iv) if h not in LOW else 'nothing'), ev=e, path=p, key='interval:' + nm)
            h, iv = id_value(R, v)
            good = (h in LOW) if idn is None else (h in HIGH or h is None) and {sym_key(s[1]) for s in syms_in(iv)} == {idn}
            ctx.ob('the id is as requested', w, good, '%s stores %s as id' % (w, show(iv) if h not in LOW else 'nothing'), ev=e, path=p, key='id:' + nm)
            en = agg_get(v, *R.en.split('.')[2:])
            ctx.ob('new tasks are enabled', w, en in HIGH, '%s stores a task that is not enabled' % w, ev=e, path=p, key='enabled:' + nm)
            js = next((i for i, x in enumerate(p.events) if x['kind'] == 'job_start'), None)
            ctx.need(js is not None, 'execution of the stored task of ' + w)
            calls = [x for x in p.events[js:] if x['kind'] in FOREIGN]
            ctx.ob('the stored task calls the submitted callable exactly once', w, len(calls) == 1, 'executing the task stored by %s makes %d calls of user code' % (w, len(calls)), path=p, key='calls')
            if len(calls) == 1:
                c = calls[0]
                callee = term_str(c['callee']) if isinstance(c['callee'], tuple) else str(c['callee'])
                ctx.ob('the callable is the submitted one, copied', '%s: %s' % (w, callee), _VERS_(callee) == names[fi], 'the task calls %s instead of the submitted %s' % (callee, names[fi]), ev=c, path=p, key='callee')
                got = [term_str(I_val(p, a)) for a in c['args']]
                ctx.ob('the arguments are the submitted ones, copied, in order', w, got == names[fi + 1:], 'the task passes (%s) instead of (%s)' % (', '.join(got), ', '.join(names[fi + 1:])), ev=c, path=p, key='args')
            if nm != 'every':
                rets = [x for x in p.events if x['kind'] == 'ptask_run']
                h, fut = opt_of(p, p.ret)
                ok = isinstance(fut, tuple) and fut[0] == 'future' and len(rets) == 1 and rets[0]['val'] == fut[1]
                ctx.ob('the returned future belongs to the stored task', w, ok, 'the future returned by %s is %s, the task fulfils %s' % (w, show(fut) if isinstance(fut, tuple) else fut, [show(x['val']) for x in rets]), path=p, key='future')
    ctx.need(n >= len(R.adders), 'successful submissions')


def runnable(I, et, pl):
    """run a stored task: through its own member that reaches the callable"""
    for cand in ('invoke', 'operator()', 'run', 'execute', 'call'):
        fids = [f for f in methods(I.P, split_targs(bare(et))[0], access=None) if (I.P.ref(f) or {}).get('n') == cand and not I.P.fns[f]['params']]
        if fids:
            I.call_fid(fids[0], pl, [])
            return
    raise AnalysisBroken('no way to run a stored ' + et)


# ------------------------------------------------------------------------------------------ progress of the rescheduling loops
@check('S09', SRC, 'Invariant: every stored interval is positive (proved at each insertion and each change of an interval on all abstract paths). With it, each catch-up loop is shown to advance by a positive amount per iteration towards '
       'its exit condition, so the scheduler thread and the calls terminate their loops.', min=10, assume=ASSUME)
def s09(ctx, P):
    R = sched(ctx, P)
    base = R.iv[:-len('.#val')] if R.iv.endswith('.#val') else R.iv

    def positive(facts, t, upto=None):
        if t is None:
            return False
        # the invariant itself, for tasks already stored (in the container, or in one collecting them for it)
        tail = R.iv.split('.', 2)[2]
        extra = [(lt(ZERO, s), True) for s in syms_in(t) if (key_of(s, R.T) or ('', ''))[1] == R.iv or ']' in s[1] and _VERS_(s[1]).rsplit(']', 1)[1].endswith('.' + tail)]
        return entails(list(facts) + extra, lt(ZERO, t), True)
    n = 0
    for r in R.roots:
        for p in r.paths:
            for i, e in enumerate(p.events):
                if e['kind'] == 'cop' and e['op'] in models_insert and entry(R, e):
                    h, v = iv_value(R, entry(R, e)[1])
                    if h is None or h in LOW:
                        continue
                    n += 1
                    ctx.ob('stored intervals are positive', '%s line %s' % (r.name, e['line']), positive(facts_at(p, e), v), '%s stores a task whose interval may be zero or negative' % loc(e), ev=e, path=p, key='positive:%s' % (P.ref(r.fid) or {}).get('n'))
                elif e['kind'] == 'write' and not e.get('method') and e.get('val') is not None:
                    s = show_place(e['place'])
                    el = elem_prefix(s, R.T)
                    if el and _VERS_(s[len(el):]) == R.iv and e['val'][0] not in ('uninit', 'moved'):
                        n += 1
                        ctx.ob('stored intervals are positive', '%s line %s' % (r.name, e['line']), positive(facts_at(p, e), e['val']), '%s sets an interval that may be zero or negative' % loc(e), ev=e, path=p, key='positive:%s' % (P.ref(r.fid) or {}).get('n'))
    ctx.need(n >= 3, 'insertions of recurring tasks')
    # catch-up loops
    m = 0
    vl = visit_loops(R, None)
    for r in R.roots:
        for p in r.paths:
            if not (p.events and p.events[-1]['kind'] == 'loop_back'):
                continue
            b = p.events[-1]
            if b['loop'] in vl or b.get('meta'):
                continue
            body = own_iteration(p, b['loop'])
            if any(x['kind'] in ('cwait', 'lock') for x in body) or iterates(p, b['loop']):
                continue
            ks = [s for t, v in list(p.facts.items())[body[0]['nf'] if body else 0:] for s in syms_in(t) if s[1].startswith('iter:') and s[1].split('#')[0].endswith(':%s' % b['loop'][1])]
            conts = [(t, v) for t, v in p.facts.items() if any(s[1].startswith('iter:') and s[1].split('#')[0].endswith(':%s' % b['loop'][1]) for s in syms_in(t)) and t[0] == 'lt0' and not only_iter(t)]
            m += 1
            if not conts:
                if any(t == ('c', 1) for t, v in p.facts.items()):
                    continue
                first = any(t[0] == 'eq0' and v is True and any(s[1].startswith('iter:') and s[1].split('#')[0].endswith(':%s' % b['loop'][1]) for s in syms_in(t)) for t, v in p.facts.items())
                ctx.ob('each catch-up step advances', '%s line %s' % (r.name, b['loop'][1]), first, '%s: the loop at line %s does not depend on its own progress' % (r.name, b['loop'][1]), ev=b, path=p, key='stuck')
                continue
            for t, v in conts:
                step = coefficient(t[1], lambda s: s[1].startswith('iter:'))
                want = step if v else neg(step)
                ctx.ob('each catch-up step advances', '%s line %s' % (r.name, b['loop'][1]), positive(p.facts.items(), want), '%s: the loop at line %s may not advance (step %s)' % (r.name, b['loop'][1], show(step)), ev=b, path=p, key='advance')
    ctx.need(m, 'catch-up loops')


def iterates(p, loop):
    """is the loop one over the positions of a container?"""
    def its(t):
        if isinstance(t, tuple):
            if len(t) == 4 and t[0] == 'it' and isinstance(t[3], tuple) and t[3][0] == 'loop':
                yield t[3][1]
            for x in t:
                yield from its(x)
    return any(str(x).split('#')[0].endswith(':%s' % loop[1]) for t, v in p.facts.items() if t[0] == 'eq' for x in its(t))


def only_iter(t):
    return all(s[1].startswith('iter:') for s in syms_in(t))


def coefficient(poly, sel):
    out = ZERO
    for m, c in to_poly(poly).items():
        ks = [(a, x) for a, x in m if a[0] == 's' and sel(a)]
        if not ks:
            continue
        term = C(c)
        for a, x in m:
            if (a, x) not in ks:
                for _ in range(x):
                    term = mul(term, a)
        out = add(out, term)
    return out


@check('S10', SRC, 'Lockset analysis over all pairs of threads that may run concurrently (any two public calls, the scheduler thread, and jobs on the pool), and lock-order / self-deadlock / join-under-lock analysis with the pool inlined.', min=10,
       assume=ASSUME + ['destruction does not run concurrently with other calls on the same scheduler'])
def s10(ctx, P):
    R = sched(ctx, P)
    n = lockset_rule(ctx, P, CLS, R.roots, skip=lambda k: is_pool(k, R, P))
    ctx.need(n, 'conflicting accesses to shared state')
    runs = Runs(P, CLS, guards=R.guards)
    lock_order_rule(ctx, class_roots(P, CLS, runs))
