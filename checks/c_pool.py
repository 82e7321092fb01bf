from reg import check
from rules import *
import models

CLS = 'tc::sdk::thread_pool'
SRC = ['thread_pool.cpp', 'spec:inst.cpp']
ASSUME = ['std:: containers, mutexes, condition variables, latches, threads and futures behave as specified by the C++20 standard (modelled, not analysed)']


class Pool:
    """the roles in the pool, found through its public API"""

    def __init__(self, ctx, P):
        self.P = P
        self.runs, self.roots, self.guards = analyse(P, CLS, numeric_prune=True)
        for r in self.roots:
            ctx.count(r.name, len(r.paths))
        self.threads = [r for r in self.roots if r.kind == 'thread']
        ctx.need(self.threads, 'threads started by the pool')
        self.run_fids = named(P, CLS, 'run')
        q = set()
        for f in self.run_fids:
            for p in self.runs.paths(f):
                for i, e in writes_of(p):
                    if e['kind'] == 'cop' and canon(e['place']).startswith('this.'):
                        q.add(canon(e['place']))
        ctx.need(len(q) == 1, 'the container accepted jobs are put in (found %s)' % sorted(q))
        self.Q = q.pop()
        self.flag = field_returned(P, self.runs, named(P, CLS, 'is_running')[0])
        ctx.need(self.flag, 'the state is_running() reports')
        self.m = main_guard(self.guards, self.roots, self.Q)


def pool(ctx, P):
    if not hasattr(P, '_pool'):
        P._pool = Pool(ctx, P)
    return P._pool


def from_queue(Q, term):
    """the version of the job queue whose element a term denotes: ('front'|..., version text) or None"""
    s = show(term) if isinstance(term, tuple) else str(term)
    i = s.find(Q + '[')
    return s if i >= 0 else None


def job_calls(Q, p):
    """calls of user code reached from the worker: (index, event, text naming the element it came from or None)"""
    for i, e in foreign_calls(p):
        o = e.get('obj')
        s = show_place(o) if o is not None else show(e['callee']) if isinstance(e['callee'], tuple) else str(e['callee'])
        yield i, e, s if Q + '[' in s else None


def worker_obligations(ctx, R):
    n = 0
    for r in R.threads:
        for p in r.paths:
            if p.end == 'throw':
                ctx.ob('worker survives', r.name, False, 'a worker thread can end with an exception', path=p, key='workerthrow')
            mut = [(i, e) for i, e in writes_of(p, R.Q)if e['kind'] != 'write' or e.get('val') is None]
            calls = list(job_calls(R.Q, p))
            pops = []
            for i, e in mut:
                if e['kind'] == 'loopmod':
                    continue
                ok = e['op'] == 'pop_front'
                ctx.ob('the worker only removes the oldest job', '%s line %s %s' % (r.name, e['line'], e['op']), ok, '%s applies %s to the job queue' % (loc(e), e['op']), ev=e, path=p, key='workerop:%s' % e['op'])
                if ok:
                    pops.append((i, e))
            for i, e in pops:
                n += 1
                ne = e.get('checked') or entails(facts_at(p, e), models.empty_term(e['old']), False)
                ctx.ob('removal from a non-empty queue', '%s line %s' % (r.name, e['line']), ne, '%s removes a job although the queue may be empty' % loc(e), ev=e, path=p, key='popempty')
                want = '%s[front(%s)]' % (R.Q, show(e['old']))
                mine = [(j, c) for j, c, s in calls if s and want in s]
                done = p.end in ('loopback', 'threadend', 'return')
                ctx.ob('removed job is executed exactly once', '%s line %s' % (r.name, e['line']), len(mine) == 1 or not done,
                       '%s: the job removed from the queue is executed %d times on a path' % (loc(e), len(mine)), ev=e, path=p, key='execcount')
                # taken in the critical section of the removal
                fr = [x for x in p.events[:i] if x['kind'] == 'cop' and canon(x['place']) == R.Q and x['op'] in ('front', 'at') and x['old'] == e['old']]
                sect = cs_serial(e, R.m)
                ctx.ob('job read and removed in one critical section', '%s line %s' % (r.name, e['line']), sect is not None and any(cs_serial(x, R.m) == sect for x in fr),
                       '%s: reading the oldest job and removing it are not one critical section' % loc(e), ev=e, path=p, key='takesection')
            for j, c, s in calls:
                ok = s is not None and any('%s[front(%s)]' % (R.Q, show(e['old'])) in s for i, e in pops)
                ctx.ob('every executed job was removed from the queue', '%s line %s' % (r.name, c['line']), ok, '%s executes a job that stays in (or never was in) the queue' % loc(c), ev=c, path=p, key='execnopop')
    return n


@check('T01', SRC, 'Every abstract path of the submission call and of the worker thread is enumerated; each accepted job is appended exactly once and each removed job is the oldest one, is removed in '
       'the critical section that read it, and is invoked exactly once.', min=20, assume=ASSUME)
def t01(ctx, P):
    R = pool(ctx, P)
    ctx.need(R.m, 'a mutex protecting the job queue')
    for f in R.run_fids:
        for p in R.runs.paths(f):
            ctx.ob('submission returns', sig(P, f), p.end == 'return', 'run() can end with %s' % p.end, path=p)
            w = [e for i, e in writes_of(p, R.Q) if e['kind'] == 'cop']
            ctx.ob('submission appends exactly one job', sig(P, f), [e['op'] for e in w] == ['push_back'], '%s performs %s on the job queue' % (sig(P, f), [e['op'] for e in w] or 'nothing'), path=p, key='append')
            sp = [e for e in p.events if e['kind'] in FOREIGN]
            ctx.ob('submission does not run the job itself', sig(P, f), not sp, '%s calls user code in the submitting thread' % sig(P, f), ev=sp[0] if sp else None, path=p, key='inline')
    n = worker_obligations(ctx, R)
    ctx.need(n, 'removals from the job queue by a worker')
    # nobody else takes jobs out, except stop (which discards them all)
    for r in R.roots:
        if r.kind == 'thread' or r.fid in R.run_fids:
            continue
        nm = (P.ref(r.fid) or {}).get('n')
        for p in r.paths:
            for i, e in writes_of(p, R.Q):
                if e['kind'] != 'cop':
                    continue
                new = e.get('new')
                stops = nm == 'stop' or r.kind == 'dtor'
                if e['op'].startswith('pop') and stops:
                    # jobs discarded one at a time: T04 decides that none is left
                    ne = e.get('checked') or entails(facts_at(p, e), models.empty_term(e['old']), False)
                    ctx.ob('removal from a non-empty queue', '%s line %s' % (r.name, e['line']), ne, '%s removes a job although the queue may be empty' % loc(e), ev=e, path=p, key='popempty')
                    continue
                ctx.ob('only stopping discards jobs', '%s line %s %s' % (r.name, e['line'], e['op']), stops and models.size_of(new) == ZERO,
                       '%s changes the job queue (%s) outside run/worker/stop' % (loc(e), e['op']), ev=e, path=p, key='qchange:%s' % nm)


@check('T02', SRC, 'On every abstract path of the worker thread the set of mutexes held at each call of user code is computed; it must be empty, so one job can never block submission, stopping or another job.',
       min=1, assume=ASSUME)
def t02(ctx, P):
    R = pool(ctx, P)
    n = 0
    for r in R.roots:
        for p in r.paths:
            for i, e in foreign_calls(p):
                n += 1
                held = sorted({canon(l[0]) for l in e['locks']})
                ctx.ob('no mutex held while a job runs', '%s line %s' % (r.name, e['line']), not held, '%s runs a job while holding %s' % (loc(e), ', '.join(held)), ev=e, path=p, key='lockedjob')
    ctx.need(n, 'calls of jobs')


def job_outcome(ctx, P, R, cls, fids, what, opaque=()):
    """abstractly run what each submission stored, after the submitting call has returned, and see what it calls"""
    for f in fids:
        fn = P.fns[f]
        names = []
        for i, prm in enumerate(fn['params']):
            j = sum(1 for q in fn['params'][:i] if q['n'] == prm['n'])
            names.append(prm['n'] if not j else '%s.%d' % (prm['n'], j + 1))

        def post(I, p):
            st = [e for e in I.events if e['kind'] == 'cop' and e['op'] == 'push_back' and canon(e['place']) == R.Q]
            if len(st) != 1:
                return
            et = I.elem_type(st[0]['t'])
            v = st[0]['args'][0]
            I.expire()
            pl = I.new_temp(et, 'job')
            I.store(pl, v, et, quiet=True)
            I.ev_add('job_start')
            if I.is_struct(et):
                I.call_operator(bare(et), pl)
            else:
                I.call_value(I.load(pl, et, quiet=True), [])
            I.ev_add('job_end')
        ps = R.runs.interp(keepheap=True).run(f, post=post)
        ctx.count('execution of what %s stored' % sig(P, f), len(ps))
        for p in ps:
            js = next((i for i, e in enumerate(p.events) if e['kind'] == 'job_start'), None)
            if not ctx.ob('the stored job can be executed', sig(P, f), js is not None and p.end == 'return', 'no job was stored, or executing it ends with %s' % p.end, path=p, key='nojob'):
                continue
            calls = [e for e in p.events[js:] if e['kind'] in FOREIGN]
            ctx.ob('the job calls the submitted callable exactly once', sig(P, f), len(calls) == 1, 'executing the job makes %d calls of user code' % len(calls), path=p, key='jobcalls')
            if len(calls) == 1:
                e = calls[0]
                callee = term_str(e['callee']) if isinstance(e['callee'], tuple) else str(e['callee'])
                cname = names[0]
                fn0 = bare(fn['params'][0]['t'])
                ctx.ob('the callable is the submitted one, copied', '%s: %s' % (sig(P, f), callee), _VERS_(callee) == cname or callee.startswith(cname + '.'), 'the job calls %s instead of the submitted %s' % (callee, cname), ev=e, path=p, key='jobcallee')
                got = [term_str(I_val(p, a)) for a in e['args']]
                if '(' in fn0 or fn0.endswith('*'):
                    ctx.ob('the arguments are the submitted ones, copied, in order', sig(P, f), got == names[1:], 'the job passes (%s) instead of (%s)' % (', '.join(got), ', '.join(names[1:])), ev=e, path=p, key='jobargs')
            rets = [e for e in p.events if e['kind'] == 'ptask_run']
            fut = p.ret
            ok = isinstance(fut, tuple) and fut[0] == 'future' and len(rets) == 1 and rets[0]['val'] == fut[1]
            ctx.ob('the returned future belongs to the stored job', sig(P, f), ok, 'the future returned by %s is %s, the job fulfils %s' % (sig(P, f), show(fut) if isinstance(fut, tuple) else fut, [show(e['val']) for e in rets]), path=p, key='jobfuture')


def _VERS_(s):
    return re.sub(r'[@#]\d+', '', s)


def I_val(p, a):
    if a[0] == 'L':
        return p.mem.get(a[1], a)
    return a


@check('T03', SRC, 'For every instantiated signature of run(), the object it stores is executed abstractly after the submitting call has returned (its parameters and locals no longer readable): it calls the '
       'submitted callable exactly once with the submitted arguments in order, through the packaged task whose future was returned, so results and exceptions reach that future.', min=12, assume=ASSUME)
def t03(ctx, P):
    R = pool(ctx, P)
    job_outcome(ctx, P, R, CLS, R.run_fids, 'run')


def flag_tests(p, flag):
    """value of the running flag when it was first read on a path (None: not read)"""
    for e in p.events:
        if e['kind'] in ('read',) and canon(e['place']) == flag and e.get('val') is not None:
            v = e['val']
            if v[0] == 'c':
                return bool(v[1])
            return dict(p.facts).get(v)
        if e['kind'] == 'write' and canon(e['place']) == flag and e.get('rmw'):
            return None
    return None


def session_rule(ctx, P, R, cls, roots, runs, flag, start='start', stop='stop'):
    """start and stop: decided by the running flag alone, check-and-set atomically, no effect when they report false"""
    for nm, before, after in ((start, False, True), (stop, True, False)):
        for f in named(P, cls, nm):
            seen = set()
            for p in runs.paths(f):
                # the whole change of state excludes other lifecycle calls
                rd = [e for e in p.events if e['kind'] == 'read' and canon(e['place']) == flag]
                wr = [e for e in p.events if e['kind'] == 'write' and canon(e['place']) == flag]
                eff = rd[:1] + wr + [e for e in p.events if e['kind'] in ('spawn', 'join')]
                if wr and wr[-1].get('val') in (C(1 if after else 0), TRUE if after else FALSE):
                    com = None
                    for e in eff:
                        s = {(canon(l[0]), l[2]) for l in e['locks'] if l[1] == 'x'}
                        com = s if com is None else com & s
                    ctx.ob('%s excludes other lifecycle calls until it is complete' % nm, sig(P, f), bool(com), '%s tests the running state, changes it, and starts or joins threads without holding one lock throughout: a concurrent %s overlaps' % (nm, stop if nm == start else start), ev=next((e for e in eff if not e['locks']), wr[0]), path=p, key='%s:exclusive' % nm)
                if p.end == 'loopback':
                    continue
                ctx.ob('%s returns' % nm, sig(P, f), p.end == 'return', '%s can end with %s' % (nm, p.end), path=p, key='%s:end' % nm)
                if p.end != 'return' or not (isinstance(p.ret, tuple) and p.ret[0] == 'c'):
                    if p.end == 'return':
                        raise AnalysisBroken('%s returns a value that is not decided by the path' % sig(P, f))
                    continue
                did = bool(p.ret[1])
                seen.add(did)
                rd = [e for e in p.events if e['kind'] == 'read' and canon(e['place']) == flag]
                wr = [e for e in p.events if e['kind'] == 'write' and canon(e['place']) == flag]
                if not ctx.ob('%s consults the running state' % nm, sig(P, f), rd, '%s decides without reading the running state' % nm, path=p, key='%s:noread' % nm):
                    continue
                v = rd[0].get('val')
                known = bool(v[1]) if v and v[0] == 'c' else dict(p.facts).get(v)
                if known is None and v is not None and v[0] == 's':
                    known = True if entails(p.facts.items(), v, True) else None
                ctx.ob('%s reports true exactly when the state changes' % nm, '%s -> %s' % (sig(P, f), did), known is not None and known == (before if did else not before),
                       '%s returns %s although the running state was %s' % (nm, did, known), ev=rd[0], path=p, key='%s:verdict' % nm)
                if did:
                    ctx.ob('%s sets the running state' % nm, sig(P, f), wr and wr[-1].get('val') in (C(1 if after else 0), TRUE if after else FALSE), '%s returns true without leaving the running state %s' % (nm, after), path=p, key='%s:set' % nm)
                    if wr:
                        atomic = any(e.get('rmw') for e in wr)
                        com = {l[2] for l in rd[0]['locks']} & {l[2] for l in wr[0]['locks']}
                        ctx.ob('%s tests and sets the running state atomically' % nm, sig(P, f), atomic or com, '%s tests and sets the running state in separate critical sections' % nm, ev=wr[0], path=p, key='%s:atomic' % nm)
                else:
                    eff = [e for i, e in writes_of(p) if not noop_write(p, e) and canon(e['place']).startswith('this') and not (e.get('rmw') and canon(e['place']) == flag)] + [e for e in p.events if e['kind'] in ('spawn', 'join')]
                    ctx.ob('%s has no effect when it reports false' % nm, sig(P, f), not eff, '%s returns false but changes state: %s' % (nm, loc(eff[0]) if eff else ''), ev=eff[0] if eff else None, path=p, key='%s:effect' % nm)
            ctx.ob('%s can do both' % nm, sig(P, f), seen == {True, False}, '%s always returns %s' % (nm, seen), key='%s:both' % nm)


def none_left(p, c):
    """a container is known to be empty when the path ends"""
    return equal_under(p.facts.items(), models.size_of(c), ZERO) or entails(p.facts.items(), models.empty_term(c), True)


def thread_store(ctx, P, cls, roots):
    """the containers (or members) started threads are kept in"""
    V = set()
    for r in roots:
        for p in r.paths:
            for e in p.events:
                if e['kind'] == 'spawn':
                    k = canon(e['place'])
                    V.add(k[:-2] if k.endswith('[]') else k)
                elif e['kind'] == 'write' and e.get('method') == 'operator=' and split_targs(bare(e.get('t') or ''))[0] in ('std::thread', 'std::jthread'):
                    V.add(canon(e['place']))
    V = {v for v in V if v.startswith('this.')}
    if not V:
        # started in a local, moved into the object afterwards: the member that can own threads
        own = re.compile(r'std::j?thread\b(?!::)')
        V = {'this.' + f['n'] for f in (P.recs.get(cls) or {}).get('fields') or [] if own.search(bare(f['t'])) and not bare(f['t']).endswith('*')}
    ctx.need(len(V) == 1, 'the member that owns the started threads (found %s)' % sorted(V))
    return V.pop()


def join_rule(ctx, P, R, cls, V, runs, names=('stop',)):
    """every path that stops a session joins every thread that was started, then forgets them"""
    n = 0
    for nm in names:
        fids = dtor_fids(P, cls) if nm == '~' else named(P, cls, nm)
        for f in fids:
            ps = runs.paths(f)
            lids = {l for p in ps for e in p.events if e['kind'] == 'join' for l, it in e['loops']}
            for p in ps:
                # iterations
                if p.end == 'loopback':
                    back = p.events[-1]['loop'] if p.events and p.events[-1]['kind'] == 'loop_back' else None
                    if back in lids:
                        n += 1
                        j = [e for e in p.events if e['kind'] == 'join' and canon(e['place']).startswith(V) and any(l == back for l, it in e['loops'])]
                        notj = any(t[0] == 'u' and t[1] == 'joinable' and v is False for t, v in p.facts.items())
                        ctx.ob('each started thread is joined', '%s loop line %s' % (sig(P, f), back[1]), j or notj, '%s skips joining a joinable thread' % sig(P, f), path=p, key='joinskip')
                    continue
                if p.end != 'return':
                    continue
                wr = [e for e in p.events if e['kind'] == 'write' and canon(e['place']) == R.flag and e.get('val') in (C(0), FALSE) and not noop_write(p, e)]
                if not wr:
                    continue
                n += 1
                iw = p.events.index(wr[0])
                full = False
                for e in p.events[iw:]:
                    if e['kind'] == 'loop_exit' and e['loop'] in lids:
                        meta = e.get('meta')
                        if meta and meta[0] == 'range':
                            full = canon(meta[1]) == V
                        else:
                            full = True
                    if e['kind'] == 'loop_break' and e['loop'] in lids:
                        full = False
                    if e['kind'] == 'join' and not e['loops'] and canon(e['place']) == V:
                        full = True
                empty = any(t == models.empty_term(e['old']) and v for t, v in p.facts.items() for e in p.events if e['kind'] == 'cop' and canon(e['place']) == V)
                if not V.endswith('s') or not full:
                    nj = any(t[0] == 'u' and t[1] == 'joinable' and v is False for t, v in p.facts.items())
                    full = full or nj
                ctx.ob('stopping joins every started thread', sig(P, f), full or empty, '%s returns without having joined all threads' % sig(P, f), ev=wr[0], path=p, key='joinall')
    return n


@check('T04', SRC, 'All paths of start, stop, the destructor and the worker: start/stop are decided by the running flag tested and set atomically; a successful start creates exactly '
       'clamp(requested, 1, hardware_concurrency) threads (derived from the loop\'s trip count) and releases the readiness latch; a successful stop discards the queue, wakes and joins every thread.', min=20, assume=ASSUME)
def t04(ctx, P):
    R = pool(ctx, P)
    runs = Runs(P, CLS, guards=R.guards, numeric_prune=True, induct=True)
    session_rule(ctx, P, R, CLS, R.roots, runs, R.flag)
    V = thread_store(ctx, P, CLS, R.roots)
    n = join_rule(ctx, P, R, CLS, V, runs)
    ctx.need(n, 'paths that stop the pool')
    # nothing but start adds threads, nothing but stop removes them; ctor leaves none
    for r in R.roots:
        nm = (P.ref(r.fid) or {}).get('n')
        if nm in ('start', 'stop') or r.kind == 'dtor':
            continue
        for p in r.paths:
            w = [e for i, e in writes_of(p, V)]
            ctx.ob('only start and stop change the set of threads', r.name, not w, '%s changes the set of threads' % r.name, path=p, ev=w[0] if w else None)
    for f in named(P, CLS, 'stop'):
        for p in runs.paths(f):
            if p.end == 'return' and p.ret[1]:
                lv = last_value(p, V)
                ctx.ob('no thread is remembered after stop', sig(P, f), lv is not None and none_left(p, lv), 'stop leaves threads behind', path=p, key='cleared')
                lq = last_value(p, R.Q)
                ctx.ob('queued jobs are discarded by stop', sig(P, f), lq is not None and none_left(p, lq), 'stop leaves jobs in the queue', path=p, key='discard')
    # number of threads
    cnt = None
    tc = named(P, CLS, 'threads_count')[0]
    cnt = field_returned(P, R.runs, tc)
    ctx.need(cnt, 'what threads_count() reports')
    for f in named(P, CLS, 'start'):
        prm = P.fns[f]['params'][0]['n']
        good = 0
        for p in runs.paths(f):
            if p.end != 'return' or not p.ret[1]:
                continue
            facts = list(p.facts.items())
            # the threads already present: none, by the rules above
            for e in p.events:
                if e['kind'] == 'cop' and canon(e['place']) == V:
                    facts.append((eq(models.size_of(e['old']), ZERO), True)) if e['old'][0] == 's' and term_str(e['old']) == V else None
            for v in V0_syms(p, V):
                facts.append((eq(('size', v), ZERO), True))
            hw = ('s', 'hardware_concurrency')
            syms = set()
            for t, v in facts:
                syms_in(t, syms)
            hw = next((s for s in syms if s[1] == 'hardware_concurrency'), None)
            pn = next((s for s in syms if sym_key(s[1]) == prm), None)
            if pn is None or hw is None and not entails(facts, lt(pn, ONE), True):
                ctx.ob('the number of threads depends on the request', sig(P, f), False, 'start ignores the requested number of threads', path=p, key='ignored')
                continue
            val = last_value(p, V)
            sz = models.size_of(val) if val is not None else ZERO
            cn = sz if cnt == 'size ' + V else last_value(p, cnt)
            cases = [([(lt(pn, ONE), True)], ONE)]
            if hw is not None:
                cases += [([(lt(pn, ONE), False), (lt(hw, ONE), True)], ONE), ([(lt(pn, ONE), False), (lt(hw, ONE), False), (lt(hw, pn), True)], hw), ([(lt(pn, ONE), False), (lt(hw, pn), False)], pn)]
            for c, want in cases:
                fs = facts + c
                if not feasible([x for x in fs if x[0][0] in ('lt0', 'eq0', 'not')], ints=True):
                    continue
                good += 1
                ctx.ob('exactly clamp(requested, 1, hardware) threads are started', '%s -> %s' % (sig(P, f), show(want)), equal_under(fs, sz, want), 'start creates %s threads where %s are due' % (show(sz), show(want)), path=p, key='count')
                ctx.ob('threads_count() reports that number', '%s -> %s' % (sig(P, f), show(want)), cn is not None and equal_under(fs, cn, want), 'threads_count() would report %s where %s threads run' % (show(cn) if cn else None, show(want)), path=p, key='reported')
                # latch
                for e in p.events:
                    if e['kind'] == 'sync_new':
                        a = next((x for x in p.events if x['kind'] == 'new' and x['place'] == e['place']), None)
                        if a is None or e['what'] != 'std::latch':
                            continue
                        ctx.ob('the readiness latch counts every thread and the starter', sig(P, f), equal_under(fs, a['args'][0], add(sz, ONE)), 'the latch expects %s arrivals, %s happen' % (show(a['args'][0]), show(add(sz, ONE))), ev=e, path=p, key='latch')
                        arr = [x for x in p.events if arrives(x)]
                        ctx.ob('the starter arrives once', sig(P, f), len(arr) == 1, 'start arrives %d times' % len(arr), path=p, key='latcharrive')
        ctx.need(good >= 3, 'successful paths of start')
        for p in runs.paths(f):
            for e in p.events:
                if e['kind'] == 'clamp':
                    ctx.ob('bounds of clamp are ordered', '%s line %s' % (sig(P, f), e['line']), entails(facts_at(p, e), lt(e['hi'], e['lo']), False), '%s clamps to an empty range' % loc(e), ev=e, path=p, key='clamp')
    latched = any(e['kind'] == 'sync_new' for r in R.roots for p in r.paths for e in p.events)
    if latched:
        for r in R.threads:
            for p in r.paths:
                if p.end in ('loopback', 'threadend', 'return'):
                    first = [e for e in p.events if e['kind'] in ('sync', 'lock', 'cop') or e['kind'] == 'loop_head' and not any(True for _ in ())]
                    arr = [e for e in p.events if arrives(e)]
                    inloop = [e for e in arr if any(it == 'g' and 'start' not in l[0] for l, it in e['loops'])]
                    ctx.ob('each thread arrives at the latch once', r.name, len(arr) == 1 and not inloop, 'a worker arrives %d times' % len(arr), path=p, key='workerarrive')
    # the flag is up before any worker can look at it
    for f in named(P, CLS, 'start'):
        for p in runs.paths(f):
            sp = next((i for i, e in enumerate(p.events) if e['kind'] == 'spawn'), None)
            wr = next((i for i, e in enumerate(p.events) if e['kind'] == 'write' and canon(e['place']) == R.flag), None)
            if sp is not None:
                ctx.ob('running before the first thread starts', sig(P, f), wr is not None and wr < sp, 'a thread is started before the pool counts as running', path=p, key='flagfirst')
    # destruction
    for f in dtor_fids(P, CLS):
        for p in runs.paths(f):
            if p.end != 'return':
                continue
            rd = [e for e in p.events if e['kind'] == 'read' and canon(e['place']) == R.flag]
            stopped = any(dict(p.facts).get(e['val']) is False for e in rd)
            wr = [e for e in p.events if e['kind'] == 'write' and canon(e['place']) == R.flag and e.get('val') in (C(0), FALSE)]
            ctx.ob('destruction stops a running pool', sig(P, f), bool(stopped or wr), 'the destructor leaves a running pool unstopped', path=p, key='dtorstop')
        join_rule(ctx, P, R, CLS, V, runs, names=('~',))
    need_dtor(ctx, P, CLS)


def arrives(e):
    return e['kind'] == 'sync' and (e['op'].startswith('arrive') or e['op'] == 'count_down' and e['args'] in ([], [ONE]))


def need_dtor(ctx, P, cls):
    ctx.ob('the destructor is user-provided or trivially safe', cls, bool(dtor_fids(P, cls)), '%s has no destructor that stops it' % cls, key='nodtor')


def V0_syms(p, V):
    out = set()
    for t, v in p.facts.items():
        for s in all_size_args(t):
            if s[0] == 's' and _VERS_(s[1]) == V and '#' not in s[1]:
                out.add(s)
    for e in p.events:
        if e['kind'] == 'cop' and canon(e['place']) == V and e['old'][0] == 's' and '#' not in e['old'][1]:
            out.add(e['old'])
    return out


def all_size_args(t):
    if isinstance(t, tuple):
        if t and t[0] == 'size':
            yield t[1]
        for x in t:
            yield from all_size_args(x)


@check('T05', SRC, 'Lost-wakeup analysis: every write that can turn a waiting worker\'s sleep condition false is followed by a notification ordered after (or inside) the critical section in which the condition is tested; '
       'notify_one is accepted only for single insertions, notify_all is required where several sleepers may be released.', min=5, assume=ASSUME)
def t05(ctx, P):
    R = pool(ctx, P)
    ws = collect_waits(R.roots)
    ctx.need(ws, 'waits on a condition variable')
    wakeup_rule(ctx, R.roots, ws)
    for r in R.threads:
        for p in r.paths:
            blocking_rule(ctx, p, r, R)


def blocking_rule(ctx, p, r, R):
    """a worker sleeps only on a condition variable with a tested condition (no blind sleep), and only when there is nothing to do"""
    for e in p.events:
        if e['kind'] == 'cwait' and not e['timed']:
            zs = [z for res, z, rd in e.get('alts') or [] if not res] if e.get('haspred') else [facts_at(p, e)]
            for z in zs:
                lits = [(t, v) for t, v in z]
                mentions = {sym_key(s[1]) for t, v in lits for s in syms_in(t)}
                ctx.ob('a worker sleeps only while the queue is empty and the pool runs', '%s line %s' % (r.name, e['line']), R.Q in mentions and R.flag in mentions,
                       '%s can sleep without having checked both the queue and the running state' % loc(e), ev=e, path=p, key='blindsleep')


@check('T06', SRC, 'On every worker path, the running flag was read as true inside the very critical section that removes the job; stop clears the flag before (or within) the critical section that discards the queue, so a job not '
       'yet taken when stop discards the queue is never executed.', min=3, assume=ASSUME)
def t06(ctx, P):
    R = pool(ctx, P)
    ctx.need(R.m, 'a mutex protecting the job queue')
    n = 0
    for r in R.threads:
        for p in r.paths:
            for i, e in writes_of(p, R.Q):
                if e['kind'] != 'cop' or e['op'] != 'pop_front':
                    continue
                n += 1
                s = cs_serial(e, R.m)
                wake = max([j for j, x in enumerate(p.events[:i]) if x['kind'] == 'cwake' and canon(x['mutex'] if x.get('mutex') else e['locks'][0][0]) == R.m] or [-1])
                lk = max([j for j, x in enumerate(p.events[:i]) if x['kind'] == 'lock' and canon(x['mutex']) == R.m] or [-1])
                rd = []
                for j, x in enumerate(p.events[:i]):
                    if x['kind'] == 'read' and canon(x['place']) == R.flag and j > lk:
                        if j > wake or x['inpred']:
                            rd.append(x)
                ok = False
                for x in rd:
                    v = x.get('val')
                    if v is None:
                        continue
                    if v == C(1) or dict(p.facts).get(v) is True:
                        ok = True
                ctx.ob('running state checked in the section that takes the job', '%s line %s' % (r.name, e['line']), ok, '%s takes a job without checking, after its last wait, that the pool still runs' % loc(e), ev=e, path=p, key='nocheck')
    ctx.need(n, 'removals by a worker')
    for f in named(P, CLS, 'stop'):
        for p in R.runs.paths(f):
            wr = next((i for i, e in enumerate(p.events) if e['kind'] == 'write' and canon(e['place']) == R.flag and e.get('val') in (C(0), FALSE)), None)
            if wr is None:
                continue
            cl = [i for i, e in writes_of(p, R.Q) if e['kind'] == 'cop']
            if not cl:
                continue
            s = cs_serial(p.events[cl[-1]], R.m)
            within = cs_serial(p.events[wr], R.m) == s
            ctx.ob('stop lowers the flag before the queue is discarded', sig(P, f), wr < cl[-1] or within, 'stop discards the queue before the flag is lowered: jobs submitted in between still run', ev=p.events[cl[-1]], path=p, key='order')


@check('T07', SRC, 'Lockset analysis over all pairs of threads that may run concurrently (any two public calls on one pool, and the workers) and lock-order / self-deadlock / join-under-lock analysis.', min=10,
       assume=ASSUME + ['destruction does not run concurrently with other calls on the same pool'])
def t07(ctx, P):
    R = pool(ctx, P)
    n = lockset_rule(ctx, P, CLS, R.roots)
    ctx.need(n, 'conflicting accesses to shared state')
    lock_order_rule(ctx, R.roots)
