import re
from reg import check
from rules import *
from c_pool import _VERS_, I_val, thread_store
from c_sched import own_iteration, coefficient, div_exact, runnable
import models

CLS = 'tc::sdk::high_precision_timer'
SRC = ['high_precision_timer.cpp', 'spec:inst.cpp']
ASSUME = ['std:: containers, mutexes, condition variables, atomics, smart pointers, futures and threads behave as specified by the C++20 standard (modelled, not analysed)',
          'start(), stop() and destruction of one timer are not called concurrently with each other, nor from its own callback (they join the timer thread)']


class Timer:
    """the roles in the timer, found through its public API"""

    def __init__(self, ctx, P):
        self.P = P
        self.runs, self.roots, self.guards = analyse(P, CLS, owner=('start',), induct=True, numeric_prune=True)
        for r in self.roots:
            ctx.count(r.name, len(r.paths))
        self.threads = [r for r in self.roots if r.kind == 'thread']
        ctx.need(self.threads, 'threads started by the timer')
        self.inv = field_returned(P, self.runs, named(P, CLS, 'invoked_callback_count')[0])
        self.mis = field_returned(P, self.runs, named(P, CLS, 'missed_callback_count')[0])
        ctx.need(self.inv and self.mis, 'the counters the getters report')
        self.start, self.stop = named(P, CLS, 'start'), named(P, CLS, 'stop')
        self.setcb = named(P, CLS, 'set_callback')
        ctx.need(self.start and self.stop and self.setcb, 'start, stop and set_callback')
        t = {canon(e['place']) for f in self.setcb for p in self.runs.paths(f) for i, e in writes_of(p) if canon(e['place']).startswith('this.') and e['kind'] == 'write' and not is_sync_type(e.get('t') or '')}
        ctx.need(len(t) == 1, 'the member that holds the callback (found %s)' % sorted(t))
        self.T = t.pop()
        # what only start (while there is no thread) and the thread itself write
        w = {}
        for r in self.roots:
            for p in r.paths:
                for i, e in writes_of(p):
                    if e['kind'] == 'write' and not noop_write(p, e):
                        w.setdefault(canon(e['place']), set()).add('thread' if r.kind == 'thread' else (P.ref(r.fid) or {}).get('n'))
        self.written = w
        self.owned = {k for k, s in w.items() if k.startswith('this.') and s <= {'thread', 'start'}}
        fl = [k for k, s in w.items() if 'stop' in s and field_types(P, CLS).get(k[5:], '') in ('bool', 'std::atomic<bool>', 'std::atomic_bool') or k in self.guards and 'stop' in s and field_types(P, CLS).get(k[5:]) == 'bool']
        ctx.need(len(fl) == 1, 'the running state (found %s)' % sorted(fl))
        self.flag = fl[0]
        vals = {e['val'] for f in self.stop for p in self.runs.paths(f) for i, e in writes_of(p) if e['kind'] == 'write' and canon(e['place']) == self.flag}
        ctx.need(len(vals) == 1 and list(vals)[0] in (ZERO, ('c', 1), ('c', False), ('c', True)), 'the value that tells the thread to stop')
        self.low = bool(list(vals)[0][1])
        self.m = main_guard(self.guards, self.roots, self.T)
        # the interval is the member start stores its parameter in
        prm = P.fns[self.start[0]]['params'][0]['n']
        iv = {canon(e['place']) for f in self.start for p in self.runs.paths(f) for i, e in writes_of(p) if e['kind'] == 'write' and canon(e['place']).startswith('this.') and e.get('val') is not None and _VERS_(term_str(e['val'])) == prm}
        ctx.need(len(iv) == 1, 'the member that holds the interval (found %s)' % sorted(iv))
        self.I = iv.pop()
        self.prm = prm

    def norm(self, t):
        """versions of what only the thread writes while it lives do not matter between its own writes"""
        return subst(t, lambda s: ('s', sym_key(s[1])) + tuple(s[2:]) if sym_key(s[1]) in self.owned or sym_key(s[1]) == self.prm else None)

    def facts(self, l):
        out = []
        for t, v in l:
            n = self.norm(t)
            out.append((n, v))
        return out

    def isyms(self, *ts):
        return [s for t in ts for s in syms_in(t) if s[1] == self.I]

    def running(self, p, j=None):
        """truth value of the running state last read on the path (before event j), None if not decided"""
        for e in reversed(p.events[:j]):
            if e['kind'] == 'read' and canon(e['place']) == self.flag and e.get('val') is not None:
                v = e['val']
                b = bool(v[1]) if v[0] == 'c' else p.facts.get(v)
                if b is None:
                    b = False if entails(p.facts.items(), eq(v, ZERO), True) else True if entails(p.facts.items(), eq(v, ZERO), False) else None
                return None if b is None else b != self.low
            if e['kind'] in ('cwait',):
                return None
        return None


def timer(ctx, P):
    if not hasattr(P, '_timer'):
        P._timer = Timer(ctx, P)
    return P._timer


def calls_of(p):
    return [(i, e) for i, e in foreign_calls(p)]


def deadlines(R):
    """per path of the thread that waits: (path, index of the wait, deadline term)"""
    for r in R.threads:
        for p in r.paths:
            for i, e in enumerate(p.events):
                if e['kind'] == 'cwait' and e.get('timed') and e.get('deadline') is not None:
                    yield r, p, i, e


def iteration_start(p, i):
    """index of the head of the iteration of the outermost loop that the end of the path belongs to"""
    hs = [j for j, e in enumerate(p.events) if e['kind'] == 'loop_head']
    return hs[0] if hs else 0


def deltas(p, k, evs=None):
    """the amounts by which a counter is changed on a path: [(event, term or None)]"""
    out = []
    for e in (p.events if evs is None else evs):
        if e['kind'] == 'write' and canon(e['place']) == k and not e.get('init'):
            if e.get('old') is not None and e.get('val') is not None:
                out.append((e, e['delta'] if e.get('delta') is not None else sub(e['val'], e['old'])))
            else:
                out.append((e, None))
    return out


@check('H01', SRC, 'All paths of the timer\'s threads: a callback is invoked only by the timer thread, only after a wait for the current deadline that timed out (or a clock reading not before it), in a round that read the state as running after that wait; '
       'each round invokes at most one callback, and exactly the rounds that invoke one move the deadline.', min=8, assume=ASSUME)
def h01(ctx, P):
    R = timer(ctx, P)
    n = 0
    for r in R.roots:
        for p in r.paths:
            cs = calls_of(p)
            if r.kind != 'thread':
                ctx.ob('callbacks run on the timer thread only', r.name, not cs, '%s calls the callback in the calling thread' % r.name, ev=cs[0][1] if cs else None, path=p, key='thread')
                continue
            h = iteration_start(p, len(p.events))
            mine = [(i, e) for i, e in cs]
            ctx.ob('one callback per round', r.name, len(mine) <= 1, '%s invokes the callback %d times in one round' % (r.name, len(mine)), path=p, key='once')
            moved = False
            for i, e in mine:
                n += 1
                wk = [j for j, x in enumerate(p.events[:i]) if x['kind'] == 'cwake']
                wt = [j for j, x in enumerate(p.events[:i]) if x['kind'] == 'cwait']
                run = R.running(p, i)
                ctx.ob('callbacks are invoked only while running', '%s line %s' % (r.name, e['line']), run is True, '%s invokes the callback without having read, after its last wait, that the timer runs' % loc(e), ev=e, path=p, key='running')
                due = False
                if wk and wt and p.events[wk[-1]].get('timeout') is True:
                    w = p.events[wt[-1]]
                    due = w.get('deadline') is not None and is_deadline(R, w['deadline'])
                if not due:
                    fs = R.facts(facts_at(p, e))
                    nows = [x['val'] for x in p.events[:i] if x['kind'] == 'now']
                    due = any(entails(fs, lt(x, d), False) for x in nows for d in deadline_terms(R))
                ctx.ob('callbacks are invoked only when due', '%s line %s' % (r.name, e['line']), due, '%s invokes the callback although the deadline need not have passed' % loc(e), ev=e, path=p, key='due')
            if p.end == 'loopback' and is_outer(R, p):
                own = own_iteration(p, p.events[-1]['loop'])
                called = any(e['kind'] in FOREIGN for e in own)
                adv = new_deadline(R, p, own)
                ctx.ob('the deadline moves exactly with the callback', r.name, called == (adv is not None), '%s %s' % (r.name, 'invokes the callback and keeps the deadline' if called else 'moves the deadline without invoking the callback'), path=p, key='advance')
                for j, x in enumerate(own):
                    if x['kind'] == 'cwake' and x.get('timeout') is True and any(y['kind'] == 'cwait' and y.get('haspred') for y in own):
                        ctx.ob('every deadline is served', r.name, called, '%s lets a deadline pass without invoking the callback' % r.name, path=p, key='served')
            if p.end in ('threadend', 'return'):
                ctx.ob('the timer thread ends only when stopped', r.name, R.running(p) is False, '%s can end although the timer runs' % r.name, path=p, key='threadend')
            if p.end == 'throw':
                ctx.ob('the timer thread survives', r.name, False, '%s can end with an exception' % r.name, path=p, key='throw')
    ctx.need(n, 'invocations of the callback')
    for r, p, i, e in deadlines(R):
        ctx.ob('the wait ends at the current deadline', '%s line %s' % (r.name, e['line']), is_deadline(R, e['deadline']), '%s waits until %s, which is not the deadline of the timer' % (loc(e), show(e['deadline'])), ev=e, path=p, key='deadline')
    for r in R.threads:
        for p in r.paths:
            for e in p.events:
                if e['kind'] == 'cwait':
                    ctx.ob('the thread never sleeps without limit', '%s line %s' % (r.name, e['line']), e.get('timed'), '%s waits without a deadline' % loc(e), ev=e, path=p, key='untimed')


def is_outer(R, p):
    """does the path end with another round of the loop that waits?"""
    lp = p.events[-1]['loop']
    return any(x['kind'] == 'cwait' and any(l == lp for l, it in x['loops']) for r in R.threads for q in r.paths for x in q.events)


def deadline_places(R):
    """where the deadline is kept: a member, or a local variable of the thread's loop"""
    if hasattr(R, '_dl'):
        return R._dl
    out = set()
    for r, p, i, e in deadlines(R):
        d = e['deadline']
        if d[0] == 's' and sym_key(d[1]) in R.owned:
            out.add(('member', sym_key(d[1])))
        for x in p.events:
            if x['kind'] == 'loopvar' and x.get('val') == d and d[0] == 's':
                out.add(('local', canon(x['place'])))
    R._dl = out
    return out


def is_deadline(R, d):
    return d[0] == 's' and (('member', sym_key(d[1])) in deadline_places(R) or len(deadline_places(R)) == 1 and next(iter(deadline_places(R)))[0] == 'local')


def deadline_terms(R):
    return {R.norm(e['deadline']) for r, p, i, e in deadlines(R)} | {('s', k, ) for kind, k in deadline_places(R) if kind == 'member'} | {s for r in R.threads for p in r.paths for t in p.facts for s in syms_in(R.norm(t)) for kind, k in deadline_places(R) if kind == 'member' and s[1] == k}


def new_deadline(R, p, own):
    """the value the deadline has at the end of a round, None if unchanged"""
    ks = deadline_places(R)
    if len(ks) != 1:
        raise AnalysisBroken('the deadline is not kept in one place: %s' % sorted(ks))
    kind, k = next(iter(ks))
    if kind == 'member':
        w = [e for e in own if e['kind'] in ('write', 'loopmod') and canon(e['place']) == k and not noop_write(p, e)]
        return R.norm(w[-1]['val']) if w and w[-1].get('val') is not None else None
    hv = [e for e in own if e['kind'] == 'loopvar' and canon(e['place']) == k]
    if not hv:
        return None
    v = p.mem.get(hv[0]['place'])
    return None if v is None or v == hv[0]['val'] else R.norm(v)


def old_deadline(R, p, own):
    kind, k = next(iter(deadline_places(R)))
    if kind == 'member':
        return next((s for e in own for t in ([e['val']] if isinstance(e.get('val'), tuple) else []) + ([e['deadline']] if isinstance(e.get('deadline'), tuple) else []) for s in syms_in(R.norm(t)) if s[1] == k), None)
    return next((e['val'] for e in own if e['kind'] == 'loopvar' and canon(e['place']) == k), None)


def inner_loops(own, lp):
    return [e['loop'] for e in own if e['kind'] == 'loop_head' and e['loop'] != lp]


def positive_interval(R):
    """[(I > 0)] as extra facts, for every version of I used"""
    return lambda fs: [(lt(ZERO, s), True) for s in {s for t, v in fs for s in syms_in(t) if s[1] == R.I}]


def interval_writes(ctx, R, P):
    """every interval ever stored is positive"""
    n = 0
    for r in R.roots:
        for p in r.paths:
            for i, e in writes_of(p):
                if e['kind'] == 'write' and canon(e['place']) == R.I and not noop_write(p, e):
                    n += 1
                    good = e.get('val') is not None and entails(R.facts(facts_at(p, e)), lt(ZERO, R.norm(e['val'])), True)
                    ctx.ob('stored intervals are positive', '%s line %s' % (r.name, e['line']), good and r.kind == 'method' and r.fid in R.start, '%s stores an interval that may be zero or negative' % loc(e), ev=e, path=p, key='interval')
    ctx.need(n, 'stores of the interval')


def division_axioms(fs, I):
    """T = trunc(late / I) for late >= 0 and I > 0: T >= 0 and I*T <= late < I*T + I"""
    def truncs(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == 'trunc':
                yield t
            for x in t:
                yield from truncs(x)
    out = [(lt(ZERO, I), True)]
    for T in sorted({x for t, v in fs for x in truncs(t)}, key=repr):
        late = mul(T[1], I)
        if entails(fs + out[:1], lt(late, ZERO), False):
            out += [(lt(T, ZERO), False), (lt(late, mul(I, T)), False), (lt(late, add(mul(I, T), I)), True)]
    return out


@check('H02', SRC, 'Symbolic evaluation of every round of the timer thread over the old deadline D, the interval I and the clock reading made after the callback: the new deadline is D + K*I with K >= 1, not before the reading, and no grid point after the reading is skipped; '
       'invoked grows by 1 and missed by K-1. start() sets D to its clock reading + I and resets both counters while no thread lives; nothing else changes any of them.', min=12, assume=ASSUME)
def h02(ctx, P):
    R = timer(ctx, P)
    interval_writes(ctx, R, P)
    pos = positive_interval(R)
    n = 0
    for r in R.threads:
        for p in r.paths:
            if p.end != 'loopback' or not is_outer(R, p):
                continue
            lp = p.events[-1]['loop']
            own = own_iteration(p, lp)
            ci = next((i for i, e in enumerate(own) if e['kind'] in FOREIGN), None)
            dinv = deltas(p, R.inv, own)
            dmis = deltas(p, R.mis, own)
            if ci is None:
                ctx.ob('only a callback is counted', r.name, not dinv and not [d for d in dmis if d[1] != ZERO], '%s changes a counter in a round without callback' % r.name, path=p, key='count0')
                continue
            n += 1
            ctx.ob('each callback is counted once', r.name, len(dinv) == 1 and dinv[0][1] == ('c', 1), '%s counts one invoked callback as %s' % (r.name, [show(d) if d is not None else '?' for e, d in dinv]), path=p, key='invoked')
            D, N = old_deadline(R, p, own), new_deadline(R, p, own)
            if D is None or N is None:
                ctx.ob('the deadline moves on', r.name, False, '%s does not move the deadline after a callback' % r.name, path=p, key='grid')
                continue
            step = sub(N, D)
            I = next((s for s in syms_in(step) if s[1] == R.I), None)
            K = div_exact(step, I) if I is not None else None
            fs = R.facts(p.facts.items())
            if not ctx.ob('the deadline stays on its grid', r.name, K is not None and is_integral(K), '%s moves the deadline by %s, which is not a multiple of the interval' % (r.name, show(step)), path=p, key='grid'):
                continue
            fs = fs + division_axioms(fs + [(N, True)], I)
            its = [(lt(s, ZERO), False) for s in syms_in(K) if s[1].startswith('iter:')]
            ctx.ob('the deadline advances', r.name, entails(fs + its, lt(ZERO, K), True), '%s can leave the deadline where it was' % r.name, path=p, key='forward')
            nows = [e['val'] for e in own[ci:] if e['kind'] == 'now']
            ctx.ob('the next deadline is not already over', r.name, bool(nows) and any(entails(fs, lt(N, x), False) for x in nows), '%s can set a deadline that lies before the end of the callback' % r.name, path=p, key='notpast')
            # no grid point is skipped without need
            inner = [l for l in inner_loops(own[ci:], lp)]
            if K != ('c', 1):
                ok = True
                for l in inner:
                    for q in r.paths:
                        if q.end == 'loopback' and q.events[-1]['loop'] == l:
                            o2 = own_iteration(q, l)
                            cand = [R.norm(e['val']) for e in o2 if e['kind'] in ('loopvar', 'loopmod') and e['loop'] == l and e.get('val') is not None]
                            fq = R.facts(q.facts.items())
                            nq = [e['val'] for e in q.events if e['kind'] == 'now']
                            cand = [c for c in cand if (lambda s: s is not None and any(x[1] == R.I for x in syms_in(s)) or c == D)(sub(c, D)) and any(x == D or x[1] == D[1] for x in syms_in(c))]
                            ok = ok and any(entails(fq, lt(x, c), False) for c in cand for x in nq)
                if not inner:
                    ok = any(entails(fs + pos(fs), lt(x, sub(N, I)), False) for x in nows)
                ctx.ob('no future deadline is skipped', r.name, ok, '%s can skip a deadline that has not passed yet' % r.name, path=p, key='skip')
            # missed = K - 1
            total = ZERO
            known = True
            for e, d in dmis:
                if d is None:
                    known = False
                else:
                    inl = [l for l, it in e['loops'] if l in inner]
                    if not inl:
                        total = add(total, d)
            for l in inner:
                per = set()
                for q in r.paths:
                    if q.end == 'loopback' and q.events[-1]['loop'] == l:
                        s = ZERO
                        for e, d in deltas(q, R.mis, own_iteration(q, l)):
                            s = add(s, d) if d is not None else None
                        per.add(s)
                if len(per) > 1 or None in per:
                    known = False
                elif per and per != {ZERO}:
                    k = [s for s in syms_in(K) if s[1].startswith('iter:') and s[1].split('#')[0].endswith(':%s' % l[1])]
                    zero = any(t[0] == 'eq0' and v is True and any(s[1].startswith('iter:') and s[1].split('#')[0].endswith(':%s' % l[1]) for s in syms_in(t)) for t, v in p.facts.items())
                    if k:
                        total = add(total, mul(next(iter(per)), k[0]))
                    elif not zero:
                        known = False
            total = R.norm(total)
            good = known and equal_under(fs, total, sub(K, ('c', 1)))
            ctx.ob('every skipped deadline is counted as missed', r.name, good, '%s counts %s missed callbacks where the deadline skips %s' % (r.name, show(total) if known else '?', show(sub(K, ('c', 1)))), path=p, key='missed')
    ctx.need(n, 'rounds that invoke the callback')
    for r in R.roots:
        if r.kind == 'thread':
            continue
        nm = (P.ref(r.fid) or {}).get('n')
        for p in r.paths:
            for i, e in writes_of(p):
                if e['kind'] == 'write' and canon(e['place']) in (R.inv, R.mis, R.I) + tuple(k for kind, k in deadline_places(R) if kind == 'member') and not noop_write(p, e):
                    ctx.ob('only start resets the timer', '%s line %s' % (r.name, e['line']), r.fid in R.start, '%s changes %s' % (loc(e), canon(e['place'])), ev=e, path=p, key='reset:%s' % nm)
    for f in R.start:
        for p in R.runs.paths(f):
            sp = [i for i, e in enumerate(p.events) if e['kind'] == 'spawn']
            if p.end != 'return' or not sp:
                continue
            jn = [i for i, e in enumerate(p.events) if e['kind'] == 'join']
            lo = jn[-1] if jn else max([i for i, e in enumerate(p.events) if e['kind'] == 'read' and split_targs(bare(e.get('t') or ''))[0] == 'std::thread'] or [0])
            for k, what in ((R.inv, 'the invoked callbacks'), (R.mis, 'the missed callbacks')):
                w = [(i, e) for i, e in enumerate(p.events) if e['kind'] == 'write' and canon(e['place']) == k]
                ctx.ob('start resets the counters', '%s %s' % (sig(P, f), what), w and w[-1][1].get('val') == ZERO, 'start does not reset %s' % what, path=p, key='reset:' + k)
                if w:
                    ctx.ob('reset while no timer thread lives', '%s %s' % (sig(P, f), what), lo < w[-1][0] < sp[0], '%s resets %s while a timer thread may be counting' % (loc(w[-1][1]), what), ev=w[-1][1], path=p, key='resetlife:' + k)
            w = [(i, e) for i, e in enumerate(p.events) if e['kind'] == 'write' and canon(e['place']) == R.I]
            ctx.ob('the interval is the requested one', sig(P, f), w and _VERS_(term_str(w[-1][1]['val'])) == R.prm and lo < w[-1][0] < sp[0], 'start stores %s as interval' % (show(w[-1][1]['val']) if w else 'nothing'), path=p, key='ivset')
            for kind, k in deadline_places(R):
                if kind != 'member':
                    continue
                w = [(i, e) for i, e in enumerate(p.events) if e['kind'] == 'write' and canon(e['place']) == k]
                good = False
                if w:
                    v = w[-1][1]['val']
                    nows = [e['val'] for e in p.events[:w[-1][0]] if e['kind'] == 'now']
                    for x in nows:
                        d = sub(v, x)
                        good = good or d[0] == 's' and (sym_key(d[1]) == R.prm or sym_key(d[1]) == R.I)
                ctx.ob('the first deadline is one interval after the start', sig(P, f), good and lo < w[-1][0] < sp[0], 'start sets the first deadline to %s' % (show(w[-1][1]['val']) if w else 'nothing'), path=p, key='first')


def signals(e):
    return e['kind'] == 'promise_set' or e['kind'] == 'sync' and e['op'] in ('count_down', 'arrive_and_wait', 'release', 'arrive')


def waits_for(e):
    return e['kind'] == 'fwait' or e['kind'] == 'sync' and e['op'] in ('wait', 'arrive_and_wait', 'acquire')


@check('H03', SRC, 'All paths of start, stop, the destructor and the timer thread: start reports false without any effect exactly if the interval is not positive or no callback is set; otherwise it ends the old thread, starts exactly one, and returns only after the state '
       'was raised, so that a following stop cannot be overtaken. stop and the destructor lower the state and then join the thread.', min=12, assume=ASSUME)
def h03(ctx, P):
    R = timer(ctx, P)
    V = thread_store(ctx, P, CLS, R.roots)
    raised_in_thread = False
    promises = []
    for r in R.threads:
        for p in r.paths:
            up = [(i, e) for i, e in enumerate(p.events) if e['kind'] == 'write' and canon(e['place']) == R.flag and e.get('val') is not None and e['val'][0] == 'c' and bool(e['val'][1]) != R.low]
            ps = [(i, e) for i, e in enumerate(p.events) if signals(e)]
            wt = [i for i, e in enumerate(p.events) if e['kind'] in ('cwait', 'loop_head')] or [len(p.events)]
            if up:
                raised_in_thread = True
                ctx.ob('the thread raises the state before it reports to start', r.name, ps and up[-1][0] < ps[0][0], '%s raises the running state without start waiting for it: a stop in between is overwritten and never ends' % r.name, ev=up[0][1], path=p, key='raise')
            if ps:
                promises.append((p, ps))
                ctx.ob('start is released before the first wait', r.name, ps[0][0] < wt[0], '%s lets start wait for the whole session' % r.name, ev=ps[0][1], path=p, key='release')
            else:
                promises.append((p, ()))
    for f in R.start:
        verdicts = set()
        for p in R.runs.paths(f):
            if p.end == 'loopback':
                continue
            if not ctx.ob('start returns', sig(P, f), p.end == 'return' and isinstance(p.ret, tuple), 'start can end with %s' % p.end, path=p, key='start:end'):
                continue
            ok = bool(p.ret[1]) if p.ret[0] == 'c' else p.facts.get(p.ret)
            fs = list(p.facts.items())
            ivs = next((s for t, v in fs for s in syms_in(t) if sym_key(s[1]) == R.prm), ('s', R.prm, 1))
            nul = [v for t, v in fs if any(sym_key(s[1]) == R.T for s in syms_in(t)) and t[0] in ('eq', 'eq0')]
            nul = nul[0] if nul else None
            for t, v in fs:
                if t[0] == 's' and sym_key(t[1]) == R.T or t[0] == 'u' and any(sym_key(s[1]) == R.T for s in syms_in(t)):
                    nul = not v
            pos = True if entails(fs, lt(ZERO, ivs), True) else False if entails(fs, lt(ZERO, ivs), False) else None
            sp = [(i, e) for i, e in enumerate(p.events) if e['kind'] == 'spawn']
            jn = [(i, e) for i, e in enumerate(p.events) if e['kind'] == 'join']
            if ok is None:
                raise AnalysisBroken('outcome of %s not decided by the path' % sig(P, f))
            verdicts.add(ok)
            if not ok:
                ctx.ob('start refuses only for a reason', sig(P, f), pos is False or nul is True, 'start refuses although a callback is set and the interval is positive', path=p, key='refuse')
                eff = [e for i, e in writes_of(p) if e['kind'] != 'loopmod' and not noop_write(p, e) and canon(e['place']).startswith('this')] + [e for i, e in sp + jn]
                ctx.ob('a refused start has no effect', sig(P, f), not eff, 'start returns false but has an effect: %s' % (loc(eff[0]) if eff else ''), ev=eff[0] if eff else None, path=p, key='effect')
                continue
            ctx.ob('start accepts only a positive interval', sig(P, f), pos is True, 'start accepts an interval that may be zero or negative', path=p, key='acceptiv')
            ctx.ob('start accepts only with a callback', sig(P, f), nul is False, 'start accepts although no callback may be set', path=p, key='acceptcb')
            ctx.ob('start creates one thread', sig(P, f), len(sp) == 1, 'start creates %d threads' % len(sp), path=p, key='spawn')
            if not sp:
                continue
            nj = any(t[0] == 'u' and t[1] == 'joinable' and v is False for t, v in fs)
            lower = [i for i, e in enumerate(p.events) if e['kind'] == 'write' and canon(e['place']) == R.flag and e.get('val') is not None and e['val'][0] == 'c' and bool(e['val'][1]) == R.low]
            ctx.ob('the old thread has ended before the new one starts', sig(P, f), nj or any(i < sp[0][0] and lower and lower[0] < i for i, e in jn), 'start replaces a thread that may still run', path=p, key='oldthread')
            up = [i for i, e in enumerate(p.events) if e['kind'] == 'write' and canon(e['place']) == R.flag and e.get('val') is not None and e['val'][0] == 'c' and bool(e['val'][1]) != R.low]
            if raised_in_thread:
                prom = {x['val'] for q, ps in promises for i, x in ps if x.get('val') is not None}
                waits = [i for i, e in enumerate(p.events) if waits_for(e) and i > sp[0][0]]
                ctx.ob('start waits for the thread', sig(P, f), bool(waits) and all(ps for q, ps in promises), 'start returns before the thread has raised the running state', path=p, key='waitup')
            else:
                ctx.ob('the state is raised before the thread looks', sig(P, f), up and (not lower or up[-1] > lower[-1]) and up[-1] < sp[0][0], 'start does not raise the running state before it starts the thread', path=p, key='raise0')
        ctx.ob('start can succeed and fail', sig(P, f), verdicts == {True, False}, 'start always returns %s' % verdicts, key='start:both')
    ds = dtor_fids(P, CLS)
    ctx.ob('there is a destructor that stops', CLS, bool(ds), 'the timer has no destructor that stops it', key='nodtor')
    for what, fids in (('stop', R.stop), ('the destructor', ds)):
        for f in fids:
            for p in R.runs.paths(f):
                if p.end == 'loopback':
                    continue
                nj = [e for e in p.events if e['kind'] == 'read' and canon(e['place']) == V]
                noj = any(t[0] == 'u' and t[1] == 'joinable' and v is False for t, v in p.facts.items())
                lower = [i for i, e in enumerate(p.events) if e['kind'] == 'write' and canon(e['place']) == R.flag and e.get('val') is not None and e['val'][0] == 'c' and bool(e['val'][1]) == R.low]
                jn = [i for i, e in enumerate(p.events) if e['kind'] == 'join' and (canon(e['place']) == V or isinstance(e.get('val'), tuple) and e['val'][0] == 's' and sym_key(e['val'][1]) == V)]
                ctx.ob('%s ends' % what, sig(P, f), p.end == 'return', '%s can end with %s' % (what, p.end), path=p, key='%s:end' % what)
                ctx.ob('%s joins the thread after lowering the state' % what, sig(P, f), noj or jn and lower and lower[0] < jn[-1], '%s returns while the timer thread may still run (or waits for it without having told it to stop)' % what, path=p, key='%s:join' % what)
    for r in R.roots:
        nm = (P.ref(r.fid) or {}).get('n')
        if r.kind == 'method' and nm not in ('start', 'stop'):
            for p in r.paths:
                w = [e for i, e in writes_of(p) if e['kind'] == 'write' and canon(e['place']) in (R.flag, V)] + [e for e in p.events if e['kind'] in ('spawn', 'join')]
                ctx.ob('only start and stop change the running state', r.name, not w, '%s changes the running state' % r.name, ev=w[0] if w else None, path=p, key='otherflag')


@check('H04', SRC, 'Lost-wakeup analysis of the timer thread\'s wait: whoever makes its condition false notifies after a critical section of the waiter\'s mutex; the wait is left at the deadline and goes on only while the state, read in the same critical section, is running.', min=4, assume=ASSUME)
def h04(ctx, P):
    R = timer(ctx, P)
    ws = collect_waits(R.roots)
    ctx.need([w for w in ws if w.root.kind == 'thread'], 'waits of the timer thread')
    wakeup_rule(ctx, R.roots, ws)
    for w in ws:
        if w.root.kind != 'thread':
            continue
        for z in w.sleeps:
            names = {sym_key(s[1]) for t, v in z for s in syms_in(t)}
            low = [v for t, v in z if t[0] == 's' and sym_key(t[1]) == R.flag]
            ctx.ob('the thread sleeps only while the timer runs', '%s line %s' % (w.root.name, w.ev['line']), R.flag in names and (not low or bool(low[-1]) != R.low), '%s can sleep although the timer was told to stop' % loc(w.ev), ev=w.ev, path=w.path, key='sleep')


def start_waits(R):
    """start() goes on only after the thread it has started has signalled"""
    ps = [p for f in R.start for p in R.runs.paths(f) if any(e['kind'] == 'spawn' for e in p.events)]
    ok = lambda p: any(waits_for(e) and e['kind'] == 'fwait' and any(x['kind'] == 'spawn' for x in p.events[:i]) for i, e in enumerate(p.events))
    return bool(ps) and all(ok(p) for p in ps)


@check('H05', SRC, 'Lockset analysis of the timer thread against all public calls and of the public calls against each other (start, stop and destruction excepted among themselves), lock-order and join-under-lock analysis; no mutex is held while the callback runs, and the callback is owned by the caller meanwhile.', min=6, assume=ASSUME)
def h05(ctx, P):
    R = timer(ctx, P)
    n = lockset_rule(ctx, P, CLS, R.roots, lifecycle=('start', 'stop'), signalled=start_waits(R))
    ctx.need(n, 'conflicting accesses')
    lock_order_rule(ctx, R.roots)
    k = 0
    for r in R.threads:
        for p in r.paths:
            for i, e in calls_of(p):
                k += 1
                mine = sorted({canon(l[0]) for l in e['locks']})
                ctx.ob('no mutex held while the callback runs', '%s line %s' % (r.name, e['line']), not mine, '%s runs the callback while holding %s: a callback that uses the timer deadlocks' % (loc(e), ', '.join(mine)), ev=e, path=p, key='locked')
                if not mine:
                    ok = any(sym_key(x) == R.T for x in e.get('pins') or ())
                    ctx.ob('the running callback is kept alive', '%s line %s' % (r.name, e['line']), ok, '%s runs the callback without owning it: set_callback() destroys it meanwhile' % loc(e), ev=e, path=p, key='alive')
    ctx.need(k, 'invocations of the callback')


@check('H06', SRC, 'What each instantiation of set_callback() stores is executed abstractly after the call has returned: it calls the given callable once with the given arguments, copied, in order. The thread invokes what that member holds after its last wait, and set_callback changes nothing else.', min=8, assume=ASSUME)
def h06(ctx, P):
    R = timer(ctx, P)
    ty = field_types(P, CLS)[R.T[5:]]
    for f in R.setcb:
        fn = P.fns[f]
        names = []
        for i, prm in enumerate(fn['params']):
            j = sum(1 for q in fn['params'][:i] if q['n'] == prm['n'])
            names.append(prm['n'] if not j else '%s.%d' % (prm['n'], j + 1))

        def post(I, p):
            st = [e for e in I.events if e['kind'] == 'write' and canon(e['place']) == R.T and e.get('val') is not None]
            if not st:
                return
            pl, v = st[-1]['place'], st[-1]['val']
            I.expire()
            h, ta = split_targs(bare(ty))
            I.ev_add('job_start')
            if v[0] == 'ptr':
                pl = v[1]
                et = I.ctypes.get(pl) or bare(ta[0])
            else:
                et = bare(ty)
            if I.is_struct(et):
                runnable(I, et, pl)
            else:
                I.call_value(I.load(pl, et, quiet=True), [])
            I.ev_add('job_end')
        ps = R.runs.interp(keepheap=True).run(f, post=post)
        ctx.count('execution of what %s stored' % sig(P, f), len(ps))
        for p in ps:
            js = next((i for i, e in enumerate(p.events) if e['kind'] == 'job_start'), None)
            if not ctx.ob('the stored callback can be executed', sig(P, f), js is not None and p.end == 'return', 'no callback was stored, or executing it ends with %s' % p.end, path=p, key='nojob'):
                continue
            calls = [e for e in p.events[js:] if e['kind'] in FOREIGN]
            ctx.ob('the stored callback calls the given callable exactly once', sig(P, f), len(calls) == 1, 'executing the callback makes %d calls of user code' % len(calls), path=p, key='jobcalls')
            if len(calls) == 1:
                e = calls[0]
                callee = term_str(e['callee']) if isinstance(e['callee'], tuple) else str(e['callee'])
                ctx.ob('the callable is the given one, copied', '%s: %s' % (sig(P, f), callee), _VERS_(callee) == names[0] or callee.startswith(names[0] + '.'), 'the callback calls %s instead of the given %s' % (callee, names[0]), ev=e, path=p, key='jobcallee')
                got = [term_str(I_val(p, a)) for a in e['args']]
                ctx.ob('the arguments are the given ones, copied, in order', sig(P, f), got == names[1:], 'the callback passes (%s) instead of (%s)' % (', '.join(got), ', '.join(names[1:])), ev=e, path=p, key='jobargs')
    n = 0
    for r in R.threads:
        for p in r.paths:
            for i, e in calls_of(p):
                n += 1
                src = [s for s in [show_place(e['obj']) if e.get('obj') is not None else show(e['callee']) if isinstance(e['callee'], tuple) else str(e['callee'])]]
                ctx.ob('the thread invokes the callback that was set', '%s line %s' % (r.name, e['line']), R.T in _VERS_(src[0]), '%s invokes %s, which is not the callback that was set' % (loc(e), src[0]), ev=e, path=p, key='which')
                wt = [j for j, x in enumerate(p.events[:i]) if x['kind'] == 'cwait']
                rd = [j for j, x in enumerate(p.events[:i]) if x['kind'] == 'read' and canon(x['place']) == R.T]
                ctx.ob('a newly set callback is used from the next deadline on', '%s line %s' % (r.name, e['line']), rd and (not wt or rd[-1] > wt[-1]), '%s invokes a callback fetched before the last wait' % loc(e), ev=e, path=p, key='fresh')
    ctx.need(n, 'invocations of the callback')
