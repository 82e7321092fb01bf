from reg import check
from rules import *
import models

CLS = 'tc::sdk::blocking_queue'
SRC = ['spec:inst.cpp']
ASSUME = ['std:: containers, mutexes and condition variables behave as specified by the C++20 standard (modelled, not analysed)',
          'the analysis is of blocking_queue<Item> for an arbitrary copyable Item; specialisations for other element types instantiate the same source']


class Queue:
    def __init__(self, ctx, P):
        self.P = P
        self.runs, self.roots, self.guards = analyse(P, CLS, numeric_prune=True, ints=True)
        self.push, self.pop = named(P, CLS, 'push'), named(P, CLS, 'pop')
        self.tpush, self.tpop = named(P, CLS, 'try_push'), named(P, CLS, 'try_pop')
        q = set()
        for f in self.push + self.tpush:
            for p in self.runs.paths(f):
                for i, e in writes_of(p):
                    if e['kind'] == 'cop' and canon(e['place']).startswith('this.'):
                        q.add(canon(e['place']))
        ctx.need(len(q) == 1, 'the container items are put in (found %s)' % sorted(q))
        self.Q = q.pop()
        self.m = main_guard(self.guards, self.roots, self.Q)
        self.cap = field_returned(P, self.runs, named(P, CLS, 'capacity')[0])
        ctx.need(self.cap and self.cap.startswith('this.'), 'what capacity() reports')
        for r in self.roots:
            ctx.count(r.name, len(r.paths))


def queue(ctx, P):
    if not hasattr(P, '_queue'):
        P._queue = Queue(ctx, P)
    return P._queue


def ops(R, p):
    return [e for i, e in writes_of(p, R.Q) if e['kind'] == 'cop']


def sleep_facts(R, p, e):
    """what is known while the caller sleeps: the failed test of the predicate, or the facts before a plain wait"""
    base = facts_at(p, e)
    if not e.get('haspred'):
        return [base]
    out = []
    for res, f2, rd in e.get('alts') or []:
        if not res:
            z = list(f2)
            about = any(a[1][0] == 's' and sym_key(a[1][1]) == R.Q for t, v in z for a in all_sizes(t))
            out.append(z if about else base + z)
    return out


def capsym(R, p, e):
    for t, v in facts_at(p, e):
        for s in syms_in(t):
            if sym_key(s[1]) == R.cap:
                return s
    return None


@check('Q01', SRC, 'On every abstract path: an insertion appends exactly the given item, once, at the back; a removal reads the front element and removes that same element within one critical section and returns exactly that '
       'element; nothing else changes the container. Hence items leave in insertion order, none is lost, duplicated or altered.', min=20, assume=ASSUME)
def q01(ctx, P):
    R = queue(ctx, P)
    for f in R.push + R.tpush:
        prm = P.fns[f]['params'][0]['n']
        tr = f in R.tpush
        for p in R.runs.paths(f):
            if p.end != 'return':
                ctx.ob('insertion completes', sig(P, f), p.end == 'loopback', 'ends with %s' % p.end, path=p)
                continue
            o = ops(R, p)
            inserted = not tr or bool(p.ret[1])
            if not inserted:
                ctx.ob('a refused insertion changes nothing', sig(P, f), not list(writes_of(p)), '%s returns false but modifies the queue' % sig(P, f), path=p, key='refused')
                continue
            ctx.ob('exactly one append per insertion', '%s %s' % (sig(P, f), [e['op'] for e in o]), [e['op'] for e in o] == ['push_back'], '%s performs %s' % (sig(P, f), [e['op'] for e in o]), path=p, key='append')
            for e in o:
                if e['op'] == 'push_back':
                    v = e['args'][0]
                    names = sorted({sym_key(s[1]) for s in syms_in(v)})
                    ok = bool(names) and all(n == prm or n.startswith(prm + '.') for n in names) and v[0] in ('agg', 's')
                    ctx.ob('the given item is what is stored', '%s line %s' % (sig(P, f), e['line']), ok, '%s stores %s instead of the given item' % (loc(e), term_str(v)), ev=e, path=p, key='stored')
    for f in R.pop + R.tpop:
        tr = f in R.tpop
        for p in R.runs.paths(f):
            if p.end != 'return':
                ctx.ob('removal completes', sig(P, f), p.end == 'loopback', 'ends with %s' % p.end, path=p)
                continue
            o = ops(R, p)
            r = p.ret
            rp = r[1] if r[0] in ('obj', 'L') else None
            val = None
            if tr:
                if rp is None:
                    raise AnalysisBroken('try_pop does not return an object the analysis follows')
                has = p.mem.get((rp[0], rp[1] + ('#has',)))
                if has is None or has[0] != 'c':
                    raise AnalysisBroken('try_pop: presence of the result is not decided')
                if not has[1]:
                    ctx.ob('an empty result changes nothing', sig(P, f), not o, '%s returns no item but modifies the queue' % sig(P, f), path=p, key='emptyresult')
                    continue
                vp = (rp[0], rp[1] + ('#val',))
            else:
                vp = rp
            got = {show(v) for q, v in p.mem.items() if q[0] == vp[0] and q[1][:len(vp[1])] == vp[1]} if vp else {show(r)}
            ctx.ob('exactly one removal, of the oldest item', '%s %s' % (sig(P, f), [e['op'] for e in o]), [e['op'] for e in o] == ['pop_front'], '%s performs %s' % (sig(P, f), [e['op'] for e in o]), path=p, key='remove')
            for e in o:
                if e['op'] != 'pop_front':
                    continue
                ne = e.get('checked') or entails(facts_at(p, e), models.empty_term(e['old']), False)
                ctx.ob('removal from a non-empty queue', '%s line %s' % (sig(P, f), e['line']), ne, '%s removes from a possibly empty queue' % loc(e), ev=e, path=p, key='popempty')
                want = '%s[front(%s)]' % (R.Q, show(e['old']))
                ctx.ob('the removed item is what is returned', '%s line %s' % (sig(P, f), e['line']), got and all(want in g for g in got), '%s returns %s, but removes %s' % (sig(P, f), sorted(got), want), ev=e, path=p, key='returned')
                s = cs_serial(e, R.m)
                fr = [x for x in p.events if x['kind'] == 'cop' and x['op'] in ('front', 'at') and canon(x['place']) == R.Q]
                ctx.ob('item read and removed in one critical section', '%s line %s' % (sig(P, f), e['line']), s is not None and any(cs_serial(x, R.m) == s and x['old'] == e['old'] for x in fr), '%s: reading and removing the item are not one critical section' % loc(e), ev=e, path=p, key='section')
    other = set(R.push + R.pop + R.tpush + R.tpop)
    for r in R.roots:
        if r.fid in other or r.kind == 'dtor':
            continue
        for p in r.paths:
            ctx.ob('observers change nothing', r.name, not list(writes_of(p)), '%s modifies the queue' % r.name, path=p, key='observer')


@check('Q02', SRC, 'The capacity is fixed at construction to max(requested, 1); at every append the branch facts of the same critical section imply size < capacity (checked in integer linear arithmetic), so size() <= capacity() '
       'in every reachable state; try_push refuses exactly when size >= capacity, and push waits only then.', min=8, assume=ASSUME)
def q02(ctx, P):
    R = queue(ctx, P)
    n = 0
    for f in R.push + R.tpush:
        for p in R.runs.paths(f):
            for e in ops(R, p):
                if e['op'] != 'push_back':
                    continue
                n += 1
                c = capsym(R, p, e)
                ok = c is not None and entails(facts_at(p, e), lt(models.size_of(e['old']), c), True)
                ctx.ob('append only below capacity', '%s line %s' % (sig(P, f), e['line']), ok, '%s can append to a full queue' % loc(e), ev=e, path=p, key='overfull')
                ctx.ob('appended under the queue\'s mutex', '%s line %s' % (sig(P, f), e['line']), cs_serial(e, R.m) is not None, '%s appends without the mutex' % loc(e), ev=e, path=p, key='nolock')
            if f in R.tpush and p.end == 'return' and not p.ret[1]:
                cs = {s for t, v in p.facts.items() for s in syms_in(t) if sym_key(s[1]) == R.cap}
                qs = {a for t, v in p.facts.items() for a in all_sizes(t) if a[1][0] == 's' and sym_key(a[1][1]) == R.Q}
                ok = any(entails(p.facts.items(), lt(q, c), False) for c in cs for q in qs)
                ctx.ob('an insertion is refused only when the queue is full', sig(P, f), ok, '%s refuses although there may be room' % sig(P, f), path=p, key='refuse')
            for e in p.events:
                if e['kind'] == 'cwait':
                    for z in sleep_facts(R, p, e):
                        fs = facts_at(p, e) + z
                        cs = {s for t, v in fs for s in syms_in(t) if sym_key(s[1]) == R.cap}
                        qs = {a for t, v in z for a in all_sizes(t) if a[1][0] == 's' and sym_key(a[1][1]) == R.Q}
                        ok = any(entails(z, lt(q, c), False) for c in cs for q in qs)
                        ctx.ob('push sleeps only while the queue is full', '%s line %s' % (sig(P, f), e['line']), ok, '%s sleeps although there may be room' % loc(e), ev=e, path=p, key='sleepfull')
    ctx.need(n >= 4, 'appends')
    for f in R.pop:
        for p in R.runs.paths(f):
            for e in p.events:
                if e['kind'] == 'cwait':
                    for z in sleep_facts(R, p, e):
                        qs = {a for t, v in z for a in all_sizes(t) if a[1][0] == 's' and sym_key(a[1][1]) == R.Q}
                        ok = any(entails(z, eq(q, ZERO), True) for q in qs)
                        ctx.ob('pop sleeps only while the queue is empty', '%s line %s' % (sig(P, f), e['line']), ok, '%s sleeps although there may be an item' % loc(e), ev=e, path=p, key='sleepempty')
    for f in R.tpop:
        for p in R.runs.paths(f):
            if p.end == 'return' and not ops(R, p):
                qs = {a for t, v in p.facts.items() for a in all_sizes(t) if a[1][0] == 's' and sym_key(a[1][1]) == R.Q}
                ctx.ob('no item is reported only when the queue is empty', sig(P, f), any(entails(p.facts.items(), eq(q, ZERO), True) for q in qs), '%s gives up although there may be an item' % sig(P, f), path=p, key='tpop')
    for f in named(P, CLS, 'size'):
        for p in R.runs.paths(f):
            ok = p.end == 'return' and p.ret[0] == 'size' and p.ret[1][0] == 's' and sym_key(p.ret[1][1]) == R.Q
            ctx.ob('size() reports the number of stored items', sig(P, f), ok, 'size() returns %s' % (term_str(p.ret) if isinstance(p.ret, tuple) else p.ret), path=p, key='size')
    capplace = (('this', ''), tuple(R.cap.split('.')[1:]))
    for r in R.roots:
        for p in r.paths:
            w = [e for i, e in writes_of(p, R.cap)]
            ctx.ob('the capacity never changes', r.name, not w, '%s changes the capacity' % r.name, path=p, key='capwrite')
    k = 0
    for f in ctor_fids(P, CLS):
        if not P.fns[f]['params'] or (P.ref(f) or {}).get('special'):
            continue
        prm = P.fns[f]['params'][0]['n']
        for p in R.runs.paths(f):
            v = p.mem.get(capplace)
            pn = next((s for t, x in list(p.facts.items()) + [(v, True)] for s in syms_in(t) if sym_key(s[1]) == prm), None)
            ok = v is not None and pn is not None
            if ok:
                top = (lt(C(2 ** 64 - 1), pn), False)
                for c, want in (([(lt(pn, ONE), True)], ONE), ([(lt(pn, ONE), False)], pn)):
                    fs = list(p.facts.items()) + c + [top]
                    if feasible([x for x in fs if x[0][0] in ('lt0', 'eq0', 'not')], ints=True):
                        k += 1
                        ok = ok and equal_under(fs, v, want)
            ctx.ob('capacity is max(requested, 1)', sig(P, f), ok, 'the constructor sets the capacity to %s' % (show(v) if v else None), path=p, key='ctor')
            qv = p.mem.get((('this', ''), tuple(R.Q.split('.')[1:])))
            ctx.ob('a new queue is empty', sig(P, f), qv is None or models.size_of(qv) == ZERO, 'the constructor leaves items in the queue', path=p, key='ctorempty')
            for e in p.events:
                if e['kind'] == 'clamp':
                    ctx.ob('bounds of clamp are ordered', sig(P, f), entails(facts_at(p, e), lt(e['hi'], e['lo']), False), 'clamps to an empty range', ev=e, path=p, key='clamp')
    ctx.need(k >= 2, 'constructor paths')


def all_sizes(t):
    if isinstance(t, tuple):
        if t and t[0] == 'size':
            yield t
        for x in t:
            yield from all_sizes(x)


@check('Q03', SRC, 'Lost-wakeup analysis of both directions: every transition that can end a sleep in push (queue no longer full) or pop (queue no longer empty) is followed, on every path, by a notification of that condition variable ordered '
       'after the waiters\' critical section; waits are on one mutex, held, and re-test their condition.', min=10, assume=ASSUME)
def q03(ctx, P):
    R = queue(ctx, P)
    ws = collect_waits(R.roots)
    ctx.need(len({w.root.fid for w in ws}) >= 3, 'waits in push (two overloads) and pop')
    wakeup_rule(ctx, R.roots, ws)
    for f in R.push + R.pop:
        for p in R.runs.paths(f):
            for i, e in enumerate(p.events):
                if e['kind'] == 'cwait' and not e.get('haspred'):
                    nxt = p.events[i + 1:]
                    inloop = bool(e['loops'])
                    ctx.ob('the condition is tested again after waking', '%s line %s' % (sig(P, f), e['line']), inloop, '%s waits without re-testing the condition' % loc(e), ev=e, path=p, key='retest')


@check('Q04', SRC, 'Lockset analysis of every pair of public operations on one queue, self-deadlock and lock-order analysis; the non-blocking operations (try_push, try_pop, size, capacity) contain no path that waits on a condition variable.',
       min=15, assume=ASSUME)
def q04(ctx, P):
    R = queue(ctx, P)
    n = lockset_rule(ctx, P, CLS, R.roots)
    ctx.need(n, 'conflicting accesses')
    lock_order_rule(ctx, R.roots)
    for r in R.roots:
        nm = (P.ref(r.fid) or {}).get('n')
        if nm in ('push', 'pop'):
            continue
        for p in r.paths:
            w = [e for e in p.events if e['kind'] in ('cwait', 'sleep', 'fwait', 'join')]
            ctx.ob('does not wait', r.name, not w, '%s can block' % r.name, ev=w[0] if w else None, path=p, key='blocks:%s' % nm)


def item_copy_throws(I, ref):
    """copying an Item from an lvalue may throw; moving one may not"""
    if ref.get('noexcept'):
        return False
    n = ref.get('n', '')
    ps = ref.get('params') or []
    if ref.get('special') in ('copy', 'copyassign') and bare(ref.get('cls') or '') == 'Item':
        return True
    if not (ref.get('sq') or '').startswith('std::'):
        return False
    if n in ('push', 'push_back', 'push_front', 'emplace', 'emplace_back', 'emplace_front', 'insert', 'optional', 'make_optional', 'operator='):
        return any(bare(t) == 'Item' and is_ref(t) and not t.rstrip().endswith('&&') for t in ps)
    return False


@check('Q05', SRC, 'Every point at which copying an item may throw is taken as an additional path (moves do not throw): on each such path the container is unchanged (an item not yet handed out is still in the queue, no item was '
       'half inserted) and every mutex has been released.', min=4, assume=ASSUME)
def q05(ctx, P):
    R = queue(ctx, P)
    n = 0
    for f in R.push + R.pop + R.tpush + R.tpop:
        ps = Interp(P, guards=R.guards, numeric_prune=True, ints=True, throws=item_copy_throws).run(f)
        ctx.count('with throwing copies: ' + sig(P, f), len(ps))
        for p in ps:
            if p.end != 'throw':
                ctx.ob('no termination', sig(P, f), p.end != 'terminate', '%s terminates the program when copying an item throws' % sig(P, f), path=p, key='terminate')
                continue
            n += 1
            o = ops(R, p)
            ctx.ob('a failed operation leaves the queue unchanged', sig(P, f), not o, '%s: when copying the item throws, the queue has already been changed by %s' % (sig(P, f), o[0]['op'] if o else ''), ev=o[0] if o else None, path=p, key='lost:%s' % (P.ref(f) or {}).get('n'))
            bal = balance(p)
            ctx.ob('a failed operation releases its mutexes', sig(P, f), not bal, '%s leaves %s locked' % (sig(P, f), bal), path=p, key='leak')
    ctx.need(n, 'throwing paths')


def balance(p):
    held = []
    for e in p.events:
        if e['kind'] == 'lock':
            held.append(canon(e['mutex']))
        elif e['kind'] == 'unlock' and canon(e['mutex']) in held:
            held.remove(canon(e['mutex']))
    return held
