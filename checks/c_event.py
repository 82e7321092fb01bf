from reg import check
from rules import *
import models
from c_pool import _VERS_, I_val
from c_sched import run_stored_job, pool_call, POOL, elem_prefix

CLS = 'tc::sdk::event_dispatcher'
SRC = ['event_dispatcher.cpp', 'thread_pool.cpp', 'spec:inst.cpp']
ASSUME = ['the thread pool behaves as its own properties (T01-T07) say', 'fewer than 2^64 handlers are added to one dispatcher',
          'typeid of distinct types compares unequal (C++20 standard)', 'std:: containers, mutexes and smart pointers behave as specified by the C++20 standard (modelled, not analysed)']
CHANGES = ('erase_it', 'erase_range', 'erase_key', 'erase_if', 'erase_value', 'remove_if', 'clear', 'pop_front', 'pop_back', 'extract', 'insert', 'ensure', 'overwrite', 'put', 'push_back', 'push_front',
           'assign', 'swap', 'merge', 'resize')


def decayed(t):
    """std::decay_t of a parameter type, as text"""
    return bare(t)


class Disp:
    """the roles in the dispatcher, found through its public API"""

    def __init__(self, ctx, P):
        self.P = P
        self.runs, self.roots, self.guards = analyse(P, CLS, numeric_prune=True, induct=True, no_inline=pool_call, on_call=run_stored_job)
        for r in self.roots:
            ctx.count(r.name, len(r.paths))
        self.add = named(P, CLS, 'add_handler')
        self.emit = named(P, CLS, 'emit')
        self.rmh = named(P, CLS, 'remove_handler')
        self.rme = named(P, CLS, 'remove_event')
        q = set()
        for f in self.add:
            for p in self.runs.paths(f):
                for i, e in writes_of(p):
                    if e['kind'] == 'cop' and canon(e['place']).startswith('this.'):
                        q.add(canon(e['place']).split('[')[0])
        ctx.need(len(q) == 1, 'the container handlers are put in (found %s)' % sorted(q))
        self.H = q.pop()
        self.m = main_guard(self.guards, self.roots, self.H)
        ctx.need(self.m, 'a mutex protecting the handlers')

    def in_list(self, name):
        """'H[pos].second' a place or symbol name starts with (versions kept), None if it is not inside a handler list"""
        e = elem_prefix(name, self.H)
        if e is None:
            return None
        i = name.find(e) + len(e)
        return e + '.second' if name[i:].startswith('.second') else None

    def changes(self, p):
        for i, e in enumerate(p.events):
            if e['kind'] == 'cop' and overlaps(canon(e['place']), self.H) and e['op'] in CHANGES:
                yield i, e
            elif e['kind'] == 'write' and overlaps(canon(e['place']), self.H) and not e.get('init') and not (i + 1 < len(p.events) and any(x['kind'] == 'cop' and x['place'] == e['place'] for x in p.events[i:i + 3])):
                yield i, e

    def effective(self, e):
        return not (e['kind'] == 'cop' and e['op'] == 'erase_if' and not e.get('erased'))


def disp(ctx, P):
    if not hasattr(P, '_disp'):
        P._disp = Disp(ctx, P)
    return P._disp


def param_names(P, fid):
    """names of the parameters, packs numbered as the analysis numbers them"""
    names, fn = [], P.fns[fid]
    for i, prm in enumerate(fn['params']):
        j = sum(1 for q in fn['params'][:i] if q['n'] == prm['n'])
        names.append(prm['n'] if not j else '%s.%d' % (prm['n'], j + 1))
    return names


def flat(t):
    """scalar parts of a key term"""
    if t[0] == 'agg':
        out = []
        for n, v in t[2]:
            out += flat(v)
        return out
    if t[0] == 'u' and t[1] in ('type_index',):
        return [x for y in t[2:] for x in flat(y)]
    return [t]


def is_type(x):
    """an identification of a type that is unique to it"""
    return x[0] in ('typeid', 'str', 'c') or x[0] == 's' and x[1].startswith("('typeid'") or x[0] == 'u' and x[1] in ('name', 'type_index') and all(is_type(y) for y in x[2:])


def keys_of(R, p):
    """(event, key term) of the accesses to the handlers under a key"""
    for e in p.events:
        if e['kind'] == 'cop' and canon(e['place']) == R.H and e['op'] in ('ensure', 'insert', 'find', 'contains', 'at', 'put', 'overwrite', 'count', 'equal_range') and e.get('args'):
            a = e['args'][0]
            if e['op'] in ('insert',) and a[0] == 'agg' and dict(a[2]).get('first') is not None and split_targs(a[1])[0] == 'std::pair' and len(e['args']) == 1:
                a = dict(a[2])['first']
            yield e, a


def arg_types(P, fid, adding):
    """the event argument types of an instantiation, decayed"""
    fn = P.fns[fid]
    if not adding:
        return tuple(decayed(x['t']) for x in fn['params'][1:])
    return None


def instantiation_key(R, P, fid):
    ks = {a for p in R.runs.paths(fid) for e, a in keys_of(R, p)}
    return ks


@check('E01', SRC, 'For every instantiated argument list of emit() all paths are enumerated: true is returned only after a complete loop over one snapshot of the handler list found under the event\'s key, whose every iteration hands the pool exactly '
       'one job; the job is executed abstractly after emit() has returned and calls that handler with the emitted arguments in order. False is returned only if nothing is registered under the key.', min=40, assume=ASSUME)
def e01(ctx, P):
    R = disp(ctx, P)
    n = 0
    for f in R.emit:
        names = param_names(P, f)
        loops = set()
        ps = R.runs.paths(f)
        lists = {}
        for p in ps:
            for i, e, job, own in hand_overs(p):
                if e['loops']:
                    loops.add(e['loops'][-1][0])
        for p in ps:
            hs = list(hand_overs(p))
            for i, e, job, own in hs:
                n += 1
                calls = [x for x in job or [] if x['kind'] in FOREIGN]
                if not ctx.ob('a job calls one handler once', '%s line %s' % (sig(P, f), e['line']), len(calls) == 1, '%s hands over a job that makes %d calls of handlers' % (loc(e), len(calls)), ev=e, path=p, key='jobcalls'):
                    continue
                c = calls[0]
                s = callee_name(c)
                cont = content_of(R, p, s)
                ctx.ob('the handler called is one registered for this event', '%s line %s: %s' % (sig(P, f), e['line'], s[:60]), cont is not None and list_under(R, p, cont), '%s hands over a job that calls %s, which is not taken from the list registered for this event'
                       % (loc(e), s[:120]), ev=e, path=p, key='jobcallee')
                prms = P.fns[f]['params']
                got = [_VERS_(x) if k + 1 < len(prms) and is_ref(prms[k + 1]['t']) else x for k, x in enumerate(exact(p, a) for a in c['args'])]
                ctx.ob('handlers get the emitted arguments, copied, in order', '%s line %s' % (sig(P, f), e['line']), got == names[1:], '%s: the handler is called with (%s) instead of the emitted (%s)' % (loc(e), ', '.join(got), ', '.join(names[1:])), ev=e, path=p, key='jobargs')
                ctx.ob('the job keeps its handler alive', '%s line %s' % (sig(P, f), e['line']), any(s.startswith('*' + o) for o in own), '%s hands over a job that does not own the handler it calls: removing the handler leaves it dangling' % loc(e), ev=e, path=p, key='jobowner')
            if p.end == 'loopback':
                lp = p.events[-1].get('loop') if p.events else None
                if lp in loops:
                    mine = [x for x in hs if any(l == lp for l, it in x[1]['loops'])]
                    ctx.ob('each handler is called exactly once', '%s loop line %s' % (sig(P, f), lp[1]), len(mine) == 1, 'emit hands over %d jobs for one handler' % len(mine), path=p, key='each')
                continue
            if not ctx.ob('emit returns', sig(P, f), p.end == 'return', 'emit can end with %s' % p.end, path=p, key='end'):
                continue
            if p.ret not in (C(0), C(1), TRUE, FALSE):
                raise AnalysisBroken('what emit returns is not decided by the path')
            here = present(R, p)
            did = p.ret in (C(1), TRUE)
            if did:
                # some list was found, and walked through to its end
                ctx.ob('emit returns true only if a handler is registered', sig(P, f), here is True and (known_nonempty(R, p) or nonempty_lists(ctx, R, P)), 'emit returns true although no handler may be registered under this event', path=p, key='true')
                ex = [x for x in p.events if x['kind'] == 'loop_exit' and x['loop'] in loops]
                br = [x for x in p.events if x['kind'] == 'loop_break' and x['loop'] in loops]
                ins = [x for x in hs if not any(l in loops for l, it in x[1]['loops'])]
                ctx.ob('every registered handler is called', sig(P, f), len(ex) == 1 and not br and not ins and whole_loop(R, p, ex[0], ps), 'emit can return true without having visited every handler of the event exactly once', path=p, key='all')
            else:
                ctx.ob('emit returns false only if no handler is registered', sig(P, f), here is False or known_empty(R, p), 'emit returns false although handlers are registered under this event', path=p, key='false')
                ctx.ob('nothing is called when emit returns false', sig(P, f), not hs, 'emit hands over jobs but returns false', path=p, key='falsecall')
        ctx.ob('emit hands its handlers to the pool', sig(P, f), bool(loops), 'no path of emit hands a handler to the pool', key='nohandover')
    ctx.need(n, 'hand-overs to the pool')


def hand_overs(p):
    for i, e in enumerate(p.events):
        if e['kind'] == 'call' and e['callee'] == POOL + '::run':
            js = next((j for j in range(i, len(p.events)) if p.events[j]['kind'] == 'job_start'), None)
            je = next((j for j in range(i, len(p.events)) if p.events[j]['kind'] == 'job_end'), None)
            own = p.events[js].get('owns') or [] if js is not None else []
            yield i, e, p.events[js:je] if js is not None and je is not None else None, own


def callee_name(c):
    return show_place(c['obj']) if c.get('obj') is not None else show(c['callee']) if isinstance(c['callee'], tuple) else str(c['callee'])


def exact(p, a):
    """an argument of the handler, by name if it is exactly the parameter's initial value"""
    v = I_val(p, a)
    return show(v) if isinstance(v, tuple) else str(v)


def bracket(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == '[':
            d += 1
        elif s[j] == ']':
            d -= 1
            if d == 0:
                return j
    return None


def content_of(R, p, s):
    """the container (name of its content, with versions) whose generic element the name `*C[pos]...` denotes"""
    s = s.lstrip('*')
    l = R.in_list(s)
    if l is not None and s.startswith(l) and s[len(l):].startswith('['):
        return l                   # directly an element of a registered list
    i = s.find('[')
    if i < 0:
        return None
    j = bracket(s, i)
    pos = s[i + 1:j] if j else ''
    if pos.startswith('idx('):
        # element number i of the i-th iteration
        its = [s for t, v in p.facts.items() for s in syms_in(t) if s[1].startswith('iter:')]
        if not any(pos.startswith('idx(%s, ' % show(s)) or pos.startswith('idx(0, ') and entails(p.facts.items(), eq(s, ZERO), True) for s in its):
            return None
        return R.in_list(pos)
    for pre in ('iter(', 'generic('):
        if pos.startswith(pre) and R.H in pos:
            return R.in_list(pos)
    if pos.startswith('loop('):
        for t, v in p.facts.items():
            if t[0] == 'eq':
                for x in t[1:]:
                    if isinstance(x, tuple) and x and x[0] == 'it' and show(('u',) + tuple(x[3])).find(pos[5:-1]) >= 0 and R.H in show(x[2]):
                        return R.in_list(show(x[2]))
    return None


def list_under(R, p, cont):
    """is the list one found under the key of this event?"""
    i, j = cont.find('['), bracket(cont, cont.find('['))
    pos = cont[i + 1:j]
    for e, a in keys_of(R, p):
        if pos in ('key(%s)' % show(a), 'find(%s)' % show(a)):
            return True
    return False


def present(R, p):
    """is something registered under the key, according to the path?"""
    for t, v in p.facts.items():
        if t[0] == 'u' and t[1] == 'contains' and isinstance(t[2], tuple) and R.H in show(t[2]):
            return v
    return None


def list_sizes(R, p):
    for t, v in p.facts.items():
        if t[0] in ('eq0', 'lt0'):
            ss = [s for s in syms_in(t) if s[1].startswith(R.H + '[')]
            if ss:
                yield t, v, ss[0]


def known_empty(R, p):
    return any(entails(p.facts.items(), models.empty_term(s), True) for t, v, s in list_sizes(R, p))


def no_events(R, p):
    return any(v is True and t[0] == 'eq0' and any(s[0] == 's' and sym_key(s[1]) == R.H for s in sizes_in(t)) for t, v in p.facts.items())


def known_nonempty(R, p):
    return any(entails(p.facts.items(), models.empty_term(s), False) for t, v, s in list_sizes(R, p))


def it_is_end(p):
    """containers whose end an iterator was seen to reach, with where the iterator stood"""
    for t, v in p.facts.items():
        if t[0] == 'eq' and v is True:
            its = [x for x in t[1:] if isinstance(x, tuple) and x and x[0] == 'it']
            if len(its) == 2 and any(x[3] == ('end',) for x in its):
                yield its[0] if its[1][3] == ('end',) else its[1]


def whole_loop(R, p, ex, ps):
    """does the loop that ends with this exit visit every element of its container, from the first to the last, one after the other?"""
    meta = ex.get('meta')
    if meta and meta[0] in ('range', 'for_each'):
        return True
    lp = ex['loop']
    # no iteration ends early
    for it in it_is_end(p):
        if it[3][0] in ('loop', 'begin'):
            return True
    # counting loop: leaves only when the counter has reached the size
    its = {s for t, v in p.facts.items() for s in syms_in(t) if s[1].startswith('iter:')}
    szs = {z for t, v in p.facts.items() for z in sizes_in(t) if R.H in show(z)}
    return any(entails(p.facts.items(), lt(i, models.size_of(z)), False) for i in its for z in szs)


def sizes_in(t):
    if isinstance(t, tuple):
        if t and t[0] == 'size':
            yield t[1]
        for x in t:
            yield from sizes_in(x)


# ------------------------------------------------------------------------------------------ routing
@check('E02', SRC, 'The key under which every instantiation of add_handler() and emit() accesses the handlers is computed as a term over the event name and the argument types. It must contain the whole name and identify the decayed argument types: '
       'the keys of any two instantiations are compared and must agree exactly if the decayed argument types do. The stored handler\'s type must be the one emit() casts to.', min=20, assume=ASSUME)
def e02(ctx, P):
    R = disp(ctx, P)
    keys = []
    for kind, fids in (('add_handler', R.add), ('emit', R.emit)):
        for f in fids:
            names = param_names(P, f)
            ks = set()
            for p in R.runs.paths(f):
                for e, a in keys_of(R, p):
                    ks.add(a)
            if not ctx.ob('one key per call', sig(P, f), len(ks) == 1, '%s uses %d different keys' % (sig(P, f), len(ks)), key='onekey:' + kind):
                continue
            k = ks.pop()
            parts = flat(k)
            whole = [x for x in parts if x == ('s', names[0]) or x[0] == 's' and x[1] == names[0]]
            rest = [x for x in parts if x not in whole]
            ctx.ob('the key contains the whole event name', '%s: %s' % (kind, sig(P, f)[-60:]), len(whole) == 1, '%s looks handlers up under %s, which does not contain the event name itself: different names can collide' % (sig(P, f), show(k)[:200]), key='name:' + kind)
            bad = [x for x in rest if not is_type(x)]
            ctx.ob('the rest of the key identifies types', '%s: %s' % (kind, sig(P, f)[-60:]), not bad, '%s: the key part %s is not an identification of the argument types that is free of collisions' % (sig(P, f), show(bad[0])[:120] if bad else ''), key='parts:' + kind)
            types = event_types(P, f, kind)
            keys.append((kind, f, types, tuple(sorted(map(str, rest)))))
    ctx.need(len(keys) >= 10, 'instantiations of add_handler and emit')
    for i, (k1, f1, t1, r1) in enumerate(keys):
        for k2, f2, t2, r2 in keys[i + 1:]:
            if k1 == k2 == 'add_handler':
                continue
            ctx.ob('same event, same key; other argument types, other key', '%s(%s) / %s(%s)' % (k1, ', '.join(t1), k2, ', '.join(t2)), (t1 == t2) == (r1 == r2),
                   '%s of an event with arguments (%s) and %s of one with (%s) %s' % (k1, ', '.join(t1), k2, ', '.join(t2), 'share a key' if r1 == r2 else 'use different keys'), key='keys')
    # the handler that is stored is of the type emit expects
    stored = {}
    for f in R.add:
        for p in R.runs.paths(f):
            for e in p.events:
                if e['kind'] == 'new' and split_targs(bare(e['t']))[0].startswith(CLS):
                    stored.setdefault(event_types(P, f, 'add_handler'), set()).add(bare(e['t']))
    for f in R.emit:
        for p in R.runs.paths(f):
            for e in p.events:
                if e['kind'] == 'ptrcast':
                    t = event_types(P, f, 'emit')
                    st = stored.get(t)
                    if st and e.get('to'):
                        ctx.ob('handlers are used as what they were stored as', '%s line %s' % (sig(P, f)[-60:], e['line']), st == {bare(e['to'])}, 'emit casts a handler of type %s to %s' % (sorted(st), e['to']), ev=e, path=p, key='cast')


def event_types(P, f, kind):
    """decayed argument types of an instantiation"""
    fn = P.fns[f]
    if kind == 'emit':
        return tuple(decayed(x['t']) for x in fn['params'][1:])
    ref = P.ref(f) or {}
    ta = ref.get('targs')
    if not ta:
        raise AnalysisBroken('template arguments of %s unknown' % sig(P, f))
    # <Args..., HandlerT>: the pack is listed first
    return tuple(decayed(x) for x in ta[:-1])


# ------------------------------------------------------------------------------------------ adding
@check('E03', SRC, 'All paths of every instantiation of add_handler(): exactly one handler is appended to the list of the event\'s key, nothing else changes; the id returned is the one stored in the handler; it is derived from a counter that '
       'strictly grows with every addition and is changed by nothing else, read and advanced in one critical section. The stored function is executed abstractly after the call: it calls the given callable once with its arguments in order.', min=24, assume=ASSUME)
def e03(ctx, P):
    R = disp(ctx, P)
    idf = id_field(ctx, R, P)
    steps = set()
    for f in R.add:
        for p in R.runs.paths(f):
            if p.end == 'loopback':
                continue
            if not ctx.ob('adding returns', sig(P, f), p.end == 'return', 'add_handler can end with %s' % p.end, path=p, key='end'):
                continue
            ch = [e for i, e in R.changes(p)]
            app = [e for e in ch if e['kind'] == 'cop' and e['op'] == 'push_back' and R.in_list(show_place(e['place']))]
            oth = [e for e in ch if e not in app and not (e['kind'] == 'cop' and e['op'] in ('ensure', 'insert', 'put') and canon(e['place']) == R.H)]
            fresh = [e for e in ch if e['kind'] == 'cop' and e['op'] in ('insert', 'put') and canon(e['place']) == R.H and inserted_handlers(e) is not None and len(inserted_handlers(e)) == 1]
            ok = len(app) + len(fresh) == 1 and not oth
            ctx.ob('adding appends exactly one handler', sig(P, f), ok, 'add_handler changes the handlers by %s' % [(e.get('op') or 'write', show_place(e['place'])[:60]) for e in ch], path=p, key='append')
            if not ok:
                continue
            e = (app or fresh)[0]
            if app:
                nm = R.in_list(show_place(e['place']))
                ctx.ob('the handler is registered under the event\'s key', sig(P, f), list_under(R, p, nm), 'add_handler appends to %s' % nm[:100], ev=e, path=p, key='key')
                v = e['args'][0]
            else:
                v = inserted_handlers(e)[0]
            hp = pointee(v)
            news = [x for x in p.events if x['kind'] == 'new' and x['place'] == hp or x['kind'] == 'new' and ('ptr', x['place']) == v]
            if not ctx.ob('what is appended is a new handler', sig(P, f), hp is not None and news, 'add_handler appends %s' % show(v)[:100], ev=e, path=p, key='new'):
                continue
            sid = p.mem.get((hp[0], hp[1] + (idf,))) if idf else None
            ctx.ob('the returned id is the handler\'s', sig(P, f), sid is not None and sid == p.raw, 'add_handler returns %s for a handler whose id is %s' % (show(p.raw) if isinstance(p.raw, tuple) else p.raw, show(sid) if sid else None), path=p, key='id')
            # freshness
            cs = counters(p, p.raw)
            if not ctx.ob('the id comes from a counter of the dispatcher', sig(P, f), len(cs) == 1, 'the id %s is not derived from one counter' % show(p.raw), path=p, key='counter'):
                continue
            name, c, d, w, rd = cs[0]
            steps.add((name, c, d))
            ctx.ob('the counter grows', sig(P, f), d >= 1, 'add_handler advances the id counter by %s' % d, ev=w, path=p, key='grows')
            at = w.get('rmw') and ('atomic' in (w.get('t') or '') or w.get('atomic'))
            same = {l[2] for l in w['locks']} & {l[2] for l in rd['locks']} if rd is not None else {l[2] for l in w['locks']}
            ctx.ob('read and advanced in one critical section', sig(P, f), at or same, 'add_handler reads and advances the id counter without a lock held throughout: two handlers can get the same id', ev=w, path=p, key='idatomic')
            ctx.ob('each dispatcher has its own counter, or a protected one', sig(P, f), name.startswith('this') or at, 'the id counter %s is shared by all dispatchers' % name, ev=w, path=p, key='idshared')
    ctx.ob('all instantiations draw ids the same way', CLS, len(steps) <= 1, 'ids are derived differently in different instantiations: %s' % sorted(map(str, steps)), key='steps')
    ctx.need(steps, 'id counters')
    names = {s[0] for s in steps}
    for r in R.roots:
        if r.fid in R.add or r.kind == 'ctor':
            continue
        for p in r.paths:
            for i, e in writes_of(p):
                if canon(e['place']) in names and not noop_write(p, e):
                    ctx.ob('nothing else changes the id counter', '%s line %s' % (r.name, e['line']), False, '%s changes the id counter: ids can repeat' % loc(e), ev=e, path=p, key='idreset')
    stored_functions(ctx, R, P)


def inserted_handlers(e):
    """handlers in a list inserted together with its key"""
    for a in e['args']:
        v = a
        if v[0] == 'agg' and dict(v[2]).get('second') is not None:
            v = dict(v[2])['second']
        if v[0] == 'u' and v[1] in ('list', 'init_list', 'push_back'):
            return [x for x in v[2:] if isinstance(x, tuple) and x and x[0] == 'ptr']
    return None


def pointee(v):
    if v[0] == 'ptr':
        return v[1]
    if v[0] in ('shared', 'owned') and len(v) > 1:
        return pointee(v[1])
    return None


def id_field(ctx, R, P):
    """the field of a handler remove_handler() compares with its argument"""
    c = set()
    for f in R.rmh:
        prm = param_names(P, f)[0]
        for p in R.runs.paths(f):
            for fs in fact_lists(p):
                for t, v in fs:
                    for s in matched_syms(t, prm):
                        if s[1].startswith('*') and '.' in s[1]:
                            c.add(_VERS_(s[1]).rsplit('.', 1)[1])
    ctx.need(len(c) == 1, 'the field of a handler that remove_handler() looks at (found %s)' % sorted(c))
    return c.pop()


def fact_lists(p):
    yield list(p.facts.items())
    for e in p.events:
        for o in e.get('outcomes') or ():
            yield o[0]
        for it in e.get('iters') or ():
            yield it[0]


def matched_syms(t, prm):
    """the other side of an equality with the parameter"""
    if t[0] in ('eq0', 'eq'):
        ss = syms_in(t)
        if any(sym_key(s[1]) == prm for s in ss) and len(ss) == 2:
            return [s for s in ss if sym_key(s[1]) != prm]
    return []


def counters(p, ret):
    """(name, c, d, write, read) with ret = old + c and new = old + d for the counter it is derived from"""
    out = []
    if not isinstance(ret, tuple):
        return out
    for s in syms_in(ret):
        nm = sym_key(s[1])
        c = sub(ret, s)
        if c[0] != 'c':
            continue
        ws = [e for e in p.events if e['kind'] == 'write' and canon(e['place']) == nm and e.get('val') is not None]
        if len(ws) != 1:
            continue
        w = ws[0]
        d = sub(w['val'], s)
        if d[0] != 'c':
            continue
        rd = next((e for e in p.events if e['kind'] == 'read' and canon(e['place']) == nm and e.get('val') == s), None)
        out.append((nm, c[1], d[1], w, rd))
    return out


def stored_functions(ctx, R, P):
    """run the stored handler abstractly, after the adding call has returned"""
    for f in R.add:
        types = event_types(P, f, 'add_handler')
        names = ['arg%d' % i for i in range(len(types))]

        def post(I, p):
            app = [e for e in I.events if e['kind'] == 'cop' and e['op'] in ('push_back', 'insert', 'put') and R.H in show_place(e['place'])]
            if not app:
                return
            v = app[-1]['args'][0] if app[-1]['op'] == 'push_back' else (inserted_handlers(app[-1]) or [None])[0]
            hp = pointee(v) if v else None
            if hp is None:
                return
            fns = [(pl, val) for pl, val in list(I.mem.items()) if pl[0] == hp[0] and pl[1][:len(hp[1])] == hp[1] and isinstance(val, tuple) and val and (val[0] in ('closure', 'fnptr', 'bind', 'obj'))]
            I.expire()
            I.ev_add('job_start', n=len(fns))
            for pl, val in fns[:1]:
                I.call_value(val, [('s', a) for a in names])
            I.ev_add('job_end')
        for p in R.runs.interp(keepheap=True).run(f, post=post):
            js = next((i for i, e in enumerate(p.events) if e['kind'] == 'job_start'), None)
            if p.end == 'loopback':
                continue
            if not ctx.ob('the stored handler can be executed', sig(P, f), js is not None and p.events[js]['n'] == 1 and p.end == 'return', 'the handler stored by add_handler has no function to execute (%s)' % p.end, path=p, key='nofn'):
                continue
            calls = [e for e in p.events[js:] if e['kind'] in FOREIGN]
            if not ctx.ob('the stored handler calls the given callable once', sig(P, f), len(calls) == 1, 'the stored handler makes %d calls' % len(calls), path=p, key='handlercalls'):
                continue
            e = calls[0]
            callee = _VERS_(callee_name(e))
            hn = param_names(P, f)[1]
            ctx.ob('the stored handler calls the given callable', '%s: %s' % (sig(P, f), callee[:40]), callee.split('.')[0] == hn or callee.startswith('captured:'), 'the stored handler calls %s' % callee, ev=e, path=p, key='handlercallee')
            got = [show(I_val(p, a)) for a in e['args']]
            ctx.ob('the stored handler passes its arguments in order', sig(P, f), got == names, 'the stored handler passes (%s) instead of (%s)' % (', '.join(got), ', '.join(names)), ev=e, path=p, key='handlerargs')


# ------------------------------------------------------------------------------------------ removing
def verdict(facts, prm, sel):
    """truth of `parameter == x` in these facts, for the x that sel accepts: (symbol, truth) pairs"""
    out = []
    for t, v in facts:
        k = t
        while k[0] == 'not':
            k, v = k[1], not v
        for s in matched_syms(k, prm):
            if sel(s):
                out.append((s, v))
    return out


def predicate_exact(e, prm, sel):
    """does the predicate of an erase_if accept exactly the elements equal to the parameter?"""
    outs = e.get('outcomes') or []
    if not outs:
        return False
    for facts, evs, d in outs:
        vs = {v for s, v in verdict(facts, prm, sel)}
        if d is None or vs != {d}:
            return False
    return {d for f, ev, d in outs} == {True, False}


def elem_name(it):
    pos = it[3]
    if pos == ('begin',):
        pos = ('front', it[2])
    return show_place((('elem', it[1], pos), ()))


def flag_outcome(R, p, ps, removes):
    """did something get removed, on a path whose result is a flag set in a loop?  None if that cannot be told"""
    r, neg = p.raw, False
    while isinstance(r, tuple) and r and r[0] == 'not':
        r, neg = r[1], not neg
    lv = next((e for e in p.events if e['kind'] == 'loopvar' and e['val'] == r), None)
    if lv is None or neg or lv['before'] not in (C(0), FALSE):
        return None
    for q in ps:
        if q.end != 'loopback' or q.events[-1].get('loop') != lv['loop']:
            continue
        after = q.mem.get(lv['place'])
        head = next((e['val'] for e in q.events if e['kind'] == 'loopvar' and e['place'] == lv['place'] and e['loop'] == lv['loop']), None)
        if removes(q):
            if after not in (C(1), TRUE):
                return None
        elif after != head and not (isinstance(head, tuple) and q.facts.get(head) is not None and after in ((C(1), TRUE) if q.facts[head] else (C(0), FALSE))):
            return None
    return p.ret in (C(1), TRUE)


def removal_paths(ctx, R, P, f, is_removal, in_vain, what):
    """the reported result agrees with what was done, on every path"""
    ps = R.runs.paths(f)
    seen = set()
    rm = lambda q: any(is_removal(q, i, e) for i, e in R.changes(q) if R.effective(e))
    for p in ps:
        if p.end == 'loopback':
            continue
        if not ctx.ob('%s returns' % what, sig(P, f), p.end == 'return' and p.ret in (C(0), C(1), TRUE, FALSE), '%s can end with %s' % (what, p.end), path=p, key='end:' + what):
            continue
        said = p.ret in (C(1), TRUE)
        seen.add(said)
        did = rm(p)
        viaflag = None
        if not did and any(x['kind'] == 'loop_exit' for x in p.events) and any(q.end == 'loopback' and rm(q) for q in ps):
            viaflag = flag_outcome(R, p, ps, rm)
        if viaflag is not None:
            ctx.ob('%s reports what it did' % what, '%s -> %s' % (sig(P, f), said), viaflag == said, '%s returns %s' % (what, said), path=p, key='report:' + what)
            vain = in_vain(p, ps, True)
            ctx.ob('%s looks everywhere' % what, '%s -> %s' % (sig(P, f), said), vain, '%s can return %s without having looked at every handler' % (what, said), path=p, key='vain:' + what)
            continue
        ctx.ob('%s reports what it did' % what, '%s -> %s' % (sig(P, f), said), did == said, '%s returns %s although %s was removed' % (what, said, 'something' if did else 'nothing'), path=p, key='report:' + what)
        if not said and not did:
            ctx.ob('%s looks everywhere' % what, '%s -> %s' % (sig(P, f), said), in_vain(p, ps, False), '%s can return false without having looked at every handler' % what, path=p, key='vain:' + what)
    ctx.ob('%s can succeed and fail' % what, sig(P, f), seen == {True, False}, '%s always returns %s' % (what, seen), key='both:' + what)


def search_vain(R, p, evs, place, prm, sel):
    """in these events a search over all of `place` (canonical name) ends without a match"""
    for j, e in enumerate(evs):
        if e['kind'] == 'cop' and e['op'] == 'erase_if' and not e.get('erased') and canon(e['place']) == place and predicate_exact(e, prm, sel):
            return True
        if e['kind'] == 'cop' and e['op'] == 'remove_if' and canon(e['place']) == place and predicate_exact(e, prm, sel):
            return True       # the tail is then seen to be empty
        if e['kind'] != 'loop_exit':
            continue
        meta = e.get('meta')
        its = e.get('iters') or []
        ok = bool(its) and all({v for s, v in verdict(x[0], prm, sel)} == {False} for x in its)
        if not ok:
            continue
        if meta and meta[0] == 'range':
            if canon(meta[1]) == place:
                return True
        elif meta and meta[1] is not None and canon(meta[1]) == place:
            for x in reversed(evs[:j]):
                if x['kind'] == 'cop' and x['op'] == 'search' and canon(x['place']) == place:
                    if x.get('full'):
                        return True
                    break
        else:
            for it in it_is_end(p):
                if canon(it[1]) == place and it[3][0] in ('loop', 'begin'):
                    return True
    return False


def outer_exit(R, p, j, e, ps):
    """a loop over all events ended here"""
    meta = e.get('meta')
    if meta and meta[0] in ('range', 'for_each'):
        return canon(meta[1]) == R.H
    if meta:
        return False
    return any(canon(it[1]) == R.H and it[3][0] in ('loop', 'begin') for it in it_is_end(p)) or no_events(R, p)


@check('E04', SRC, 'All paths of remove_handler() and remove_event(): every removal is of handlers (events) proved - from the removing predicate\'s outcomes or the branch facts - to carry exactly the given id (name), in the critical section that found them; '
       'false is returned only after a complete search without a match; apart from that only lists seen to be empty are dropped, and no list is left behind empty.', min=14, assume=ASSUME)
def e04(ctx, P):
    R = disp(ctx, P)
    idf = id_field(ctx, R, P)
    n = 0
    idsel = lambda s: s[1].startswith('*') and _VERS_(s[1]).endswith('.' + idf) and R.H in s[1]
    for f in R.rmh:
        prm = param_names(P, f)[0]
        ps = R.runs.paths(f)

        def is_removal(p, i, e):
            return e['kind'] == 'cop' and R.in_list(show_place(e['place'])) is not None and e['op'] in ('erase_if', 'erase_it', 'erase_range')

        def in_vain(p, ps, flag):
            for j, e in enumerate(p.events):
                if e['kind'] == 'loop_exit' and outer_exit(R, p, j, e, ps):
                    bad = False
                    for q in ps:
                        if q.end != 'loopback' or q.events[-1].get('loop') != e['loop']:
                            continue
                        h = max([i for i, x in enumerate(q.events) if x['kind'] == 'loop_head' and x['loop'] == e['loop']] or [0])
                        own = q.events[h:]
                        if any(is_removal(q, i, x) and R.effective(x) for i, x in R.changes(q)):
                            bad = bad or not flag
                            continue
                        pls = {canon(x['place']) for x in own if x.get('place') is not None and x['kind'] in ('cop', 'read', 'it_deref', 'loop_exit') and R.in_list(show_place(x['place']))}
                        pls = {x[:x.index('.second') + 7] for x in pls if '.second' in x} | {canon(x['meta'][1]) for x in own if x.get('meta') and x['meta'][1] is not None}
                        if not any(search_vain(R, q, own, pl, prm, idsel) for pl in pls):
                            bad = True
                    return not bad
            return False
        for p in ps:
            for i, e in R.changes(p):
                if not R.effective(e) and e['op'] == 'erase_if' and canon(e['place']) == R.H:
                    continue
                n += 1
                where = '%s line %s' % (sig(P, f), e['line'])
                nm = R.in_list(show_place(e['place'])) if canon(e['place']) != R.H else None
                if nm is not None and e['kind'] == 'cop':
                    ctx.ob('remove_handler removes only the handler with that id', where, removes_exactly(R, p, i, e, prm, idsel), '%s removes handlers that need not carry the given id' % loc(e), ev=e, path=p, key='exact')
                elif e['kind'] == 'cop' and canon(e['place']) == R.H:
                    ctx.ob('only empty lists are dropped', where, drops_empty(R, p, i, e, prm, idsel), '%s drops an event whose handlers need not all be gone' % loc(e), ev=e, path=p, key='drop')
                else:
                    ctx.ob('remove_handler only removes', where, False, '%s changes the handlers by %s' % (loc(e), e.get('op') or 'assignment'), ev=e, path=p, key='other')
                sections(ctx, R, P, f, p, i, e, where)
        removal_paths(ctx, R, P, f, is_removal, in_vain, 'remove_handler')
    ctx.ob('no event is left without handlers', CLS, nonempty_lists(ctx, R, P), 'remove_handler can leave an event registered that has no handlers: emit and remove_event then report success for nothing', key='leftempty')
    evsel = lambda s: s[1].startswith(R.H + '[') and s[1].count('.first') >= 1
    for f in R.rme:
        prm = param_names(P, f)[0]

        def is_removal2(p, i, e):
            return e['kind'] == 'cop' and canon(e['place']) == R.H and e['op'] in ('erase_if', 'erase_it', 'erase_range', 'erase_key')

        def in_vain2(p, ps, flag):
            if search_vain(R, p, p.events, R.H, prm, evsel):
                return True
            for j, e in enumerate(p.events):
                if e['kind'] == 'loop_exit' and outer_exit(R, p, j, e, ps):
                    for q in ps:
                        if q.end != 'loopback' or q.events[-1].get('loop') != e['loop']:
                            continue
                        vs = {v for s, v in verdict(q.facts.items(), prm, evsel)}
                        rem = any(is_removal2(q, i, x) for i, x in R.changes(q))
                        if vs != {rem}:
                            return False
                    return True
            return False
        for p in R.runs.paths(f):
            for i, e in R.changes(p):
                n += 1
                where = '%s line %s' % (sig(P, f), e['line'])
                ctx.ob('remove_event removes exactly the events of that name', where, is_removal2(p, i, e) and removes_exactly(R, p, i, e, prm, evsel), '%s removes events that need not have the given name' % loc(e), ev=e, path=p, key='evexact')
                sections(ctx, R, P, f, p, i, e, where)
            if p.end == 'return' and any(is_removal2(p, i, e) and R.effective(e) for i, e in R.changes(p)):
                whole = any(e['op'] in ('erase_if', 'erase_range') or e['op'] == 'erase_key' and show(e['args'][0]) == prm for i, e in R.changes(p) if is_removal2(p, i, e))
                ctx.ob('remove_event looks at every event', '%s line %s' % (sig(P, f), p.line), whole or in_vain2(p, R.runs.paths(f), None),
                       'remove_event stops after the first event of that name: handlers of the same name with other argument types stay registered', path=p, key='evall')
        removal_paths(ctx, R, P, f, is_removal2, in_vain2, 'remove_event')
    ctx.need(n >= 2, 'removals of handlers and events')


def sections(ctx, R, P, f, p, i, e, where):
    s = cs_serial(e, R.m)
    rd = [x for x in p.events[:i] if x['kind'] in ('read', 'cop') and overlaps(canon(x['place']), R.H)]
    ctx.ob('found and removed in one critical section', where, s is not None and all(cs_serial(x, R.m) == s for x in rd[-1:]), '%s removes what it found in an earlier critical section' % loc(e), ev=e, path=p, key='section')


def removes_exactly(R, p, i, e, prm, sel):
    if e['op'] == 'erase_if' or e['op'] == 'remove_if':
        return predicate_exact(e, prm, sel)
    if e['op'] == 'erase_it':
        el = _VERS_(elem_name(e['args'][0])) if e['args'][0][0] == 'it' else None
        return el is not None and any(v is True and el in _VERS_(s[1]) for s, v in verdict(facts_at(p, e), prm, sel))
    if e['op'] == 'erase_range':
        a, b = e['args'][0], e['args'][1] if len(e['args']) > 1 else None
        rem = [x for x in p.events[:i] if x['kind'] == 'cop' and x['op'] == 'remove_if' and canon(x['place']) == canon(e['place'])]
        return bool(rem) and a[0] == 'it' and a[3][0] == 'loop' and 'removed' in str(a[3][1]) and b is not None and b[0] == 'it' and b[3] == ('end',)
    return False


def drops_empty(R, p, i, e, prm, sel):
    """the entry dropped from H has no handlers (left)"""
    facts = facts_at(p, e)
    if e['op'] == 'erase_if':
        for fs, evs, d in e.get('outcomes') or []:
            ss = [s for t, v in fs for s in syms_in(t) if s[1].startswith(R.H + '[') and '.second' in s[1]]
            if d is not False and not any(entails(fs, models.empty_term(s), True) for s in ss):
                return False
        return bool(e.get('outcomes'))
    if e['op'] in ('erase_it', 'erase_key'):
        last = None
        for x in p.events[:i]:
            if x['kind'] == 'cop' and canon(x['place']) != R.H and R.in_list(show_place(x['place'])) and x.get('new') is not None:
                last = x
        if last is None:
            return False
        ent = elem_prefix(show_place(last['place']), R.H)
        a = e['args'][0]
        if e['op'] == 'erase_it':
            same = a[0] == 'it' and _VERS_(elem_name(a)) == _VERS_(ent)
        else:
            same = _VERS_(ent) + '.first' in _VERS_(show(a))
        return bool(same) and entails(facts, models.empty_term(last['new']), True)
    return False


def nonempty_lists(ctx, R, P):
    """no operation leaves a registered list empty"""
    if hasattr(R, 'nonempty'):
        return R.nonempty
    ok = True
    for r in R.roots:
        if r.kind == 'ctor':
            continue
        for p in r.paths:
            shr = {}
            for i, e in R.changes(p):
                if e['kind'] == 'cop' and R.in_list(show_place(e['place'])) and canon(e['place']) != R.H and e['op'] not in ('push_back', 'push_front', 'insert', 'remove_if') and R.effective(e):
                    shr[canon(e['place'])] = (i, e)
            for k, (i, e) in shr.items():
                dropped = [x for j, x in R.changes(p) if j > i and canon(x['place']) == R.H and x['op'] in ('erase_it', 'erase_key', 'erase_if', 'clear')]
                if dropped or entails(p.facts.items(), models.empty_term(e['new']), False):
                    continue
                if p.end == 'loopback':
                    lp = p.events[-1]['loop']
                    outs = [q for q in r.paths if any(x['kind'] == 'loop_exit' and x['loop'] == lp for x in q.events)]
                    if outs and all(any(x['op'] == 'erase_if' and canon(x['place']) == R.H for j, x in R.changes(q) if x['kind'] == 'cop') for q in outs):
                        continue
                ok = False
        if r.fid in R.add:
            # adding: a key is never inserted without a handler
            for p in r.paths:
                if p.end == 'return' and any(e['kind'] == 'cop' and e['op'] == 'ensure' for i, e in R.changes(p)) and not any(e['kind'] == 'cop' and e['op'] == 'push_back' for i, e in R.changes(p)):
                    ok = False
        elif any(e['kind'] == 'cop' and e['op'] in ('ensure', 'insert', 'put') and canon(e['place']) == R.H for p in r.paths for i, e in R.changes(p)):
            ok = False
    R.nonempty = ok
    return ok


# ------------------------------------------------------------------------------------------ life cycle
@check('E05', SRC, 'All paths of start, stop and the destructor: start hands the requested number of threads to the pool and returns its answer; stop empties the registered handlers in a critical section, stops the pool and returns its answer; '
       'the destructor does the same; nothing else starts or stops the pool, and handlers are called nowhere but on the pool.', min=8, assume=ASSUME)
def e05(ctx, P):
    R = disp(ctx, P)
    for nm in ('start', 'stop'):
        for f in named(P, CLS, nm):
            seen = set()
            for p in R.runs.paths(f):
                if p.end == 'loopback':
                    continue
                if not ctx.ob('%s returns' % nm, sig(P, f), p.end == 'return', '%s can end with %s' % (nm, p.end), path=p, key=nm + ':end'):
                    continue
                pc = [(i, e) for i, e in enumerate(p.events) if e['kind'] == 'call' and e['callee'] == POOL + '::' + nm]
                if not ctx.ob('%s %ss the pool once' % (nm, nm), sig(P, f), len(pc) == 1, '%s calls the pool\'s %s %d times' % (nm, nm, len(pc)), path=p, key=nm + ':pool'):
                    continue
                ans = [v for t, v in p.facts.items() if t[0] == 's' and sym_key(t[1]) == POOL + '::' + nm]
                ctx.ob('%s returns the pool\'s answer' % nm, '%s -> %s' % (sig(P, f), show(p.ret)), ans and p.ret in ((C(1), TRUE) if ans[0] else (C(0), FALSE)), '%s returns %s although the pool answered %s' % (nm, show(p.ret), ans), path=p, key=nm + ':answer')
                if nm == 'start':
                    prm = param_names(P, f)[0]
                    ctx.ob('the pool gets the requested number of threads', sig(P, f), exact(p, pc[0][1]['args'][0]) == prm, 'start asks the pool for %s threads' % show(pc[0][1]['args'][0]), ev=pc[0][1], path=p, key='poolsize')
                    ch = [e for i, e in R.changes(p)]
                    ctx.ob('starting keeps the registered handlers', sig(P, f), not ch, 'start changes the registered handlers', ev=ch[0] if ch else None, path=p, key='startkeeps')
                else:
                    emptied(ctx, R, P, f, p, 'stop')
    ds = dtor_fids(P, CLS)
    ctx.ob('there is a destructor that stops', CLS, bool(ds), 'the dispatcher has no destructor that stops it', key='nodtor')
    for f in ds:
        for p in R.runs.paths(f):
            if p.end == 'return':
                ok = any(e['kind'] == 'call' and e['callee'] in (POOL + '::stop', POOL + '::~thread_pool') for e in p.events)
                ctx.ob('the destructor stops the pool before the handlers go away', sig(P, f), ok, 'the destructor can return with the pool running', path=p, key='dtor')
            elif p.end == 'throw':
                ctx.ob('the destructor does not throw', sig(P, f), False, 'the destructor can throw', path=p, key='dtorthrow')
    for r in R.roots:
        nm = (P.ref(r.fid) or {}).get('n')
        for p in r.paths:
            injob = False
            for e in p.events:
                if e['kind'] in ('job_start', 'job_end'):
                    injob = e['kind'] == 'job_start'
                elif e['kind'] in FOREIGN and not injob:
                    ctx.ob('handlers run only on the pool', '%s line %s' % (r.name, e['line']), False, '%s calls user code on the calling thread' % loc(e), ev=e, path=p, key='inline')
                elif e['kind'] == 'call' and e['callee'] in (POOL + '::start', POOL + '::stop') and nm not in ('start', 'stop') and r.kind != 'dtor':
                    ctx.ob('only start and stop switch the pool', '%s line %s' % (r.name, e['line']), False, '%s switches the pool' % loc(e), ev=e, path=p, key='switch')


def emptied(ctx, R, P, f, p, what):
    v = None
    for i, e in R.changes(p):
        if canon(e['place']) == R.H:
            v = e.get('new') if e['kind'] == 'cop' else e.get('val')
    ctx.ob('%s removes all handlers' % what, sig(P, f), v is not None and models.size_of(v) == ZERO, '%s leaves handlers registered' % what, path=p, key=what + ':clear')


@check('E06', SRC, 'Lockset analysis over all pairs of public calls (each may run on any thread, including inside a handler on the pool), and lock-order / self-deadlock analysis with the pool inlined; no user code is called while a mutex is held.', min=8, assume=ASSUME)
def e06(ctx, P):
    R = disp(ctx, P)
    n = lockset_rule(ctx, P, CLS, R.roots, skip=lambda k: is_pool_member(P, k))
    ctx.need(n, 'conflicting accesses to shared state')
    runs = Runs(P, CLS, guards=R.guards)
    roots = class_roots(P, CLS, runs)
    lock_order_rule(ctx, roots)
    for r in roots:
        for p in r.paths:
            for i, e in foreign_calls(p):
                mine = sorted({canon(l[0]) for l in e['locks']})
                ctx.ob('no mutex held while user code runs', '%s line %s' % (r.name, e['line']), not mine, '%s runs user code while holding %s' % (loc(e), ', '.join(mine)), ev=e, path=p, key='lockedcall')


def is_pool_member(P, k):
    ft = field_types(P, CLS)
    return k.startswith('this.') and bare(ft.get(k[5:].split('.')[0].split('[')[0], '')) == POOL
