from reg import check
from rules import *

CLS = 'tc::sdk::observable'
SRC = ['spec:obs.cpp']
ASSUME = ['std::function, mutexes and atomics behave as specified by the C++20 standard (modelled, not analysed)',
          'operator== of the observed type is an equivalence and copying or moving a value preserves it',
          'the callback is not empty and does not itself use the observable that is calling it (it is called with the lock held)',
          'the observed types analysed are int, double and std::string']


class Observable:
    def __init__(self, ctx, P):
        self.P = P
        self.runs, self.roots, self.guards = analyse(P, CLS, ctor=False, numeric_prune=True, ints=True)
        conv = methods(P, CLS, kinds=('conv',))
        for f in conv:
            self.roots.append(Root(f, sig(P, f), 'method', self.runs.paths(f)))
        for r in self.roots:
            ctx.count(r.name, len(r.paths))
        self.getters = named(P, CLS, 'value') + conv
        self.V = {field_returned(P, self.runs, f) for f in named(P, CLS, 'value')}
        ctx.need(len(self.V) == 1 and None not in self.V, 'the member value() returns (found %s)' % self.V)
        self.V = self.V.pop()
        en = named(P, CLS, 'callback_enabled')
        self.en_get = [f for f in en if not P.fns[f]['params']]
        self.en_set = [f for f in en if P.fns[f]['params']]
        ctx.need(self.en_get and self.en_set, 'callback_enabled() and callback_enabled(bool)')
        w = {canon(e['place']) for f in self.en_set for p in self.runs.paths(f) for i, e in writes_of(p) if canon(e['place']).startswith('this.')}
        ctx.need(len(w) == 1, 'the member that holds the enabled state (found %s)' % w)
        self.E = w.pop()
        self.assign = [f for f in named(P, CLS, 'operator=') if self.runs.paths(f) and not (P.ref(f) or {}).get('implicit')]
        ctx.need(len(self.assign) >= 2, 'the assignment operators')
        self.m = main_guard(self.guards, self.roots, self.V)


def obs(ctx, P):
    if not hasattr(P, '_obs'):
        P._obs = Observable(ctx, P)
    return P._obs


def enabled_kept(p, E):
    """the enabled state is at the end of the path what it was at its begin"""
    v = last_value(p, E)
    if v is None:
        return True
    r = next((e['val'] for e in p.events if e['kind'] == 'read' and canon(e['place']) == E), None)
    return r is not None and (v == r or v[0] == 'c' and p.facts.get(r) is bool(v[1]))


def enabled_truth(p, i, E):
    """truth value of the enabled state as last read before event i (None: not read)"""
    for j in range(i - 1, -1, -1):
        e = p.events[j]
        if e['kind'] in ('read', 'write') and canon(e['place']) == E and e.get('val') is not None:
            v = e['val']
            return (bool(v[1]) if v[0] == 'c' else p.facts.get(v)), j
    return None, None


@check('O01', SRC, 'All paths of both assignment operators (int, double, std::string): compared with the old value under the lock; if equal nothing is written and nothing invoked; if different the value becomes the parameter\'s and the callback is invoked exactly '
       'once, after the write, with the new value, iff the enabled state is true. Getters return the stored members, constructors store their parameters, enable the callback and do not invoke it.', min=20, assume=ASSUME)
def o01(ctx, P):
    R = obs(ctx, P)
    for f in R.assign:
        prm = P.fns[f]['params'][0]['n']
        kinds = set()
        for p in R.runs.paths(f):
            nm = sig(P, f)
            ctx.ob('an assignment returns normally', nm, p.end == 'return', '%s ends with %s' % (nm, p.end), path=p, key='end')
            ctx.ob('an assignment leaves the enabled state alone', nm, enabled_kept(p, R.E), '%s changes the enabled state' % nm, path=p, key='enkept')
            cs = list(foreign_calls(p))
            ws = [(i, e) for i, e in writes_of(p, R.V)]
            # equality of the parameter and the old value, as decided on the path
            q = None
            seen = {x for t in p.facts for x in syms_in(t)}
            for s1 in [x for x in seen if sym_key(x[1]) == R.V]:
                for s2 in [x for x in seen if sym_key(x[1]) == prm]:
                    if entails(p.facts.items(), eq(s1, s2), True):
                        q = True
                    elif entails(p.facts.items(), eq(s1, s2), False):
                        q = False
            fin = last_value(p, R.V)
            isp = fin is not None and fin[0] == 's' and sym_key(fin[1]) == prm
            if q is True:
                kinds.add('equal')
                ctx.ob('an equal value changes nothing', nm, not cs, '%s invokes the callback although the value is equal to the current one' % nm, path=p, ev=cs[0][1] if cs else None, key='equal')
                ctx.ob('an equal value keeps the value', nm, not ws or isp, '%s changes the value although the new one is equal' % nm, path=p, key='equalw')
                continue
            if q is None:
                # not compared: the callback must not be invoked, or the change is unknown
                ctx.ob('the value is compared before it is reported', nm, False, '%s %s without comparing the new value with the current one' % (nm, 'invokes the callback' if cs else 'ends'), path=p, key='compare')
                continue
            kinds.add('different')
            ctx.ob('a different value is stored', nm, bool(ws) and isp, '%s does not store the new value (the member ends as %s)' % (nm, show(fin) if fin else 'not written'), path=p, key='stored')
            en, j = enabled_truth(p, cs[0][0] if cs else len(p.events), R.E)
            if cs:
                kinds.add('called')
                ctx.ob('the callback is invoked once per change', nm, len(cs) == 1, '%s invokes the callback %d times' % (nm, len(cs)), path=p, key='once')
                ctx.ob('a disabled callback is not invoked', nm, en is True, '%s invokes the callback without the enabled state being true' % nm, path=p, ev=cs[0][1], key='enabled')
                for i, e in cs:
                    ctx.ob('the value is stored before the callback runs', nm, any(k < i for k, _ in ws), '%s invokes the callback before the value is stored' % nm, path=p, ev=e, key='order')
                    a = list(e.get('args') or [])
                    ok = len(a) == 1 and a[0] is not None and a[0][0] == 's' and (sym_key(a[0][1]) == prm)
                    ctx.ob('the callback receives the new value', nm, ok, '%s passes %s to the callback, not the new value' % (nm, [show(x) for x in a]), path=p, ev=e, key='arg')
            else:
                kinds.add('silent')
                ctx.ob('every change is reported', nm, en is False, '%s changes the value without invoking the callback although it may be enabled' % nm, path=p, key='report')
        ctx.ob('an assignment distinguishes the cases', sig(P, f), kinds >= {'equal', 'different', 'called', 'silent'}, '%s has no path for: %s' % (sig(P, f), sorted({'equal', 'different', 'called', 'silent'} - kinds)), key='kinds')
    # assignments return the object itself
    for f in R.assign:
        for p in R.runs.paths(f):
            r = p.ret
            ctx.ob('an assignment returns the observable', sig(P, f), isinstance(r, tuple) and r[0] == 'L' and show_place(r[1]).split('(')[0].startswith('this'), '%s does not return *this' % sig(P, f), path=p, key='self')
    for f in R.getters:
        ctx.ob('the value can be read back', sig(P, f), field_returned(P, R.runs, f) == R.V, '%s does not return the stored value' % sig(P, f), key='get')
        for p in R.runs.paths(f):
            ctx.ob('reading changes nothing', sig(P, f), not [1 for _ in writes_of(p)] and not list(foreign_calls(p)), '%s changes the observable' % sig(P, f), path=p, key='getw')
    for f in R.en_get:
        for p in R.runs.paths(f):
            t = p.raw
            rd = [e['val'] for e in p.events if e['kind'] == 'read' and canon(e['place']) == R.E]
            ok = rd and (t == rd[-1] or (t[0] == 'c' and p.facts.get(rd[-1]) is bool(t[1])) or (p.ret[0] == 'c' and p.facts.get(rd[-1]) is bool(p.ret[1])))
            ctx.ob('callback_enabled() reports the state', sig(P, f), bool(ok), '%s does not return the enabled state' % sig(P, f), path=p, key='enget')
    for f in R.en_set:
        prm = P.fns[f]['params'][0]['n']
        for p in R.runs.paths(f):
            v = last_value(p, R.E)
            ok = v is not None and (v[0] == 's' and sym_key(v[1]) == prm or v[0] == 'c' and any(t[0] == 's' and sym_key(t[1]) == prm and b == bool(v[1]) for t, b in p.facts.items()))
            if not ok and v is None:
                # left alone: only where it is known to have the value already
                rd = next((e['val'] for e in p.events if e['kind'] == 'read' and canon(e['place']) == R.E), None)
                pv = next((b for t, b in p.facts.items() if t[0] == 's' and sym_key(t[1]) == prm), None)
                ok = rd is not None and pv is not None and p.facts.get(rd) == pv
            ctx.ob('callback_enabled(b) sets the state', sig(P, f), ok, '%s does not store its parameter as the enabled state' % sig(P, f), path=p, key='enset')
            ctx.ob('callback_enabled(b) only sets the state', sig(P, f), not list(foreign_calls(p)) and all(canon(e['place']) == R.E for _, e in writes_of(p)), '%s does more than setting the enabled state' % sig(P, f), path=p, key='ensetw')
    for f in ctor_fids(P, CLS):
        ps = P.fns[f]['params']
        if len(ps) != 2:
            continue
        for p in R.runs.paths(f):
            nm = 'constructor ' + sig(P, f)
            def val(k):
                v = None
                for e in p.events:
                    if e['kind'] == 'write' and canon(e['place']) == k:
                        v = e.get('val')
                return v
            v = val(R.V)
            ctx.ob('the initial value is the one given', nm, v is not None and v[0] == 's' and sym_key(v[1]) == ps[0]['n'], '%s does not store the initial value' % nm, path=p, key='ctor')
            e = val(R.E)
            ctx.ob('the callback starts enabled', nm, e is not None and e[0] == 'c' and bool(e[1]), '%s does not start with the callback enabled' % nm, path=p, key='ctoren')
            ctx.ob('construction does not invoke the callback', nm, not list(foreign_calls(p)), '%s invokes the callback' % nm, path=p, key='ctorcall')
            # the callback that is invoked is the one stored here
            called = {sym_key(e2['callee'][1]) for g in R.assign for q2 in R.runs.paths(g) for _, e2 in foreign_calls(q2) if isinstance(e2.get('callee'), tuple) and e2['callee'][0] == 's'}
            for k in sorted(called):
                c = val(k)
                ctx.ob('the callback invoked is the one given', nm, c is not None and c[0] == 's' and sym_key(c[1]) == ps[1]['n'], '%s does not store the given callback in %s' % (nm, k), path=p, key='ctorcb')


@check('O02', SRC, 'Lockset and lock-order analysis of the public operations; comparison, write, test of the enabled state and invocation of the callback lie in one critical section of the mutex that guards the value, and the enabled state is set under it; '
       'with a callback that throws, every path leaves the mutex unlocked and the new value stored.', min=10, assume=ASSUME)
def o02(ctx, P):
    R = obs(ctx, P)
    lockset_rule(ctx, P, CLS, R.roots)
    lock_order_rule(ctx, R.roots)
    ctx.need(R.m, 'the mutex that guards the value')
    for f in R.assign:
        nm = sig(P, f)
        for p in R.runs.paths(f):
            for i, e in foreign_calls(p):
                s = cs_serial(e, R.m)
                ctx.ob('the callback runs in the critical section of its change', nm, s is not None, '%s invokes the callback outside the lock: callbacks may overlap, arrive out of order, or after the callback was disabled' % nm, path=p, ev=e, key='cs')
                if s is None:
                    continue
                w = [x for j, x in writes_of(p, R.V) if j < i]
                rd = []
                for k in (R.V, R.E):
                    # what decided is what was read last
                    rd += [x for x in p.events[:i] if x['kind'] == 'read' and canon(x['place']) == k][-1:]
                for x in w + rd:
                    ctx.ob('test, write and report are one step', nm, cs_serial(x, R.m) == s, '%s %s %s outside the critical section that invokes the callback' % (nm, 'writes' if x in w else 'reads', canon(x['place'])), path=p, ev=x, key='step %s' % canon(x['place']))
            for j, x in writes_of(p, R.V):
                rd = [y for y in p.events[:j] if y['kind'] == 'read' and canon(y['place']) == R.V]
                ctx.ob('compare and store are one step', nm, rd and cs_serial(x, R.m) is not None and all(cs_serial(y, R.m) == cs_serial(x, R.m) for y in rd), '%s compares and stores in different critical sections' % nm, path=p, ev=x, key='cmpstore')
    for f in R.en_set:
        for p in R.runs.paths(f):
            for j, x in writes_of(p, R.E):
                ctx.ob('disabling waits for a running callback', sig(P, f), cs_serial(x, R.m) is not None, '%s sets the enabled state without the lock: a callback may still be invoked after it was disabled' % sig(P, f), path=p, ev=x, key='disable')
    # exceptions from the callback
    thr = lambda I, ref: ref.get('n') == '<callable>'
    n = 0
    for f in R.assign:
        nm = sig(P, f)
        for p in Interp(P, guards=R.guards, throws=thr, numeric_prune=True, ints=True).run(f):
            ctx.ob('an exception does not terminate the program', nm, p.end != 'terminate', '%s terminates when the callback throws' % nm, path=p, key='terminate')
            if p.end == 'throw':
                n += 1
                held = set()
                for e in p.events:
                    if e['kind'] == 'lock':
                        held.add(canon(e['mutex']))
                    elif e['kind'] == 'unlock':
                        held.discard(canon(e['mutex']))
                ctx.ob('an exception leaves the mutex unlocked', nm, not held, '%s leaves %s locked when the callback throws' % (nm, ', '.join(sorted(held))), path=p, key='held')
                ctx.ob('an exception leaves the enabled state alone', nm, enabled_kept(p, R.E), '%s changes the enabled state when the callback throws' % nm, path=p, key='enkept')
                prm = P.fns[f]['params'][0]['n']
                v = last_value(p, R.V)
                ctx.ob('an exception leaves the new value stored', nm, v is not None and v[0] == 's' and sym_key(v[1]) == prm, '%s does not keep the new value when the callback throws' % nm, path=p, key='kept')
    ctx.ob('an exception of the callback reaches the caller', 'assignments', n >= len(R.assign), 'the exception of a callback does not reach the caller of every assignment', key='propagate')
