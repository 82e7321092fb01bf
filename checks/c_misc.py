import os, re, subprocess
from reg import check
from rules import *
from terms import *
import prog

TECH = 'path-sensitive abstract interpretation of law functions with exact arithmetic'
SIGNALS = {2: 'SIGINT', 6: 'SIGABRT', 15: 'SIGTERM'}


# ------------------------------------------------------------------ stopwatch, rate limiter
def clock(I, ref, this, args, node):
    """readings of the steady clock are numbered; last_now() is the last one"""
    n = ref.get('sq', '')
    if n == 'std::chrono::steady_clock::now':
        k = sum(1 for e in I.events if e['kind'] == 'now' and e['clock'] == 'steady') + 1
        v = ('s', 'now%d' % k, 'i', '')
        I.ev_add('now', clock='steady', val=v)
        return v
    rs = [e['val'] for e in I.events if e['kind'] == 'now' and e['clock'] == 'steady']
    if n == 'last_now':
        return rs[-1] if rs else ('s', 'never', 'i', '')
    if n == 'readings':
        return C(len(rs))
    return NotImplemented


@check('K01', ['spec:misc.cpp'], 'Laws of spec/misc.cpp (namespace k01) over arbitrary readings of the steady clock: each elapsed time is the difference of the reading made when asked and the one made at construction or reset, in every unit.',
       min=18, assume=['std::chrono::steady_clock is monotonic'], technique=TECH)
def k01(ctx, P):
    law_rule(ctx, P, 'k01', hook=clock)


def rate_of(p):
    """the symbol of the rate of the limiter under analysis"""
    for e in p.events:
        if e['kind'] == 'enter' and e['callee'].endswith('rate_limiter::rate_limiter'):
            for v in list(e.get('vals') or []) + list(e.get('args') or []):
                if isinstance(v, tuple) and v[0] == 's':
                    return v
    out = set()

    def walk(t):
        if isinstance(t, tuple):
            if len(t) > 1 and t[0] == 's' and isinstance(t[1], str) and re.split(r'[.:]', t[1])[-1] == 'rate':
                out.add(t)
            for x in t:
                walk(x)
    for t in list(p.facts) + [e.get('arg') for e in p.events if e['kind'] == 'sleep']:
        walk(t)
    return out.pop() if len(out) == 1 else None


@check('K02', ['rate_limiter.cpp', 'spec:misc.cpp'], 'Every abstract path of construction and three calls of sync(), for an arbitrary rate: the k-th call sleeps until construction time + k / rate (as exact rational functions of the rate), or returns without sleeping only if a reading of the clock has passed that time; it never sleeps longer.',
       min=4, assume=['arithmetic is exact: the rounding of the double period is not considered', 'std::this_thread::sleep_until does not return early'], technique=TECH)
def k02(ctx, P):
    f = next((k for k, v in P.fns.items() if v['sq'] == 'k02::limit'), None)
    ctx.need(f, 'spec function k02::limit')
    ps = [p for p in Interp(P, numeric_prune=True, ints=True, hook=clock, nonfinite=True).run(f, args=None)]
    n = 0
    for p in ps:
        ev = p.events
        calls = [i for i, e in enumerate(ev) if e['kind'] == 'enter' and e['callee'].endswith('rate_limiter::sync')]
        loop = p.end == 'loopback'
        ctx.ob('sync() returns', 'sync', p.end == 'return' or loop and calls and any(e['kind'] == 'now' for e in ev[calls[-1]:]), 'a sequence of sync() calls ends with %s' % p.end, path=p, key='end')
        nows = [(i, e['val']) for i, e in enumerate(ev) if e['kind'] == 'now' and e['clock'] == 'steady']
        if not calls:
            continue
        n += 1
        rate = rate_of(p)
        if not ctx.ob('the deadline depends on the construction time and the rate', 'sync', bool(nows) and rate is not None, 'no reading of the clock, or no rate, enters the deadline', path=p, key='start'):
            continue
        for k, i in enumerate(calls):
            end = calls[k + 1] if k + 1 < len(calls) else len(ev)
            D = add(nows[0][1], div_real(C((k + 1) * 10 ** 9), rate))
            done = False
            for j in range(i, end):
                e = ev[j]
                if e['kind'] != 'sleep':
                    continue
                v = e['arg']
                if e['how'] == 'sleep_for':
                    last = [x for q, x in nows if q < j]
                    v = add(v, last[-1]) if last else v
                done = ctx.ob('the k-th sync() waits until start + k / rate', 'sync %d' % (k + 1), v == D, 'the %d. sync() waits until %s' % (k + 1, show(v)[:160]), path=p, ev=e, key='deadline') or done
            late = any(q < end and not feasible(list(p.facts.items()) + [(lt(x, D), True)], True) for q, x in nows)
            last = loop and k + 1 == len(calls)
            ctx.ob('sync() does not return before the deadline', 'sync %d' % (k + 1), done or late or last, 'the %d. sync() returns without waiting, and the time may not have come' % (k + 1), path=p, key='early')
    ctx.need(n, 'paths through sync()')


# ------------------------------------------------------------------ signals
@check('G01', ['signal_handler.cpp'], 'Every abstract path of install_signal_handlers(), of each handler it installs (for each signal it is installed for), of quit() and of wait_for_quit(): the three signals are handled, after the callback is stored; the callback gets the name and number of the signal; the waiter is released once, afterwards; wait_for_quit() acquires the same semaphore, which starts at zero and cannot overflow.',
       min=20, assume=['signal handlers run between install_signal_handlers() and the end of the program', 'the callback returns'], technique='path-sensitive abstract interpretation: events and their order on every path')
def g01(ctx, P):
    def fn(n):
        r = [k for k, v in P.fns.items() if v['sq'] == 'tc::sdk::' + n]
        ctx.need(r, n)
        return r[0]
    inst, quit_, wait = fn('install_signal_handlers'), fn('quit'), fn('wait_for_quit')
    handlers = {}
    ps = Interp(P, numeric_prune=True, ints=True).run(inst)
    stored = set()
    for p in ps:
        if p.end == 'cut':
            continue
        seen = {}
        cb = [(i, e) for i, e in enumerate(p.events) if e['kind'] in ('write', 'cop') and e['place'][0][0] == 'global' and e.get('val', e.get('new')) is not None and 'std::function' in (e.get('t') or '')]
        for i, e in enumerate(p.events):
            if e['kind'] == 'call' and e['callee'].split('::')[-1] in ('signal', 'bsd_signal') and len(e['args']) == 2:
                s, h = e['args']
                if is_c(s) and h[0] == 'fnptr':
                    seen[s[1]] = (i, h[1])
        for s, nm in SIGNALS.items():
            ctx.ob('%s is handled' % nm, sig(P, inst), s in seen, 'install_signal_handlers() leaves %s unhandled' % nm, path=p, key='handled ' + nm)
        prm = P.fns[inst]['params'][0]['n'] if P.fns[inst]['params'] else ''
        good = [(i, e) for i, e in cb if prm in show(e.get('val', e.get('new')))]
        ctx.ob('the callback is stored', sig(P, inst), bool(good), 'install_signal_handlers() does not keep the callback it is given', path=p, key='stored')
        for i, e in good:
            stored.add(canon(e['place']))
        if good and seen:
            ctx.ob('the callback is stored before a handler can run', sig(P, inst), max(i for i, e in cb) < min(i for i, h in seen.values()), 'a handler is installed before the callback is stored: a signal in between is not reported to it', path=p, key='order')
        for s, (i, h) in seen.items():
            handlers.setdefault(h, set()).add(s)
    sems = set()

    def run_path(p, who, want):
        inv = [(i, e) for i, e in enumerate(p.events) if e['kind'] == 'invoke']
        rel = [(i, e) for i, e in enumerate(p.events) if e['kind'] == 'sync' and e['op'] == 'release']
        empty = any(('fncall' == e['kind'] and e.get('empty')) for e in p.events)
        none = any(show(t).endswith('== null') and any(s.split('global:')[-1] in show(t) for s in stored) and v for t, v in p.facts.items())
        ctx.ob('%s ends' % who, who, p.end in ('return', 'infeasible'), '%s ends with %s%s' % (who, p.end, ': the empty callback is called' if empty else ''), path=p, key='end ' + who)
        if p.end != 'return':
            return
        ctx.ob('the waiter is released once', who, len(rel) == 1 and rel[0][1]['args'] in ([], [C(1)]), '%s releases the waiter %d times' % (who, len(rel)), path=p, key='release ' + who)
        sems.update(canon(e['place']) for i, e in rel)
        ctx.ob('the callback is called once, if there is one', who, len(inv) == (0 if none else 1), '%s calls the callback %d times' % (who, len(inv)), path=p, key='callback ' + who)
        for i, e in inv:
            a = [x for x in e['args']]
            ctx.ob('the callback gets the message and the number', who, len(a) == 2 and want(a, p), '%s passes (%s) to the callback' % (who, ', '.join(show(x) for x in a)), path=p, ev=e, key='args ' + who)
            ctx.ob('the waiter is released after the callback', who, all(i < j for j, _ in rel), '%s releases the waiter before the callback has run' % who, path=p, ev=e, key='late ' + who)
    nm = [x['n'] for x in P.fns[quit_]['params']]
    for p in Interp(P, numeric_prune=True, ints=True).run(quit_):
        run_path(p, 'quit()', lambda a, p: [sym_key(x[1]) if x[0] == 's' else show(x) for x in a] == nm)
    n = 0
    for h, ss in sorted(handlers.items()):
        prm = P.fns[h]['params'][0]['n'] if h in P.fns and P.fns[h]['params'] else None
        ctx.need(prm, 'the body of the installed handler')
        for p in Interp(P, numeric_prune=True, ints=True).run(h):
            v = ('s', prm, 'i', '')
            for s in sorted(ss):
                if s not in SIGNALS:
                    continue
                num = [(t, b) for t, b in p.facts.items() if t[0] in ('lt0', 'eq0', 'not', 'c')]
                if not feasible(num + [(eq(v, C(s)), True)], ints=True):
                    continue
                n += 1
                run_path(p, 'the handler of ' + SIGNALS[s], lambda a, p, s=s: a[0] == ('str', SIGNALS[s]) and (a[1] == C(s) or a[1] == v))
    ctx.need(n, 'paths of handlers')
    for p in Interp(P, numeric_prune=True, ints=True).run(wait):
        acq = [e for e in p.events if e['kind'] == 'sync' and e['op'] == 'acquire']
        ctx.ob('wait_for_quit() waits', sig(P, wait), p.end == 'return' and len(acq) == 1, 'wait_for_quit() acquires %d times and ends with %s' % (len(acq), p.end), path=p, key='wait')
        ctx.ob('wait_for_quit() waits for quit()', sig(P, wait), {canon(e['place']) for e in acq} == sems, 'wait_for_quit() waits for %s, quit() releases %s' % (sorted(str(canon(e['place'])) for e in acq), sorted(map(str, sems))), path=p, key='same')
    for s in sems:
        g = next((g for g in P.globals.values() if g['qn'] == s or s.endswith(g['qn']) or g['qn'].endswith(s.split('::')[-1])), None)
        ctx.need(g, 'the definition of ' + s)
        a = (g.get('init') or {}).get('a') or [{}]
        while a[0].get('k') in ('Cast', 'Load', 'Full'):
            a = [a[0]['e']]
        ctx.ob('nothing is released at the start', s, a[0].get('v') == '0', '%s does not start at zero: wait_for_quit() returns without quit()' % s, key='initial')
        ctx.ob('the semaphore is one for all threads', s, not g.get('tls'), '%s is thread-local' % s, key='tls')
        m = re.search(r'counting_semaphore<(-?\d+)L?>', g['t'])
        ctx.ob('quit() may be called any number of times before the wait', s, m is None or int(m.group(1)) > 2 ** 30, '%s counts to %s only: a second quit() before wait_for_quit() returns oversteps the maximum (undefined)' % (s, m.group(1) if m else '?'), key='overflow')


# ------------------------------------------------------------------ type-level witnesses
CT = 'type-level witnesses: static assertions decided by the compiler over the current headers'


def compile_types(ctx, std='gnu++20'):
    src = os.path.join(prog.VERIF, 'spec', 'types.cpp')
    r = subprocess.run(['clang++-18'] + prog.clang_flags(std) + ['-ferror-limit=0', '-fno-caret-diagnostics', src], stdin=subprocess.DEVNULL, capture_output=True, text=True)
    return src, r


def witnesses(ctx, pid):
    """every static_assert labelled `pid` in spec/types.cpp is an obligation; a compile error in its section breaks it"""
    src, r = compile_types(ctx)
    if r.returncode and not re.search('static assertion', r.stderr):
        src, r = compile_types(ctx, 'gnu++2b')
    lines = open(src).read().split('\n')
    sect, cur = {}, None
    for i, l in enumerate(lines, 1):
        m = re.match(r'// (C\d\d):', l)
        cur = m.group(1) if m else cur
        sect[i] = cur
    bad, other = {}, []
    diags = re.findall(r'^(\S+?):(\d+):\d+: (fatal error|error|note): (.*)$', r.stderr, re.M)
    group = []
    for d in diags + [('', '0', 'error', '')]:
        if d[2] != 'note' and group:
            ls = [int(x[1]) for x in group if x[0] == src]
            if ls:
                bad.setdefault(ls[0], '%s:%s: %s' % (group[0][0], group[0][1], group[0][3]))
            else:
                other.append('%s:%s: %s' % (group[0][0], group[0][1], group[0][3]))
            group = []
        group.append(d)
    if r.returncode != 0 and not bad and not other:
        raise AnalysisBroken('clang failed: ' + r.stderr[-400:])
    if other:
        raise AnalysisBroken('the headers do not compile: ' + other[0])
    n = 0
    for i, l in enumerate(lines, 1):
        if l.startswith('static_assert(') and '"%s: ' % pid in l:
            n += 1
            text = re.search(r'"%s: (.*)"\);' % pid, l).group(1)
            ctx.ob('witness', text, i not in bad, bad.get(i, ''), key='C:' + text)
        elif i in bad and sect[i] == pid:
            ctx.ob('witness', l.strip()[:120], False, bad[i], key='C:' + l.strip()[:120])
    ctx.need(n, 'witnesses of ' + pid)
    ctx.count('static assertions', n)


def witness_check(pid, text, n, src=(), rule=None):
    @check(pid, [], text, min=n, technique=CT)      # the sources of `rule` are loaded after the witnesses: they need not compile
    def f(ctx, P):
        witnesses(ctx, pid)
        if rule:
            rule(ctx, ctx.load(*src))


def instances(ctx, P):
    fs = sorted(k for k, v in P.fns.items() if v['sq'].endswith('::instance') and ('singleton' in v['sq'] or 'uuid_generator' in v['sq'] or 'service_locator' in v['sq']))
    ctx.need(len(fs) >= 3, 'instance() functions')
    single_instance_rule(ctx, P, fs)


witness_check('C01', 'The witnesses C01 of spec/types.cpp compile: no type that stands for one thing can be copied or moved, and the two bases forbid what they say and nothing else.', 20)
witness_check('C02', 'The witnesses C02 compile; every path of instance() returns one static object shared by all threads.', 8, ['uuid_generator.cpp', 'spec:types.cpp'], instances)
witness_check('C03', 'The witnesses C03 compile: the traits of functions, pointers, references, members, lambdas and function objects.', 18)
witness_check('C04', 'The witnesses C04 compile: clock types, chrono type traits, and the absence of implicit conversions into date and time types.', 10)
witness_check('C05', 'The witnesses C05 compile: value semantics of geometry types and uuids.', 8)


@check('C06', [], 'Each public header is compiled on its own and twice; the code generated for a unit that includes all of them has no definition that a second unit could not repeat (no external strong symbol).',
       min=50, technique='compilation of every public header alone; linkage of every definition in the compiler\'s intermediate representation')
def c06(ctx, P):
    inc = os.path.join(prog.REPO, 'sdk/include')
    hs = sorted(os.path.relpath(os.path.join(d, f), inc) for d, _, fs in os.walk(inc) for f in fs if f.endswith(('.hpp', '.h')))
    ctx.need(len(hs) > 10, 'public headers')
    flags = prog.clang_flags()

    def cc(text, extra):
        return subprocess.Popen(['clang++-18'] + flags + extra + ['-x', 'c++', '-'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), text
    for i in range(0, len(hs), 8):
        js = [(h, cc('#include <%s>\n#include <%s>\n' % (h, h), [])) for h in hs[i:i + 8]]
        for h, (p, t) in js:
            o, e = p.communicate(t)
            ctx.ob('compiles on its own, also when included twice', h, p.returncode == 0, (re.search(r'error: .*', e) or [''])[0][:300], key='alone ' + h)
    flags = [f for f in flags if f != '-fsyntax-only']
    for order in (hs, hs[::-1]):
        p, t = cc(''.join('#include <%s>\n' % h for h in order), ['-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-femit-all-decls', '-S', '-emit-llvm', '-o', '-'])
        o, e = p.communicate(t)
        ctx.ob('all headers compile together', 'in %s order' % ('alphabetic' if order is hs else 'reverse'), p.returncode == 0, (re.search(r'error: .*', e) or [''])[0][:300], key='together %d' % (order is hs))
        if p.returncode:
            continue
        sy = {}
        for m in re.finditer(r'^(?:define|@)(.*)$', o, re.M):
            l = m.group(0)
            if l.startswith('@'):
                nm, rest = re.match(r'@("[^"]*"|[\w.$]+) = (.*)', l).groups()
                strong = not re.match(r'(private|internal|linkonce|linkonce_odr|weak|weak_odr|available_externally|external|extern_weak|appending|common)\b', rest)
            else:
                nm = re.search(r'@("[^"]*"|[\w.$]+)\(', l).group(1)
                strong = not re.match(r'define (private|internal|linkonce|linkonce_odr|weak|weak_odr|available_externally)\b', l)
            sy[nm] = strong
        for nm, strong in sorted(sy.items()):
            ctx.ob('a definition in a header may be in several units', nm, not strong, '%s is defined in a header and neither inline nor a template: two units that include it do not link' % nm, key='odr ' + nm)
        ctx.count('definitions', len(sy))
