from reg import check
from rules import *

CLS = 'tc::sdk::service_locator'
SRC = ['service_locator.cpp', 'spec:loc.cpp']
ASSUME = ['std:: maps, smart pointers and type_index behave as specified by the C++20 standard (modelled, not analysed)',
          'calls of one locator do not overlap (the class has no locks and does not claim to be thread-safe)',
          'the interfaces and services analysed are those of spec/loc.cpp: two unrelated interfaces, a service derived from one, a service derived from both']


@check('L01', SRC, 'Laws of spec/loc.cpp (namespace l01): small functions over an arbitrary locator whose ensure() conditions must hold on every abstract path of the library code they call: what registering, unregistering and asking return and leave behind.',
       min=30, assume=ASSUME, technique='path-sensitive abstract interpretation of law functions')
def l01(ctx, P):
    law_rule(ctx, P, 'l01')
    single_instance_rule(ctx, P, named(P, CLS, 'instance'))


@check('L02', SRC, 'Laws of spec/loc.cpp (namespace l02) over all abstract paths: the pointer found under a type is the one registered under it, converted by matching casts; plus every path of register_service: one object of the service type, constructed from exactly the given arguments in order.',
       min=30, assume=ASSUME, technique='path-sensitive abstract interpretation of law functions')
def l02(ctx, P):
    law_rule(ctx, P, 'l02')
    runs = Runs(P, CLS, numeric_prune=True, ints=True)
    n = 0
    for f in named(P, CLS, 'register_service'):
        prm = [x['n'] for x in P.fns[f]['params']]
        for p in runs.paths(f):
            nw = [e for e in p.events if e['kind'] == 'new']
            ins = [e for e in p.events if e['kind'] == 'cop' and e['op'] == 'insert' and e.get('inserted')]
            if not ins:
                continue
            n += 1
            ctx.ob('one object is created per registration', sig(P, f), len(nw) == 1, '%s creates %d objects' % (sig(P, f), len(nw)), path=p, key='objects')
            for e in nw:
                a = [sym_key(x[1]) if x is not None and x[0] == 's' else show(x) if x is not None else '?' for x in (e.get('args') or [])]
                want = [q for q in prm]
                # the parameters of a pack are numbered by the extractor: their order is what counts
                ctx.ob('the service is constructed from the given arguments', sig(P, f), len(a) == len(want) and a == sorted(a, key=lambda x: (len(x), x)) and len(set(a)) == len(a) and all(x.split('.')[0] == want[0].split('.')[0] for x in a),
                       '%s constructs the service from (%s) instead of its arguments' % (sig(P, f), ', '.join(a)), path=p, ev=e, key='args')
    ctx.need(n, 'paths of register_service that register')
