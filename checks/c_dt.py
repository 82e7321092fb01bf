import texts
from reg import check
from rules import *
from terms import *

SRC = ['datetime/date.cpp', 'datetime/time.cpp', 'datetime/datetime.cpp', 'datetime/timedelta.cpp', 'spec:dt.cpp']
TECH = 'path-sensitive abstract interpretation of law functions with exact arithmetic, floor/truncation axioms and Fourier-Motzkin elimination'
ASSUME = ['arithmetic is exact: overflow of 64-bit nanosecond counts (beyond about 292 years) is not considered',
          'std::chrono behaves as specified (modelled, not analysed); calendar arithmetic inside std::chrono and the bundled date library is not analysed']
TEXT = 'Laws of spec/dt.cpp (namespace %s): functions over arbitrary values whose ensure() conditions must hold on every abstract path of the library code they call. %s'


def one_clock(I, ref, this, args, node):
    """readings of the system clock are numbered, and any two may differ; reading() is the first one"""
    n = ref.get('sq')
    if n in ('std::chrono::system_clock::now', 'std::chrono::_V2::system_clock::now'):
        k = sum(1 for e in I.events if e['kind'] == 'now' and e['clock'] == 'system') + 1
        v = ('s', 'now%d' % k, 'i', 'nn')
        I.ev_add('now', clock='system', val=v)
        return v
    if n == 'reading':
        rs = [e['val'] for e in I.events if e['kind'] == 'now' and e['clock'] == 'system']
        return rs[0] if rs else ('s', 'never', 'i', '')
    return NotImplemented


def dt_check(pid, ns, what, lo, assume=(), **kw):
    @check(pid, SRC, TEXT % (ns, what), min=lo, assume=ASSUME + list(assume), technique=TECH)
    def _(ctx, P):
        law_rule(ctx, P, ns, **kw)


dt_check('D01', 'd01', 'Construction, components, totals, comparison and arithmetic of timedelta; division by zero throws and nothing else does.', 40)
dt_check('D02', 'd02', 'Construction, calendar fields, order, difference and shifts of date.', 45)
dt_check('D03', 'd03', 'Reduction modulo a day, components, order and arithmetic of time.', 25)
dt_check('D04', 'd04', 'Composition and decomposition of datetime, order, arithmetic and validity.', 30)
dt_check('D05', 'd05', 'date::today(), time::utc_now() and datetime::utc_now() against a single reading of the system clock (two readings may differ), for every precision.', 20, hook=one_clock,
         assume=['the system clock is set after 1970'])
dt_check('D06', 'd06', 'from_string() and to_string() of date, time and datetime, for every precision: an exception exactly if the stream reports failure, the parsed value otherwise; formatting of the value cut to the precision.', 60,
         assume=['the bundled date library reports failure through the stream state'])


@check('D07', ['spec:text.cpp', 'datetime/timedelta.cpp'], 'Laws of spec/text.cpp (namespace d07): texts are sequences of literals and rendered numbers in fields; to_string() of a timedelta for every precision, and operator<<.',
       min=20, assume=ASSUME + ['numbers are rendered by the standard streams as specified'], technique='abstract interpretation of law functions over texts with symbolic numbers; exact integer arithmetic')
def d07(ctx, P):
    law_rule(ctx, P, 'd07', nonfinite=True, interp=texts.Texts, hook=texts.hook)
