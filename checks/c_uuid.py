"""uuids: creation, text form, parsing, validity, order"""
import math
from reg import check
from rules import *
from absint import Interp
from prog import AnalysisBroken
import bytewise
from bytewise import Bytewise, chars

SRC = ['uuid.cpp', 'uuid_generator.cpp', 'spec:uuid.cpp']
ASSUME = ['std::string, std::string_view, std::array, algorithms and the random number library behave as specified (modelled, not analysed)', 'little-endian representation of words']
TECH = 'abstract interpretation of law functions in a finite-table domain (exact for every value of the arbitrary characters at once)'
TEXT = 'Laws of spec/uuid.cpp (namespace %s), whose ensure() conditions must hold on every abstract path: %s'


class Words(Bytewise):
    vary = None
    fill = 0


def uuid_check(pid, what, lo):
    @check(pid, SRC, TEXT % (pid.lower(), what), min=lo, assume=ASSUME, technique=TECH)
    def _(ctx, P):
        law_rule(ctx, P, pid.lower(), interp=Words, hook=bytewise.hook, unroll=1000)


uuid_check('U02', 'for each byte, two arbitrary digits: the text is 8-4-4-4-12 lower case digits and parses back to the uuid; the other bytes keep their places.', 40)
uuid_check('U03', 'for each byte, two arbitrary digits in either case: the same uuid with and without dashes and braces.', 80)
uuid_check('U04', 'every character at every position, inserted and missing characters, every number of digits up to 72, braces: is_valid() and from_string() agree with the definition; only std::runtime_error is thrown; nothing outside the text or the array is touched.', 300)
uuid_check('U05', 'comparisons of uuids are those of their bytes, the first differing byte decides, for every value of each byte and for pairs of positions.', 100)


@check('U01', SRC, 'create() is followed with each byte of each random word it draws ranging over all 256 values, the others being 0x00 or 0xff: the result always carries version 4 and variant 10, '
       'the varying bits of different bytes end up in different places, and 122 bits in all vary freely. The words come from the full range of an engine seeded by std::random_device, drawn anew for each uuid.', min=100, assume=ASSUME,
       technique='abstract interpretation in a finite-table domain')
def u01(ctx, P):
    fid = next((k for k, v in P.fns.items() if v['qn'] == 'u01::create' or v['sq'] == 'u01::create'), None)
    ctx.need(fid, 'u01::create')

    def run(vary, fill):
        I = Words(P, numeric_prune=True, hook=bytewise.hook)
        I.vary, I.fill = vary, fill
        ps = I.run(fid)
        out = []
        for p in ps:
            ctx.ob('create() returns', 'create', p.end in ('return', 'infeasible'), 'create() ends with %s' % p.end, path=p, key='create end')
            d = {}
            for e in p.events:
                if e['kind'] == 'call' and e['callee'] in ('u01::observe', 'u01::observe_next'):
                    d[e['callee'][5:]] = chars(e['args'][0])
                if e['kind'] == 'oob':
                    ctx.ob('nothing outside an array is touched', 'create', False, 'create() accesses ' + e['what'], path=p, ev=e, key='create bounds')
            if p.end == 'return':
                out.append((p, d, I))
        return out

    for fill in (0, 255):
        base = run(None, fill)
        ctx.need(base, 'paths of create()')
        ctx.need(len(base) == 1, 'a single path of create() for given random words')
        p, d, I = base[0]
        draws = [e for e in p.events if e['kind'] == 'draw']
        seen = next((i for i, e in enumerate(p.events) if e['kind'] == 'call' and e['callee'] == 'u01::observe'), len(p.events))
        n1 = sum(1 for i, e in enumerate(p.events) if e['kind'] == 'draw' and i < seen)
        ctx.need(d.get('observe') and all(x[0] == 'c' for x in d['observe']), 'the text of a created uuid')
        for e in draws:
            ctx.ob('random words have the full range', 'create', not e.get('narrow'), 'a random word is drawn only %s' % e.get('narrow'), path=p, ev=e, key='narrow')
            s = e['engine']
            ok = s is not None and s[0] == 'engine' and 'entropy' in show(s[1]) and s[1][0] == 's'
            ctx.ob('the engine is seeded by std::random_device', 'create', ok, 'the random engine is seeded with %s' % (show(s[1]) if s and s[0] == 'engine' else show(s) if s else 'nothing'), path=p, ev=e, key='seed')
        ctx.ob('each uuid is made of new random words', 'create', len(draws) == 2 * n1 and n1 > 0, '%d random words for the first uuid, %d for the second' % (n1, len(draws) - n1), path=p, key='draws')
        total, owner = 0.0, {}
        # the number of bytes in each word follows from what varies
        for k in range(n1):
            for b in range(8):
                rs = run((k, b), fill)
                texts, moved = {}, set()
                for p, d, I in rs:
                    cs = d.get('observe') or ()
                    n, m = p.mem[bytewise.WORLD][1:]
                    cols = [I_vals(c, n) for c in cs]
                    for i in range(n):
                        if m >> i & 1:
                            texts[tuple(c[i] if c else None for c in cols)] = 1
                    where = 'word %d byte %d' % (k, b)
                    for pos, good, what in ((14, '4', 'version 4'), (19, '89ab', 'variant 10')):
                        ok = len(cols) == 36 and cols[pos] is not None and all(chr(cols[pos][i] & 255) in good for i in range(n) if m >> i & 1)
                        ctx.ob('a created uuid has ' + what, where, ok, 'a created uuid may lack %s' % what, path=p, key='format %s' % what)
                for pos in range(36):
                    if len({t[pos] for t in texts if len(t) == 36}) > 1:
                        moved.add(pos)
                if len(texts) > 1:
                    where = 'word %d byte %d' % (k, b)
                    clash = {owner[q] for q in moved if q in owner}
                    ctx.ob('random bytes do not overlap', where, not clash, 'the same digits depend on %s and %s' % (where, sorted(clash)), key='overlap %s' % where)
                    for q in moved:
                        owner[q] = where
                    total += math.log2(len(texts))
        ctx.ob('122 bits of a created uuid are random', 'other words 0x%02x' % fill, abs(total - 122) < 1e-6, 'only %.1f bits vary freely' % total, key='entropy')
        ctx.count('random words per uuid', n1)


def I_vals(c, n):
    if c[0] == 'c':
        return [int(c[1])] * n
    if c[0] == 'tab':
        t = c[1]
        return list(t) * (n // len(t))
    return None
