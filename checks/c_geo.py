import texts
from reg import check
from rules import *

SRC = ['spec:geo.cpp']
TECH = 'path-sensitive abstract interpretation of law functions with exact polynomial arithmetic and Fourier-Motzkin elimination'
ASSUME = ['arithmetic is exact: overflow of int and rounding of double are not considered',
          'the templates are analysed for int and double; std::optional, std::sqrt and std::string behave as specified (modelled, not analysed)']
TEXT = 'Laws of spec/geo.cpp (namespace %s): functions over arbitrary values whose ensure() conditions must hold on every abstract path of the library code they call, for int and for double. %s'


def law_check(pid, ns, what, lo, **kw):
    @check(pid, SRC, TEXT % (ns, what), min=lo, assume=ASSUME, technique=TECH)
    def _(ctx, P):
        law_rule(ctx, P, ns, **kw)


law_check('M01', 'm01', 'The maximum and minimum of two, three and four values is one of them and bounds them all; only comparisons of the values count as exact here (sums and differences may wrap around or be rounded).', 100, inexact=True)
law_check('R01', 'r01', 'Bounds, setters, membership, clamping and mapping of ranges.', 100)
law_check('R02', 'r02', 'Containment, overlap, intersection and union of ranges, through the values they contain.', 500)
law_check('R03', 'r03', 'Accessors, equality, arithmetic and distance of points and sizes.', 200)
law_check('R04', 'r04', 'Ends, equality and orientation of lines.', 200)
law_check('R05', 'r05', 'line::get_intersection and intersects against Cramer\'s rule, as identities of rational functions; division by zero yields non-finite values as in IEEE arithmetic.', 100, nonfinite=True)
law_check('R06', 'r06', 'Accessors, corners, equality, translation and inner points of rectangles.', 100)
law_check('R07', 'r07', 'Containment, overlap, intersection and union of rectangles, through the points they contain.', 500)


@check('R09', ['spec:text.cpp'], 'Laws of spec/text.cpp (namespace r09): texts are sequences of literals and rendered numbers; to_string() and operator<< of every geometry type put each value in its place, for int, long, float and double.',
       min=70, assume=['numbers are rendered by std::to_string and the standard streams as specified; equal renderings of different numbers do not occur'], technique='abstract interpretation of law functions over texts with symbolic numbers')
def r09(ctx, P):
    law_rule(ctx, P, 'r09', nonfinite=True, interp=texts.Texts, hook=texts.hook)


def getter(P, qn):
    return next((k for k, f in P.fns.items() if f['qn'] == qn and not f['params']), None)


def ends(I, v, t):
    """the two ends of a line through its public getters: an unordered pair of coordinates"""
    out = []
    for n in ('start', 'end'):
        q = I.as_place(I.call_fid(getter(I.P, t + '::' + n), v, []))
        pt = t.replace('::line<', '::point<')
        out.append(tuple(I.rv(I.call_fid(getter(I.P, pt + '::' + c), q, [])) for c in 'xy'))
    return tuple(sorted(out, key=repr))


def crossing(I, ref, this, args, node):
    """line::intersects and get_intersection as an uninterpreted relation between undirected segments"""
    if ref.get('sq') not in ('tc::sdk::line::intersects', 'tc::sdk::line::get_intersection') or len(args) != 1:
        return NotImplemented
    t = bare(ref.get('cls', ''))
    rel = ('u', 'crosses') + tuple(sorted([ends(I, this, t), ends(I, I.as_place(args[0]), t)], key=repr))
    if ref['sq'].endswith('::intersects'):
        return rel
    p = I.new_temp(ref['ret'])
    I.store((p[0], ('#has',)), rel, 'bool', quiet=True)
    return ('obj', p, bare(ref['ret']))


law_check('R08', 'r08', 'rectangle::intersects(line): the line has an end inside or crosses one of the four sides; crossing of lines is an uninterpreted relation between undirected segments here, whose symmetry is a law of r05.', 10, hook=crossing)
