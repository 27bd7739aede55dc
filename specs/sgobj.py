"""Objectives over swaths, cells and headlands: sums over members, and the quantities of the library's own objectives."""
import z3
from f2cv.contract import Contract
from f2cv.values import *
from f2cv.values import sort_of
from f2cv.sp import *
from f2cv import models as M
from f2cv import geo
from f2cv.engine import Unsupported
from specs.angles import xyz, sin, DIR, sub_
from specs.rpobj import SUM, swcont, spath, val as val0, kind, cost as rp_cost

OB = 'f2c::obj::'
RV = z3.RealVal
R_ = z3.RealSort()
TY = 'f2c::types::'


def val(E, v, heap):
    if isinstance(v, Rec) and v.t.name == 'SwathsByCells':
        s = sort_of(v.t)
        f = z3.Function('SwathsByCellsContent', s, geo.HP, z3.DeclareSort('SwathsByCellsContent_'))

        def ax():
            a = z3.Const('sb_a', s)
            g, h = z3.Const('sb_g', geo.HP), z3.Const('sb_h', geo.HP)
            A = unpack(v.t, a).f['data_']
            D = z3.Function('SwathsByCellsDiff', s, geo.HP, geo.HP, z3.IntSort())
            D2 = z3.Function('SwathsByCellsDiff2', s, geo.HP, geo.HP, z3.IntSort())
            d, e = D(a, g, h), D2(a, g, h)
            S = at(A, d).f['data_']
            return [z3.ForAll([a, g, h], Or(f(a, g) == f(a, h), And(0 <= d, d < A.n, 0 <= e, e < S.n, g[spath(at(S, e))] != h[spath(at(S, e))])), patterns=[z3.MultiPattern(f(a, g), f(a, h))])]
        E.axiom('sbcont', ax)
        return [f(pack(v), heap['pts'])]
    return val0(E, v, heap)


def cost(E, heap, cls, *vs):
    """cost of an objective of the family cls"""
    M._mark(E, 'an objective answers with a function of what it is given (no state, no randomness)')
    ks = '_'.join(x[0] if isinstance(x, tuple) else kind(x) for x in vs)
    return geo.op(E, cls + 'Cost_' + ks, R_, *[x for v in vs for x in ([v[1]] if isinstance(v, tuple) else val(E, v, heap))])


def args(C):
    return [C.arg(i) for i in range(len(C.locs))]


def fam(C):
    return C.con.name.split('::')[-2][:2]


def named(C):
    return [('its answer', C.res.z == cost(C.E, C.pre.heap, fam(C), *args(C)))]


def con(name, sig, body, props=('C08',), **kw):
    def ens(C):
        return body(C) if C is C.E.entry else named(C)
    Contract(OB + name, sig='(%s)' % sig if sig is not None else None, props=list(props), ensures=ens, **kw)


CE, CS, SW, SS, SB = 'const F2CCell &', 'const F2CCells &', 'const F2CSwath &', 'const F2CSwaths &', 'const F2CSwathsByCells &'
SGC = 'SGObjective::computeCost'


def zero(C):
    return [('costs nothing unless an objective says otherwise', C.res.z == 0)]


def members(C, v):
    """(sequence, member i as an argument of a cost)"""
    k = kind(v)
    if k in ('Swaths', 'SwathsByCells'):
        S = v.f['data_']
        return S, lambda i: at(S, i)
    if k == 'Cells':
        K = unpack(geo.CONT3, geo.cont(C.E, v, C.pre.heap))
        return K, lambda i: ('Cell', K.arr[i])
    raise Unsupported('members of ' + k)


def ghost(C):
    """the sum the function under verification is to give, and the number of terms"""
    vs = args(C)
    S, mem = members(C, vs[-1])
    if len(vs) == 1:
        t = lambda i: cost(C.E, C.pre.heap, 'SG', mem(i))
    else:
        t = lambda i: cost(C.E, C.pre.heap, 'SG', vs[0], mem(i))
    return SUM(C.E, 'members', t, lambda i: [S.arr[i]]), S


def total(C):
    s, S = ghost(C)
    return [('the costs of all members are added up', And(S.n >= 0, C.res.z == s(S.n)))]


def inv_total(L):
    C = L.E.entry
    if not C.con.name.startswith(OB + 'SGObjective') or C.con.sig[0] not in SUMS:
        return []
    s, S = ghost(C)
    out = []
    cs = [c for _, c, _0 in L.counters()] or ([lambda st: L.z(st, L.idx)] if L.idx is not None else [])
    for l, v in L.reals():
        for c in cs:
            out.append(('the sum so far', lambda st, l=l, c=c: And(c(st) >= 0, L.z(st, l) == v.z + s(c(st)))))
    return out


SUMS = ['(%s)' % x for x in (SS, SB, CS, CE + ', ' + SS, CE + ', ' + SB, CS + ', ' + SS, CS + ', ' + SB)]
FITS = lambda C: []
con(SGC, SW, zero)
con(SGC, 'double, double, ' + CE, zero)
for x in SUMS:
    con(SGC, x[1:-1], total, invariants=[inv_total], alloc=True)
con(SGC, CE, lambda C: [('its cost without an angle and a width', C.res.z == cost(C.E, C.pre.heap, 'SG', Sc(REAL, RV(0)), Sc(REAL, RV(0)), C.arg(0)))], alloc=True)
for x in (CE, CS):
    con(SGC, x + ', ' + SW, lambda C: [('cost of the area and cost of the swath', C.res.z == cost(C.E, C.pre.heap, 'SG', C.arg(0)) + cost(C.E, C.pre.heap, 'SG', C.arg(1)))], alloc=True)

# ---------------------------------------------------------------- sign
def is_min(C):
    M._mark(C.E, 'whether an objective is to be minimised is a fixed answer')
    return z3.Bool('Objective_min')


Contract(OB + 'BaseObjective::isMinimizing', props=['C08'], ensures=lambda C: [('minimising unless an objective says otherwise', C.res.z)] if C is C.E.entry else [('its answer', C.res.z == is_min(C))])
Contract(OB + 'BaseObjective::isMaximizing', props=['C08'], ensures=lambda C: [('the opposite of minimising', C.res.z == Not(is_min(C)))])


def signed(C):
    if C is not C.E.entry:
        raise Unsupported('signed cost of an unknown objective')
    m = C.E.cur_node.raw.get('mangledName') or ''
    for cls in ('SGObjective', 'HGObjective', 'RPObjective'):
        if 'BaseObjectiveINS0_11%sE' % cls in m:
            c = rp_cost(C.E, C.pre.heap, *args(C)) if cls[0] == 'R' else cost(C.E, C.pre.heap, cls[:2], *args(C))
            return [('the cost, negated when the objective is to be maximised', C.res.z == If(is_min(C), c, -c))]
    raise Unsupported('instance for ' + m)


Contract(OB + 'BaseObjective::computeCostWithMinimizingSign', props=['C08'], alloc=True, ensures=signed)


# ---------------------------------------------------------------- the library's own objectives
def own(name, sig, ens, **kw):
    Contract(OB + name, sig='(%s)' % sig if sig else None, props=['C08'], ensures=ens, **kw)


own('NSwath::computeCost', SW, lambda C: [('one', C.res.z == 1)])
own('NSwath::computeCost', SS, lambda C: [('the number of swaths', C.res.z == z3.ToReal(C.arg(0).f['data_'].n))])
own('SwathLength::computeCost', SW, lambda C: [('the length of its path', C.res.z == M.path_length(C.E, 'LineString', pts_of(C.heap('pts'), spath(C.arg(0)))))])
own('FieldCoverage::isMinimizing', None, lambda C: [('coverage is to be maximised', Not(C.res.z))])
own('RemArea::isMinimizing', None, lambda C: [('the remaining area is to be maximised', Not(C.res.z))])
own('NSwathModified::isFastCompAvailable', None, lambda C: [('needs no swaths', C.res.z)])
own('SGObjective::isFastCompAvailable', None, lambda C: [('needs swaths', Not(C.res.z))] if C is C.E.entry else [])
own('DecompObjective::computeCost', CS, zero)


# number of turns estimated from the border
def edge(C, P, i):
    """length of the edge that ends at point i of the ring P across the direction of the swaths"""
    E = C.E
    p, q = at(P, i), at(P, If(i == 0, P.n - 1, i - 1))
    d = sub_(xyz(p), xyz(q))
    s = sin(E, C.arg(0).z - DIR(E, d[0], d[1]))
    return geo.op(E, 'Product', R_, M.point_dist(E, p, q), If(s >= 0, s, -s))


def ring_sum(C):
    """sum over the edges of a ring, as a function of its points"""
    E = C.E
    s = sort_of(PTS)
    F = z3.Function('EdgeSum', s, z3.IntSort(), R_)
    p, i = z3.Const('es_p', s), z3.Int('es_i')
    P = unpack(PTS, p)
    prod = z3.Function('Product', R_, R_, R_)
    x, y = z3.Reals('pr_x pr_y')
    E.axiom('product', lambda: [z3.ForAll([x, y], prod(x, y) == x * y, patterns=[prod(x, y)])])
    d = z3.Function('dist2d', *([R_] * 5))
    E.axiom('edgesum', lambda: [z3.ForAll([p], F(p, 0) == 0, patterns=[F(p, 0)]),
                                z3.ForAll([p, i], Implies(i >= 0, F(p, i + 1) == F(p, i) + edge(C, P, i)), patterns=[z3.MultiPattern(F(p, i), P.arr[i])])])
    return F


def rings(C):
    return unpack(geo.CONT2, geo.cont(C.E, C.arg(2), C.pre.heap))


def cell_sum(C):
    F = ring_sum(C)
    R = rings(C)
    return SUM(C.E, 'rings', lambda i: F(R.arr[i], unpack(PTS, R.arr[i]).n), lambda i: [R.arr[i]])


def turns_ens(C):
    R = rings(C)
    none = Or(geo.empty(C.E, 'Cell', pack(R)), C.arg(1).z <= 0)
    return [('nothing without a cell or a width', Implies(none, C.res.z == 0)),
            ('the border measured across the swaths, over two widths', Implies(Not(none), C.res.z * (2 * C.arg(1).z) == cell_sum(C)(R.n)))]


def inv_turns(L):
    C = L.E.entry
    if not C.con.name.endswith('NSwathModified::computeCost'):
        return []
    F, R = ring_sum(C), rings(C)
    G = cell_sum(C)
    out = []
    outer = [c for c in C.E.st.log] if False else None
    for l, v in L.reals():
        if L.idx is not None:
            out.append(('rings so far', lambda st, l=l: L.z(st, l) == v.z + G(L.z(st, L.idx))))
        for _, c, _0 in L.counters():
            out.append(('rings so far', lambda st, l=l, c=c: And(c(st) >= 0, L.z(st, l) == v.z + G(c(st)))))
            for rl, rv in L.places(lambda x: isinstance(x, Rec) and x.t.name == 'LinearRing'):
                out.append(('edges so far', lambda st, l=l, c=c, rv=rv: And(c(st) >= 0, L.z(st, l) == v.z + F(st.heap['pts'][rv.f['data_'].z], c(st)))))
    return out


own('NSwathModified::computeCost', 'double, double, ' + CE, turns_ens, invariants=[inv_turns], alloc=True, houdini_ms=3000)


# ---------------------------------------------------------------- areas
Contract(TY + 'Geometry::OGRBuffer', props=[], alloc=True, trusted='GEOS buffer with flat caps and mitred joins: a function of the content, the distance and the side',
         ensures=lambda C: [('its result', C.res.z == flat(C.E, geo.cont(C.E, C.this(), C.pre.heap), C.arg(0).z, C.arg(1).z))])


def flat(E, c, d, side=None):
    return geo.op(E, 'FlatBuffer_%s' % c.sort(), z3.IntSort(), c, d, z3.IntVal(0) if side is None else side)


def cells_of(E, c):
    """content of the cells that consist of one cell"""
    f3, f2 = geo.C3(E), geo.C2(E)
    f = z3.Function('CellsOfOne', sort_of(geo.CONT2), sort_of(geo.CONT3))

    def ax():
        x = z3.Const('co_x', sort_of(geo.CONT2))
        k, g, h = z3.Const('co_k', sort_of(REFS)), z3.Const('co_g', geo.HK), z3.Const('co_h', geo.HP)
        X, K = unpack(geo.CONT3, f(x)), unpack(REFS, k)
        return [z3.ForAll([x], And(X.n == 1, X.arr[0] == x), patterns=[f(x)]),
                z3.ForAll([x, k, g, h], Implies(And(K.n == 1, f2(g[K.arr[0]], h) == x), f3(k, g, h) == f(x)), patterns=[z3.MultiPattern(f(x), f3(k, g, h))])]
    E.axiom('cellsofone', ax)
    return f(c)


def as_cells(C, i):
    c = geo.cont(C.E, C.arg(i), C.pre.heap)
    return c if C.arg(i).t.name == 'Cells' else cells_of(C.E, c)


def overlay(E, op_, a, b):
    return M.geo_of(E, 'Cells', M.ogr_op(E, op_, a, b))


def hg_ens(C):
    E = C.E
    cl = [C.arg(i).t.name for i in (0, 1)]
    T_, R = as_cells(C, 0), as_cells(C, 1)
    if cl == ['Cells', 'Cells']:
        A, D = geo.area(E, T_), geo.area(E, overlay(E, 'Difference', T_, R))
        return [('the share of the area that the remaining cells keep', Implies(A > 0, C.res.z * A == A - D))]
    return [('as for the two as collections of cells', C.res.z == cost(E, C.pre.heap, 'HG', *[('Cells', c) for c in (T_, R)]))]


for a_, b_ in ((CE, CE), (CE, CS), (CS, CE), (CS, CS)):
    con('HGObjective::computeCost', a_ + ', ' + b_, hg_ens, alloc=True)


def paths(E, v, heap):
    """the paths of the swaths as one multi line"""
    f2 = geo.C2(E)
    s = sort_of(v.t)
    f = z3.Function('PathsOf', s, geo.HP, sort_of(geo.CONT2))

    def ax():
        a, g = z3.Const('po_a', s), z3.Const('po_g', geo.HP)
        k, h, i = z3.Const('po_k', sort_of(REFS)), z3.Const('po_h', geo.HP), z3.Int('po_i')
        A, K, X = unpack(v.t, a), unpack(REFS, k), unpack(geo.CONT2, f(a, g))
        D = z3.Function('PathsOfDiff', s, geo.HP, sort_of(REFS), geo.HP, z3.IntSort())
        d = D(a, g, k, h)
        d2 = z3.Function('PathsOfDiff2', s, geo.HP, geo.HP, z3.IntSort())(a, g, h)
        return [z3.ForAll([a, g], X.n == A.n, patterns=[f(a, g)]),
                z3.ForAll([a, g, i], Implies(And(0 <= i, i < A.n), X.arr[i] == g[spath(at(A, i))]), patterns=[X.arr[i]]),
                z3.ForAll([a, g, h], Or(f(a, g) == f(a, h), And(0 <= d2, d2 < A.n, g[spath(at(A, d2))] != h[spath(at(A, d2))])), patterns=[z3.MultiPattern(f(a, g), f(a, h))]),
                z3.ForAll([a, g, k, h], Or(f2(k, h) == f(a, g), K.n != A.n, And(0 <= d, d < K.n, h[K.arr[d]] != g[spath(at(A, d))])), patterns=[z3.MultiPattern(f(a, g), f2(k, h))])]
    E.axiom('pathsof', ax)
    return f(pack(v), heap['pts'])


def cover_ens(C):
    E = C.E
    P, V = as_cells(C, 0), C.arg(1).f['data_']
    A = geo.area(E, P)
    cov = M.geo_of(E, 'Cells', flat(E, paths(E, V, C.pre.heap), at(V, 0).f['width_'].z / 2))
    return [('nothing is covered without swaths', Implies(V.n == 0, C.res.z == 0)),
            ('the share of the area inside the strips around all paths', Implies(And(V.n > 0, A != 0), C.res.z == geo.area(E, overlay(E, 'Intersection', P, cov)) / A))]


def inv_lines(L):
    C = L.E.entry
    if not C.con.name.endswith('FieldCoverage::computeCost'):
        return []
    V = C.arg(1).f['data_']
    out = []
    cs = [c for _, c, _0 in L.counters()] + ([lambda st: L.z(st, L.idx)] if L.idx is not None else [])
    j = z3.Int('il_j')
    for l, v in L.places(lambda x: isinstance(x, Rec) and x.t.name == 'MultiLineString'):
        def K(st, l=l):
            return unpack(REFS, st.heap['kids'][L.at(st, l).f['data_'].z])
        for c in cs:
            out.append(('one line per swath so far', lambda st, c=c, K=K: And(c(st) >= 0, K(st).n == c(st))))
        out.append(('lines exist', lambda st, K=K: z3.ForAll([j], Implies(And(0 <= j, j < K(st).n), And(K(st).arr[j] >= 1, K(st).arr[j] < st.alloc)), patterns=[K(st).arr[j]])))
        out.append(('lines are the paths so far', lambda st, K=K: z3.ForAll([j], Implies(And(0 <= j, j < K(st).n), st.heap['pts'][K(st).arr[j]] == C.pre.heap['pts'][spath(at(V, j))]), patterns=[K(st).arr[j]])))
    return out


def own_(cls, ens, **kw):
    for x in (CE, CS):
        own(cls + '::computeCost', x + ', ' + SS, ens, alloc=True, **kw)


own_('FieldCoverage', cover_ens, invariants=[inv_lines])
