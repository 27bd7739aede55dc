"""Route planning objectives: every overload in terms of the cost between two points, sums over swaths and connections."""
import z3
from f2cv.contract import Contract
from f2cv.values import *
from f2cv.values import sort_of
from f2cv.sp import *
from f2cv import models as M
from f2cv import geo
from specs.angles import leg, xyz, DIR

OB = 'f2c::obj::RPObjective::computeCost'
RV = z3.RealVal
R_ = z3.RealSort()


def spath(s):
    return s.f['path_'].f['data_'].z


def swcont(E, v, heap):
    """a collection of swaths with the points of their paths, as a value"""
    s = sort_of(v.t)
    f = z3.Function('SwathsContent', s, geo.HP, z3.DeclareSort('SwathsContent_'))

    def ax():
        a = z3.Const('sc_a', s)
        g, h = z3.Const('sc_g', geo.HP), z3.Const('sc_h', geo.HP)
        A = unpack(v.t, a)
        D = z3.Function('SwathsContentDiff', s, geo.HP, geo.HP, z3.IntSort())
        d = D(a, g, h)
        return [z3.ForAll([a, g, h], Or(f(a, g) == f(a, h), And(0 <= d, d < A.n, g[spath(at(A, d))] != h[spath(at(A, d))])), patterns=[z3.MultiPattern(f(a, g), f(a, h))])]
    E.axiom('swcont', ax)
    return f(pack(v), heap['pts'])


def val(E, v, heap):
    """the argument as values a cost may depend on"""
    if isinstance(v, Sc):
        return [v.z]
    if isinstance(v, Vec):
        return [pack(v)]
    n = v.t.name
    if n == 'Point':
        return [pack(v)]
    if n == 'Swath':
        return [pack(v), heap['pts'][spath(v)]]
    if n == 'Swaths':
        return [swcont(E, v.f['data_'], heap)]
    if n not in GEO_ALL:
        return [pack(v), heap['pts'], heap['kids']]
    return [geo.cont(E, v, heap)]


def kind(v):
    if isinstance(v, Sc):
        return 'ang'
    if isinstance(v, Vec):
        return 'points'
    return v.t.name


def cost(E, heap, *vs):
    M._mark(E, 'an objective answers with a function of what it is given (no state, no randomness)')
    return geo.op(E, 'RpCost_' + '_'.join(kind(v) for v in vs), R_, *[x for v in vs for x in val(E, v, heap)])


def named(C):
    return [('its answer', C.res.z == cost(C.E, C.pre.heap, *[C.arg(i) for i in range(len(C.locs))]))]


def con(sig, body, **kw):
    def ens(C):
        return body(C) if C is C.E.entry else named(C)
    Contract(OB, sig='(%s)' % sig, props=['C13'], ensures=ens, **kw)


def a(C, *i):
    return [C.arg(k) for k in i]


PT, SW, SS, MP = 'const F2CPoint &', 'const F2CSwath &', 'const F2CSwaths &', 'const F2CMultiPoint &'


def is_cost(C, lab, *vs):
    return [(lab, C.res.z == cost(C.E, C.pre.heap, *vs))]


def dist(C):
    return M.point_dist(C.E, C.arg(0), C.arg(1))


con(PT + ', ' + PT, lambda C: [('the distance between the points', C.res.z == dist(C))])
for s, ix in ((PT + ', double, ' + PT, (0, 2)), (PT + ', ' + PT + ', double', (0, 1)), (PT + ', double, ' + PT + ', double', (0, 2))):
    con(s, lambda C, ix=ix: is_cost(C, 'angles do not matter: the cost between the points', *a(C, *ix)))
Contract('f2c::obj::DirectDistPathObj::computeCost', sig='(%s, %s)' % (PT, PT), props=['C13'], ensures=lambda C: [('the distance between the points', C.res.z == dist(C))])


# ends of swaths and connections
def spts(C, s):
    return pts_of(C.heap('pts'), spath(s))


def first(P):
    return at(P, 0)


def last(P):
    return at(P, P.n - 1)


def rl(x):
    return Sc(REAL, x)


def out_angle(C, s):
    P = spts(C, s)
    return rl(leg(C.E, P, P.n - 2))


def in_angle(C, s):
    return rl(leg(C.E, spts(C, s), z3.IntVal(0)))


def ok_swath(C, s):
    return spts(C, s).n >= 2


def sw_pre(*ix):
    return lambda C: [('a swath has at least two points', And([ok_swath(C, C.arg(i)) for i in ix]))]


con(SW + ', ' + PT, lambda C: is_cost(C, 'from the end of the swath in its last direction', last(spts(C, C.arg(0))), out_angle(C, C.arg(0)), C.arg(1)), requires=sw_pre(0))
con(SW + ', ' + SW, lambda C: is_cost(C, 'from the end of the first swath to the start of the second, with their directions', last(spts(C, C.arg(0))), out_angle(C, C.arg(0)), first(spts(C, C.arg(1))), in_angle(C, C.arg(1))), requires=sw_pre(0, 1))
con(SW + ', ' + PT + ', double', lambda C: is_cost(C, 'from the end of the swath in its last direction', last(spts(C, C.arg(0))), out_angle(C, C.arg(0)), C.arg(1), C.arg(2)), requires=sw_pre(0))
con(PT + ', ' + SW, lambda C: is_cost(C, 'to the start of the swath in its first direction', C.arg(0), first(spts(C, C.arg(1))), in_angle(C, C.arg(1))), requires=sw_pre(1))
con(PT + ', double, ' + SW, lambda C: is_cost(C, 'to the start of the swath in its first direction', C.arg(0), C.arg(1), first(spts(C, C.arg(2))), in_angle(C, C.arg(2))), requires=sw_pre(2))


# ---------------------------------------------------------------- sums
def SUM(E, tag, term, pats, lo=0):
    """S(n): sum of term(i) for lo <= i < n"""
    S = z3.Function('Sum_' + tag, z3.IntSort(), R_)
    i = z3.Int('su_i')
    E.axiom('sum_' + tag, lambda: [S(lo) == 0, z3.ForAll([i], Implies(i >= lo, S(i + 1) == S(i) + term(i)), patterns=[z3.MultiPattern(S(i), p) for p in pats(i)])] + ([S(0) == 0] if lo else []))
    return S


def mpts(C, m):
    return pts_of(C.heap('pts'), m.f['data_'].z)


def chain(C, tag, P):
    h = C.pre.heap
    return SUM(C.E, tag, lambda i: cost(C.E, h, at(P, i - 1), at(P, i)), lambda i: [P.arr[i]], 1)


def gap(C, S, i):
    p, q = at(S, i - 1), at(S, i)
    return cost(C.E, C.pre.heap, last(spts(C, p)), out_angle(C, p), first(spts(C, q)), in_angle(C, q))


def sums(C):
    """[(ghost sum, label)] of the function under verification, and the number of terms"""
    E, h = C.E, C.pre.heap
    v = C.arg(0)
    k = kind(v)
    if k in ('points', 'Swath', 'MultiPoint'):
        P = v if k == 'points' else spts(C, v) if k == 'Swath' else mpts(C, v)
        return [(chain(C, k, P), P.n)]
    if k == 'Swaths':
        S = v.f['data_']
        return [(SUM(E, 'each', lambda i: cost(E, h, at(S, i)), lambda i: [S.arr[i]]), S.n), (SUM(E, 'between', lambda i: gap(C, S, i), lambda i: [S.arr[i]], 1), S.n)]
    G, N = v.f['v_swaths_'], v.f['connections_']

    def join(i):
        return cost(E, h, at(N, i), at(G, i)) + If(i + 1 < N.n, cost(E, h, at(G, i), at(N, i + 1)), RV(0))
    return [(SUM(E, 'groups', lambda i: cost(E, h, at(G, i)), lambda i: [G.arr[i]]), G.n),
            (SUM(E, 'connections', lambda i: cost(E, h, at(N, i)), lambda i: [N.arr[i]]), N.n),
            (SUM(E, 'joins', join, lambda i: [G.arr[i], N.arr[i]]), G.n)]


def inv_sum(L):
    C = L.E.entry
    if not C.con.name.startswith('f2c::obj::RPObjective') or len(C.locs) != 1:
        return []
    ss = [s for s, n in sums(C)]
    out = []
    cs = [c for _, c, _0 in L.counters()] or ([lambda st: L.z(st, L.idx)] if L.idx is not None else [])
    combos = [(s,) for s in ss] + ([(ss[0], ss[1])] if len(ss) == 2 else [])
    for l, v in L.reals():
        for c in cs:
            for k in combos:
                out.append(('the sum so far', lambda st, l=l, c=c, k=k: And(c(st) >= 0, L.z(st, l) == v.z + sum([s(c(st)) for s in k]))))
    return out


def total(C):
    ss = sums(C)
    return [('the costs of all parts are added up', C.res.z == sum([s(If(n > 0, n, z3.IntVal(0))) for s, n in ss]))]


def members(C):
    """every swath has at least two points"""
    v = C.arg(0)
    k = kind(v)
    if k == 'Swath':
        return [('a swath has at least two points', ok_swath(C, v))]
    if k == 'Swaths':
        return [('a swath has at least two points', fa(v.f['data_'], lambda i, s: ok_swath(C, s)))]
    return []


def groups_ok(C):
    return [('a swath has at least two points', fa(C.arg(0).f['v_swaths_'], lambda i, S: fa(S.f['data_'], lambda j, s: ok_swath(C, s)))),
            ('a connection before each group of swaths', C.arg(0).f['connections_'].n >= C.arg(0).f['v_swaths_'].n),
            ('sizes fit', And(C.arg(0).f['connections_'].n < (1 << 62)))]


con('const std::vector<F2CPoint> &', total, invariants=[inv_sum])
con(MP, total, invariants=[inv_sum])
con(SW, total, invariants=[inv_sum], requires=members)
con(SS, total, invariants=[inv_sum], requires=members)
con('const F2CRoute &', total, invariants=[inv_sum], requires=groups_ok, houdini_ms=1500)


def join_ens(C, to_swath, many):
    m, s = (C.arg(0), C.arg(1)) if to_swath else (C.arg(1), C.arg(0))
    P = mpts(C, m)
    none = P.n == 0
    E, h = C.E, C.pre.heap
    if many:
        S = s.f['data_']
        s = at(S, 0) if to_swath else at(S, S.n - 1)
        r = cost(E, h, m, s) if to_swath else cost(E, h, s, m)
        if to_swath:
            return [('to the first swath; nothing when there is none', C.res.z == If(S.n == 0, RV(0), r))]
        return [('from the last swath; nothing when there is none', C.res.z == If(Or(S.n == 0, none), RV(0), r))]
    r = cost(E, h, last(P), first(spts(C, s)), in_angle(C, s)) if to_swath else cost(E, h, last(spts(C, s)), out_angle(C, s), first(P))
    return [('between the end of one and the start of the other, nothing without points', C.res.z == If(none, RV(0), r))]


def all_ok(i):
    return lambda C: [('a swath has at least two points', fa(C.arg(i).f['data_'], lambda j, s: ok_swath(C, s)))]


con(SW + ', ' + MP, lambda C: join_ens(C, False, False), requires=sw_pre(0))
con(MP + ', ' + SW, lambda C: join_ens(C, True, False), requires=sw_pre(1))
con(SS + ', ' + MP, lambda C: join_ens(C, False, True), requires=all_ok(0))
con(MP + ', ' + SS, lambda C: join_ens(C, True, True), requires=all_ok(1))
