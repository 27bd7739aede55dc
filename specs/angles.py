"""Angles and planar point geometry (real arithmetic, libm functions with their defining identities)."""
import z3
from f2cv.contract import Contract
from f2cv.values import *
from f2cv.sp import *
from f2cv import models as M

TY = 'f2c::types::'
RV = z3.RealVal
R_ = z3.RealSort()


def sin(E, x):
    return M.trig(E, 'sin', x)


def cos(E, x):
    return M.trig(E, 'cos', x)


def PI(E):
    return E.pi()


def xyz(p):
    return p.f['x'].z, p.f['y'].z, p.f['z'].z


def MOD(E, a, b):
    """the representative of a modulo b in [0, b)"""
    f = z3.Function('Mod', R_, R_, R_)
    q = z3.Function('ModQ', R_, R_, z3.IntSort())

    def ax():
        x, y = z3.Reals('mo_x mo_y')
        n = z3.Int('mo_n')
        return [z3.ForAll([x, y], Implies(y > 0, And(f(x, y) >= 0, f(x, y) < y, x == z3.ToReal(q(x, y)) * y + f(x, y))), patterns=[f(x, y)])]
    E.axiom('mod', ax)
    return f(a, b)


def M2(E, x):
    """the angle x brought into [0, 2 pi): a named function, with the number of turns taken off"""
    f = z3.Function('Mod2Pi', R_, R_)
    q = z3.Function('Turns', R_, z3.IntSort())
    pi = PI(E)

    def ax():
        y = z3.Real('m2_y')
        M._mark(E, 'sin and cos have period 2 pi')
        return [z3.ForAll([y], And(f(y) == MOD(E, y, 2 * pi), f(y) >= 0, f(y) < 2 * pi, y == z3.ToReal(q(y)) * (2 * pi) + f(y)), patterns=[f(y)]),
                z3.ForAll([y], And(sin(E, f(y)) == sin(E, y), cos(E, f(y)) == cos(E, y)), patterns=[f(y)])]
    E.axiom('mod2pi', ax)
    return f(x)


def turns(E, x, y, n=None):
    """x and y are the same direction: they differ by a whole number of turns"""
    return M2(E, x) == M2(E, y)


def DIR(E, x, y):
    """polar angle of (x, y) in [0, 2 pi): named function"""
    f = z3.Function('PolarAngle', R_, R_, R_)
    at2 = z3.Function('atan2', R_, R_, R_)

    def ax():
        u, v = z3.Reals('di_u di_v')
        return [z3.ForAll([u, v], f(u, v) == M2(E, at2(v, u)), patterns=[f(u, v)])]
    E.axiom('polar', ax)
    return f(x, y)


def terms(z, name, out=None):
    """applications of the function name in z"""
    out = {} if out is None else out
    if z3.is_app(z):
        if z.decl().name() == name:
            out[z.get_id()] = z
        for k in z.children():
            terms(k, name, out)
    return out


def mod_lemma(C):
    """instances of: a whole number n other than 0 times b is at least b away from 0 (for the quotients at hand)"""
    b = C.arg(1).z
    qf = z3.Function('fmod_q', R_, R_, z3.IntSort())
    n0 = sum([qf(*t.children()) for t in terms(C.res.z, 'fmod').values()], z3.IntVal(0)) - z3.Function('ModQ', R_, R_, z3.IntSort())(C.arg(0).z, b)
    return And([And(Implies(n0 + k >= 1, z3.ToReal(n0 + k) * b >= b), Implies(n0 + k <= -1, z3.ToReal(n0 + k) * b <= -b)) for k in (-2, -1, 0, 1)])


# ---------------------------------------------------------------- angles as numbers
Contract(TY + 'Geometry::mod', props=['C12'], requires=lambda C: [('the modulus is positive', C.arg(1).z > 0)], ensures=lambda C: [
    ('between 0 and the modulus', And(C.res.z >= 0, C.res.z < C.arg(1).z)),
    ('differs from the value by a multiple of the modulus', (lambda f: Implies(mod_lemma(C), f) if C is C.E.entry else f)(C.res.z == MOD(C.E, C.arg(0).z, C.arg(1).z)))])
Contract(TY + 'Geometry::mod_2pi', props=['C12'], ensures=lambda C: [
    ('the same direction, in [0, 2 pi)', And(C.res.z == M2(C.E, C.arg(0).z), C.res.z >= 0, C.res.z < 2 * PI(C.E)))])
Contract(TY + 'Geometry::getAngleDiffAbs', props=['C12'], ensures=lambda C: (lambda d, pi: [
    ('the smaller of the two arcs between the directions', And(C.res.z == If(d <= pi, d, 2 * pi - d), C.res.z >= 0, C.res.z <= pi))])(M2(C.E, C.arg(1).z - C.arg(0).z), PI(C.E)))


def avg_ens(C):
    E, pi, r = C.E, PI(C.E), C.res.z
    ma, mb = M2(E, C.arg(0).z), M2(E, C.arg(1).z)
    d = mb - ma
    h = If(And(d < pi, d > -pi), d / 2, If(d > 0, d / 2 - pi, d / 2 + pi))
    return [('halfway between the two directions, on the shorter arc', And(h <= pi / 2, h >= -pi / 2, Or(r == ma + h, r == ma + h + 2 * pi), Or(r == mb - h, r == mb - h + 2 * pi, r == mb - h - 2 * pi)))]


Contract(TY + 'Geometry::getAngleAvg', props=['C12'], ensures=avg_ens)


def follows(E, prev, val, r):
    """r is the angle of the same direction as val that is nearest to prev"""
    pi = PI(E)
    m = M2(E, val)
    t = z3.ToInt(prev / (2 * pi))
    return And(r - prev <= pi, prev - r <= pi, Or([r == z3.ToReal(t + j) * (2 * pi) + m for j in (-2, -1, 0, 1, 2)]))


def few(x):
    return And(x < (1 << 30), x > -(1 << 30))


Contract(TY + 'Geometry::getAngContinuity', sig='double (double, double)', props=['C12'], requires=lambda C: [('fewer than 2^30 turns', few(C.arg(0).z))],
         ensures=lambda C: [('the angle of the given direction that is no further than half a turn from the previous angle', follows(C.E, C.arg(0).z, C.arg(1).z, C.res.z))])


def chain(C, r, n):
    v = C.arg(0)
    return And(r.n == n, at(r, 0).z == at(v, 0).z, fa(r, lambda i, x: follows(C.E, at(r, i - 1).z, at(v, i).z, x.z), 1, n))


def inv_chain(L):
    C = L.E.entry
    if not C.con.name.endswith('getAngContinuity'):
        return []
    out = []
    for _, c, _0 in L.counters():
        for l, v in L.vecs('real', True):
            out.append(('each angle follows the one before', lambda st, l=l, c=c: chain(C, L.at(st, l), c(st))))
            out.append(('angles stay small', lambda st, l=l, c=c: fa(L.at(st, l), lambda i, x: And(x.z <= 8 * (z3.ToReal(i) + 1), x.z >= -8 * (z3.ToReal(i) + 1)))))
    return out


Contract(TY + 'Geometry::getAngContinuity', sig='vector<double>', props=['C12'], invariants=[inv_chain],
         requires=lambda C: [('at least one angle', C.arg(0).n >= 1), ('fewer than 2^26 angles', C.arg(0).n < 1 << 26), ('the first one within a turn', And(at(C.arg(0), 0).z <= 8, at(C.arg(0), 0).z >= -8))],
         ensures=lambda C: [('one angle per given one, each the nearest to the one before', chain(C, C.res, C.arg(0).n))])

# ---------------------------------------------------------------- points
det_ = lambda u, v: u[0] * v[1] - u[1] * v[0]
sub_ = lambda u, v: (u[0] - v[0], u[1] - v[1], u[2] - v[2])
dot_ = lambda u, v: u[0] * v[0] + u[1] * v[1] + u[2] * v[2]
same = lambda p, q: And([a == b for a, b in zip(xyz(p), q)])
P_ = TY + 'Point::'


def arith(op, sig, f):
    Contract(P_ + op, sig=sig, props=['C12'], ensures=lambda C: [('coordinate by coordinate', same(C.res, f(xyz(C.this()), C)))])


Contract(P_ + 'det', props=['C12'], inline=True, ensures=lambda C: [('planar cross product', C.res.z == det_(xyz(C.arg(0)), xyz(C.arg(1))))])
for op, f in (('operator+', lambda a, b: a + b), ('operator-', lambda a, b: a - b)):
    Contract(P_ + op, props=['C12'], inline=True, ensures=lambda C, f=f: [('coordinate by coordinate', same(C.res, [f(a, b) for a, b in zip(xyz(C.this()), xyz(C.arg(0)))]))])
Contract(P_ + 'operator*', sig='(double) const', props=['C12'], inline=True, ensures=lambda C: [('every coordinate scaled', same(C.res, [a * C.arg(0).z for a in xyz(C.this())]))])
Contract(P_ + 'operator/', props=['C12'], inline=True, requires=lambda C: [('no division by zero', C.arg(0).z != 0)], ensures=lambda C: [('every coordinate divided', same(C.res, [a / C.arg(0).z for a in xyz(C.this())]))])
Contract(P_ + 'operator*', sig='(const Point &) const', props=['C12'], inline=True, ensures=lambda C: [('scalar product', C.res.z == dot_(xyz(C.this()), xyz(C.arg(0))))])
Contract(P_ + 'operator*=', sig='(double)', props=['C12'], inline=True, modifies=lambda C: [C.obj], ensures=lambda C: [('every coordinate scaled', same(C.this_post(), [a * C.arg(0).z for a in xyz(C.this())]))])


def polar(E, a, x, y):
    """a is the polar angle of (x, y)"""
    h = z3.Function('Radius', R_, R_, R_)
    at2 = z3.Function('atan2', R_, R_, R_)

    def ax():
        u, v = z3.Reals('po_u po_v')
        M._mark(E, 'libm atan2(y, x): the angle with r cos = x, r sin = y for the radius r >= 0 of (x, y)')
        return [z3.ForAll([u, v], And(h(u, v) >= 0, h(u, v) * h(u, v) == u * u + v * v, h(u, v) * cos(E, at2(v, u)) == u, h(u, v) * sin(E, at2(v, u)) == v), patterns=[at2(v, u)])]
    E.axiom('atan2', ax)
    return And(h(x, y) * cos(E, a) == x, h(x, y) * sin(E, a) == y)


def rng(C):
    return And(C.res.z >= 0, C.res.z < 2 * PI(C.E))


def only(C, f):
    return [f()] if C is C.E.entry else []


def ang_to(C):
    p, q = xyz(C.this()), xyz(C.arg(0))
    d, s = det_(p, q), dot_(p, q)
    return [('the polar angle of one vector seen from the other', C.res.z == DIR(C.E, s, d)), ('in [0, 2 pi)', rng(C))] + only(C, lambda: ('its cosine and sine are those between the vectors', polar(C.E, C.res.z, s, d)))


def ang_of(C):
    x, y, _ = xyz(C.this())
    return [('the polar angle of the vector', C.res.z == DIR(C.E, x, y)), ('in [0, 2 pi)', rng(C))] + only(C, lambda: ('its cosine and sine are those of the vector', polar(C.E, C.res.z, x, y)))


Contract(P_ + 'getAngleFromPoints', sig='(const Point &) const', props=['C12'], ensures=ang_to)
Contract(P_ + 'getAngleFromPoint', props=['C12'], ensures=ang_of)
Contract(P_ + 'getAngleFromPoints', sig='(const Point &, const Point &, const Point &)', props=['C12'], ensures=lambda C: (lambda u, v: [
    ('the turn from the first leg to the second', C.res.z == M2(C.E, DIR(C.E, v[0], v[1]) - DIR(C.E, u[0], u[1]))), ('in [0, 2 pi)', rng(C))])(sub_(xyz(C.arg(1)), xyz(C.arg(0))), sub_(xyz(C.arg(2)), xyz(C.arg(1)))))


def nondeg(a, b):
    d = sub_(a, b)
    return dot_(d, d) > 0


def seg_ens(C):
    E = C.E
    p, s, e = xyz(C.this()), xyz(C.arg(0)), xyz(C.arg(1))
    v = sub_(e, s)
    t = z3.Real('sg_t')
    r = xyz(C.res)
    VV = dot_(v, v)
    pv = dot_(sub_(p, s), v)       # position along the segment, times its squared length
    on = lambda t: And([a == b + t * c for a, b, c in zip(r, s, v)])
    return [('before the segment: its start', Implies(pv <= 0, same(C.res, s))),
            ('behind the segment: its end', Implies(pv >= VV, same(C.res, e))),
            ('beside the segment: the foot of the perpendicular', Implies(And(0 < pv, pv < VV), on(pv / VV)))]


Contract(P_ + 'closestPointInSegment', props=['C12'], requires=lambda C: [('the segment is not a point', nondeg(xyz(C.arg(1)), xyz(C.arg(0))))], ensures=seg_ens)


def lines_ens(C):
    a, b, c, d = [xyz(C.arg(i)) for i in range(4)]
    u, v = sub_(b, a), sub_(d, c)
    den = det_(u, v)
    r = xyz(C.res)
    return [('parallel lines: the start of the first', Implies(den == 0, same(C.res, a))),
            ('the point lies on the first line', Implies(den != 0, den * det_(sub_(r, a), u) == 0)),
            ('the point lies on the second line', Implies(den != 0, den * det_(sub_(r, c), v) == 0))]


Contract(P_ + 'intersectionOfLines', props=['C12'], ensures=lines_ens)
Contract(P_ + 'signedDistance2Segment', props=['C12'], requires=lambda C: [('the segment is not a point', nondeg(xyz(C.arg(1)), xyz(C.arg(0))))], ensures=lambda C: (lambda s, v, L: [
    ('distance to the line, positive on its left', And(L >= 0, L * L == dot_(v, v), C.res.z * L == det_(v, sub_(xyz(C.this()), s))))])(
        xyz(C.arg(0)), sub_(xyz(C.arg(1)), xyz(C.arg(0))), M.R1('sqrt')(dot_(sub_(xyz(C.arg(1)), xyz(C.arg(0))), sub_(xyz(C.arg(1)), xyz(C.arg(0)))))))


def near(C, tol):
    return And([And(a - b < RV(tol), b - a < RV(tol)) for a, b in zip(xyz(C.this()), xyz(C.arg(0)))])


TOL = '100000001/1000000000000000', '99999999/1000000000000000'
Contract(P_ + 'operator==', props=['C12'], inline=True, ensures=lambda C: [('equal only when the coordinates agree up to 1e-7', Implies(C.res.z, near(C, TOL[0]))), ('equal when they agree up to 1e-7', Implies(near(C, TOL[1]), C.res.z))])
Contract(P_ + 'operator!=', props=['C12'], inline=True, ensures=lambda C: [('different only when a coordinate differs by 1e-7', Implies(C.res.z, Not(near(C, TOL[1])))), ('different when one differs by more', Implies(Not(near(C, TOL[0])), C.res.z))])
Contract(P_ + 'operator<', props=['C12'], ensures=lambda C: (lambda a, b: [('ordered by x, then by y', C.res.z == Or(a[0] < b[0], And(a[0] == b[0], a[1] < b[1])))])(xyz(C.this()), xyz(C.arg(0))))

# ---------------------------------------------------------------- directions along a line
def seq(C, v=None):
    v = C.this() if v is None else v
    v = v.f['path_'] if v.t.name == 'Swath' else v
    return pts_of(C.heap('pts'), v.f['data_'].z)


def leg(E, P, i):
    """direction from point i to the next one"""
    d = sub_(xyz(at(P, i + 1)), xyz(at(P, i)))
    return DIR(E, d[0], d[1])


def edge(C, first, empty=None):
    """direction of the first or last leg"""
    P = seq(C)
    r = leg(C.E, P, z3.IntVal(0) if first else P.n - 2)
    return [('the direction of the %s leg' % ('first' if first else 'last'), C.res.z == (r if empty is None else If(P.n == 0, RV(empty), r)))]


legs_pre = lambda C: [('none or at least two points', Or(seq(C).n == 0, seq(C).n >= 2))]
Contract(TY + 'Swath::getInAngle', props=['C12'], requires=legs_pre, ensures=lambda C: edge(C, True, -1))
Contract(TY + 'Swath::getOutAngle', props=['C12'], requires=legs_pre, ensures=lambda C: edge(C, False, -1))
for cl in ('LineString',):
    Contract(TY + cl + '::startAngle', props=['C12'], requires=lambda C: [('at least two points', seq(C).n >= 2)], ensures=lambda C: edge(C, True))
    Contract(TY + cl + '::endAngle', props=['C12'], requires=lambda C: [('at least two points', seq(C).n >= 2)], ensures=lambda C: edge(C, False))


def end_ens(C, first, none=True):
    P = seq(C)
    is_end = pack(C.res) == P.arr[z3.IntVal(0) if first else P.n - 1]
    return [('the %s point' % ('first' if first else 'last'), If(P.n == 0, And([a == 0 for a in xyz(C.res)]), is_end) if none else is_end)]


Contract(TY + 'Swath::startPoint', props=['C12'], ensures=lambda C: end_ens(C, True))
Contract(TY + 'Swath::endPoint', props=['C12'], ensures=lambda C: end_ens(C, False))
MPI = ('MultiPoint::getInAngle', 'MultiPoint::getOutAngle')


def mp_in(C):
    P, i = seq(C), C.arg(0).z
    return If(And(i >= 1, i < P.n), leg(C.E, P, i - 1), RV(0))


def mp_ens(C, inn):
    P, i = seq(C), C.arg(0).z
    return [('the direction of the leg %s the point' % ('towards' if inn else 'from'), C.res.z == leg(C.E, P, i - 1 if inn else i))]


Contract(TY + MPI[0], props=['C12'], throws=lambda C: [('invalid_argument', C.arg(0).z == 0), ('out_of_range', And(C.arg(0).z != 0, C.arg(0).z >= seq(C).n))], ensures=lambda C: mp_ens(C, True))
Contract(TY + MPI[1], props=['C12'], requires=lambda C: [('there are points', seq(C).n >= 1)], throws=lambda C: [('invalid_argument', C.arg(0).z >= seq(C).n - 1)], ensures=lambda C: mp_ens(C, False))
