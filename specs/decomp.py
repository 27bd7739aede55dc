"""Decomposition: the lines the field is split along, and the splitting itself (GEOS difference and buffer uninterpreted)."""
import z3
from f2cv.contract import Contract
from f2cv.values import *
from f2cv.values import sort_of
from f2cv.sp import *
from f2cv import models as M
from f2cv import geo
from specs.angles import xyz, cos, sin
from specs.swathgen import env, is_pt, new_tree
from specs.sgobj import flat, overlay

TY = 'f2c::types::'
DC = 'f2c::decomp::'
RV = z3.RealVal
R_ = z3.RealSort()
S1, S2, S3 = sort_of(PTS), sort_of(geo.CONT2), sort_of(geo.CONT3)
POINT = rec_t('Point') if 'rec_t' in globals() else T('rec', 'Point')
SP = sort_of(POINT)
PROP = ['C10']


def cont(C, v, heap):
    return geo.cont(C.E, v, heap)


def res_is(C, x):
    return cont(C, C.res, C.post.heap) == x


def app(E, c, l):
    """the lines c followed by the line l"""
    f = z3.Function('AppendLine', S2, S1, S2)

    def ax():
        x, y, i = z3.Const('ap_x', S2), z3.Const('ap_y', S1), z3.Int('ap_i')
        k, h = z3.Const('ap_k', sort_of(REFS)), z3.Const('ap_h', geo.HP)
        X, F, K = unpack(geo.CONT2, x), unpack(geo.CONT2, f(x, y)), unpack(REFS, k)
        d = z3.Function('AppendDiff', S2, S1, sort_of(REFS), geo.HP, z3.IntSort())(x, y, k, h)
        return [z3.ForAll([x, y], Implies(X.n >= 0, And(F.n == X.n + 1, F.arr[X.n] == y)), patterns=[f(x, y)]),
                z3.ForAll([x, y, i], Implies(And(0 <= i, i < X.n), F.arr[i] == X.arr[i]), patterns=[F.arr[i]]),
                z3.ForAll([x, y, k, h], Or(geo.C2(E)(k, h) == f(x, y), K.n != X.n + 1, h[K.arr[X.n]] != y, And(0 <= d, d < X.n, h[K.arr[d]] != X.arr[d])),
                          patterns=[z3.MultiPattern(f(x, y), geo.C2(E)(k, h))])]
    E.axiom('appendline', ax)
    return f(c, l)


def none(E):
    """no lines"""
    c = z3.Const('NoLines', S2)

    def ax():
        k, h = z3.Const('nl_k', sort_of(REFS)), z3.Const('nl_h', geo.HP)
        return [unpack(geo.CONT2, c).n == 0, z3.ForAll([k, h], Implies(unpack(REFS, k).n == 0, geo.C2(E)(k, h) == c), patterns=[geo.C2(E)(k, h)])]
    E.axiom('nolines', ax)
    return c


# ---------------------------------------------------------------- splitting
def difference(E, a, b):
    return overlay(E, 'Difference', a, b)


def cut(E, c, l):
    """cells c without a strip of 1e-8 around the line l"""
    f = z3.Function('CutByLine', S3, S1, S3)

    def ax():
        x, y = z3.Const('cu_x', S3), z3.Const('cu_y', S1)
        return [z3.ForAll([x, y], f(x, y) == difference(E, x, M.geo_of(E, 'Cells', flat(E, y, RV('1/100000000')))), patterns=[f(x, y)])]
    E.axiom('cutbyline', ax)
    return f(c, l)


def cuts(E, c, ls, i):
    """cells c cut by the first i of the lines ls"""
    f = z3.Function('CutByLines', S3, S2, z3.IntSort(), S3)

    def ax():
        x, y, k = z3.Const('cl_x', S3), z3.Const('cl_y', S2), z3.Int('cl_k')
        Y = unpack(geo.CONT2, y)
        return [z3.ForAll([x, y], f(x, y, 0) == x, patterns=[f(x, y, 0)]),
                z3.ForAll([x, y, k], Implies(k >= 0, f(x, y, k + 1) == cut(E, f(x, y, k), Y.arr[k])), patterns=[z3.MultiPattern(f(x, y, k), Y.arr[k])])]
    E.axiom('cutbylines', ax)
    return f(c, ls, i)


def count(E, kind, X):
    """members a loop over the collection visits"""
    return X.n


def lines_n(E, ls):
    """members of a multi line that a loop visits"""
    X = unpack(geo.CONT2, ls)
    return X, count(E, 'MultiLineString', X)


Contract(TY + 'Cells::splitByLine', sig='(const LineString &)', props=PROP, alloc=True, ensures=lambda C: [
    ('the cells without a thin strip around the line', res_is(C, cut(C.E, cont(C, C.this(), C.pre.heap), cont(C, C.arg(0), C.pre.heap))))])


def split_lines(C):
    E = C.E
    c, ls = cont(C, C.this(), C.pre.heap), cont(C, C.arg(0), C.pre.heap)
    X, n = lines_n(E, ls)
    return [('cut by one line after the other', res_is(C, cuts(E, c, ls, n)))]


def inv_split(L):
    C = L.E.entry
    if not C.con.name.endswith('splitByLine'):
        return []
    c, ls = cont(C, C.this(), C.pre.heap), cont(C, C.arg(0), C.pre.heap)
    out = []
    for l, v in L.places(lambda x: isinstance(x, Rec) and x.t.name == 'Cells'):
        out.append(('the cells exist', lambda st, l=l: And(L.at(st, l).f['data_'].z >= 1, L.at(st, l).f['data_'].z < st.alloc)))
        for i in ([lambda st: L.z(st, L.idx)] if L.idx is not None else []) + [c_ for _, c_, _0 in L.counters()]:
            out.append(('cut by the lines so far', lambda st, l=l, i=i: And(i(st) >= 0, cont(C, L.at(st, l), st.heap) == cuts(C.E, c, ls, i(st)))))
    return out


Contract(TY + 'Cells::splitByLine', sig='(const MultiLineString &)', props=PROP, alloc=True, invariants=[inv_split], ensures=split_lines)


def sfun(name, *sorts):
    return z3.Function(name, *sorts)


def split_set(E, c):
    """content of the split lines a decomposition answers with"""
    M._mark(E, 'a decomposition answers with a function of the cells it is given (no state changes, no randomness)')
    return geo.op(E, 'SplitLines', geo.CONT2, c)


def split_of(E, c):
    return geo.op(E, 'SplitCells', geo.CONT3, c)


def merge_of(E, c):
    return geo.op(E, 'MergedCells', geo.CONT3, c)


def cells0(C):
    return cont(C, C.arg(0), C.pre.heap)


Contract(DC + 'DecompositionBase::genSplitLines', props=[], alloc=True, trusted='pure virtual: any choice of lines', ensures=lambda C: [
    ('its lines', res_is(C, split_set(C.E, cells0(C))))])


def split_ens(C):
    E, c = C.E, cells0(C)
    if C is not C.E.entry:
        return [('its parts', res_is(C, split_of(E, c)))]
    ls = split_set(E, c)
    X, n = lines_n(E, ls)
    return [('the cells cut by all split lines of the decomposition', res_is(C, cuts(E, c, ls, n)))]


Contract(DC + 'DecompositionBase::split', props=PROP, alloc=True, ensures=split_ens)
Contract(DC + 'DecompositionBase::merge', props=PROP, alloc=True, ensures=lambda C: [
    ('the cells as they are', res_is(C, cells0(C))) if C is C.E.entry else ('its cells', res_is(C, merge_of(C.E, cells0(C))))])
Contract(DC + 'DecompositionBase::decompose', props=PROP, alloc=True, ensures=lambda C: [
    ('split, then merged', res_is(C, merge_of(C.E, split_of(C.E, cells0(C)))))])


# ---------------------------------------------------------------- split lines
def until(E, kind, c, p, a):
    """points of the line from p at angle a up to the border of the cells or the cell with content c"""
    return geo.op(E, 'UntilBorder' + kind, PTS, c, pack(p), a)


def where(E, c, p):
    return geo.op(E, 'CellWherePoint', geo.CONT2, c, pack(p))


def line_res(C, x):
    return [('the line', C.heap_post('pts')[C.res.f['data_'].z] == x), ('in an object of its own', And(C.res.f['data_'].z >= C.pre.alloc, C.res.f['data_'].z < C.post.alloc))]


Contract(TY + 'Cells::createLineUntilBorder', props=PROP, alloc=True, ensures=lambda C: line_res(C, (
    until(C.E, 'Cells', cont(C, C.this(), C.pre.heap), C.arg(0), C.arg(1).z) if C is not C.E.entry else
    until(C.E, 'Cell', where(C.E, cont(C, C.this(), C.pre.heap), C.arg(0)), C.arg(0), C.arg(1).z))))


SEMI, INTER = TY + 'Cell::createSemiLongLine', TY + 'MultiLineString::intersection'


def semi_ens(C):
    E = C.E
    p, a = xyz(C.arg(0)), C.arg(1).z
    e = env(C, cont(C, C.this(), C.pre.heap))
    L = unpack(PTS, C.heap_post('pts')[C.res.f['data_'].z])
    ln = (e['MaxX'] - e['MinX']) + (e['MaxY'] - e['MinY'])
    return [('a line from the point, longer than the cell, along the angle', And(L.n == 2, is_pt(at(L, 0), p), is_pt(at(L, 1), (p[0] + ln * cos(E, a), p[1] + ln * sin(E, a), RV(0))))),
            ('in an object of its own', And(C.res.f['data_'].z >= C.pre.alloc, C.res.f['data_'].z < C.post.alloc))]


Contract(SEMI, props=PROP, alloc=True, ensures=semi_ens)
Contract(INTER, sig='(const Geometry<', notsig='const LineString', props=PROP, alloc=True, ensures=lambda C: [
    ('the parts of the lines inside', res_is(C, M.geo_of(C.E, 'MultiLineString', M.ogr_op(C.E, 'Intersection', cont(C, C.this(), C.pre.heap), cont(C, C.arg(0), C.pre.heap))))),
    ('new objects', new_tree(C, C.res))])


def point_of(E, x, q):
    """q is a point of one of the lines x: (holds, line, place on it)"""
    f = z3.Function('PointOfLines', S2, SP, z3.BoolSort())

    def ax():
        a, b, i, j = z3.Const('pl_x', S2), z3.Const('pl_q', SP), z3.Int('pl_i'), z3.Int('pl_j')
        A = unpack(geo.CONT2, a)
        L = unpack(PTS, A.arr[i])
        return [z3.ForAll([a, i, j], Implies(And(0 <= i, i < A.n, 0 <= j, j < L.n), f(a, L.arr[j])), patterns=[z3.MultiPattern(f(a, L.arr[j]))])]
    E.axiom('pointoflines', ax)
    return f(x, pack(q) if isinstance(q, Rec) else q)


FAR = RV('10000000000000001/1000000000000000000000')     # the double nearest to 1e-5, as clang prints it


def nearest(E, X, n, m, p, d):
    """no point of the first n lines of X and the first m points of the next one is farther than 1e-5 from p and nearer than d"""
    i, j = z3.Ints('ne_i ne_j')
    A = unpack(geo.CONT2, X)
    L = unpack(PTS, A.arr[i])
    q = at(L, j)
    dd = M.point_dist(E, q, p)
    out = [z3.ForAll([i, j], Implies(And(0 <= i, Or(i < n - 1, i == n - 1), 0 <= j, j < L.n, dd > FAR), d <= dd), patterns=[L.arr[j]])]
    if m is not None:
        L1 = unpack(PTS, A.arr[n])
        d1 = M.point_dist(E, at(L1, j), p)
        out.append(z3.ForAll([j], Implies(And(0 <= j, j < m, d1 > FAR), d <= d1), patterns=[L1.arr[j]]))
    return And(*out)


def until_ens(C):
    E = C.E
    p, a = C.arg(0), C.arg(1).z
    c = cont(C, C.this(), C.pre.heap)
    if C is not C.E.entry:
        return line_res(C, until(E, 'Cell', c, p, a))
    sl, it = C.calls(SEMI), C.calls(INTER)
    if len(sl) != 1 or len(it) != 1:
        raise Unsupported('createLineUntilBorder: no single ray and intersection')
    sl, it = sl[0], it[0]
    Rl = cont(C, it.this(), it.pre.heap)
    X = cont(C, it.res, it.post.heap)
    U = unpack(geo.CONT2, X)
    R = unpack(PTS, C.heap_post('pts')[C.res.f['data_'].z])
    q = at(R, 1)
    i, j = z3.Ints('ue_i ue_j')
    L = unpack(PTS, U.arr[i])
    b = z3.Const('ue_b', SP)
    B = unpack(POINT, b)
    dq, db = M.point_dist(E, q, p), M.point_dist(E, B, p)
    eps = RV('1/10000000')
    near = And(*[And(B.f[k].z - p.f[k].z < eps, p.f[k].z - B.f[k].z < eps) for k in 'xyz'])
    return [('the ray starts at the point at the angle', And(pack(sl.arg(0)) == pack(p), sl.arg(1).z == a, cont(C, sl.this(), sl.pre.heap) == c)),
            ('the ray is cut with the cell', And(unpack(geo.CONT2, Rl).n == 1, unpack(geo.CONT2, Rl).arr[0] == sl.heap_post('pts')[sl.res.f['data_'].z], cont(C, it.arg(0), it.pre.heap) == c)),
            ('from the point to the nearest other point of the cut, or nothing', Or(
                And(R.n == 2, R.arr[0] == pack(p), point_of(E, X, q), dq > FAR, nearest(E, X, U.n, None, p, dq)),
                And(R.n == 0, z3.Exists([b], And(point_of(E, X, b), db > FAR, near))),
                And(R.n == 0, z3.ForAll([i, j], Implies(And(0 <= i, i < U.n, 0 <= j, j < L.n), Or(M.point_dist(E, at(L, j), p) <= FAR, M.point_dist(E, at(L, j), p) >= z3.Real('DBL_MAX'))), patterns=[L.arr[j]])))),
            ('in an object of its own', And(C.res.f['data_'].z >= C.pre.alloc, C.res.f['data_'].z < C.post.alloc))]


def inv_until(L):
    C = L.E.entry
    if not C.con.name.endswith('Cell::createLineUntilBorder'):
        return []
    E = C.E
    p = C.arg(0)
    it = [c for n, c in L.entry.log if n == INTER]
    if len(it) != 1:
        return []
    X = cont(C, it[0].res, it[0].post.heap)
    idx = ([lambda st: L.z(st, L.idx)] if L.idx is not None else []) + [c_ for _, c_, _0 in L.counters()]
    pts = L.places(lambda x: isinstance(x, Rec) and x.t.name == 'Point')
    own = [c.res.f['data_'].z for n, c in L.entry.log if n == SEMI]
    lines = L.places(lambda x: isinstance(x, Rec) and x.t.name == 'LineString' and not any(x.f['data_'].z.eq(o) for o in own)) if L.outer else []
    out = []
    j = z3.Int('iu_j')
    mx = z3.Real('DBL_MAX')
    for rl, _ in L.reals():
        d = lambda st, rl=rl: L.z(st, rl)
        d0 = d(L.entry)
        for pl, _1 in pts:
            best = lambda st, pl=pl: L.at(st, pl)
            out.append(('the point kept is of the cut and at the distance kept', lambda st, best=best, d=d: Or(
                And(d(st) == mx, pack(best(st)) == pack(p)), And(point_of(E, X, best(st)), d(st) > FAR, d(st) == M.point_dist(E, best(st), p)))))
        for i in idx:
            if lines:
                V0 = unpack(PTS, cont(C, lines[-1][1], L.entry.heap))
                V = lambda V0=V0: V0
                out.append(('no nearer point on the line so far', lambda st, d=d, i=i, d0=d0: And(i(st) >= 0, d(st) <= d0, z3.ForAll([j], Implies(
                    And(0 <= j, j < i(st), M.point_dist(E, at(V(), j), p) > FAR), d(st) <= M.point_dist(E, at(V(), j), p)), patterns=[V().arr[j]]))))
            else:
                out.append(('no nearer point on the lines so far', lambda st, d=d, i=i: And(i(st) >= 0, nearest(E, X, i(st), None, p, d(st)))))
    return out


Contract(TY + 'Cell::createLineUntilBorder', props=PROP, alloc=True, invariants=[inv_until], ensures=until_ens)


def where_ens(C):
    E = C.E
    c, p = cont(C, C.this(), C.pre.heap), C.arg(0)
    if C is not C.E.entry:
        return [('its content', res_is(C, where(E, c, p)))]
    X = unpack(geo.CONT3, c)
    i, j = z3.Ints('wp_i wp_j')
    holds = lambda i: Or(M.ogr_op(E, 'Touches', pack(p), X.arr[i]), M.ogr_op(E, 'Within', pack(p), X.arr[i]))
    r = cont(C, C.res, C.post.heap)
    n = count(E, 'Cells', X)
    return [('the first cell that holds the point, or an empty one',
             Or(And(unpack(geo.CONT2, r).n == 0, z3.ForAll([j], Implies(And(0 <= j, j < n), Not(holds(j))), patterns=[X.arr[j]])),
                z3.Exists([i], And(0 <= i, i < n, holds(i), r == X.arr[i], z3.ForAll([j], Implies(And(0 <= j, j < i), Not(holds(j))), patterns=[X.arr[j]])))))]


def inv_where(L):
    C = L.E.entry
    if not C.con.name.endswith('getCellWherePoint'):
        return []
    E = C.E
    c, p = cont(C, C.this(), C.pre.heap), C.arg(0)
    X = unpack(geo.CONT3, c)
    j = z3.Int('iw_j')
    holds = lambda i: Or(M.ogr_op(E, 'Touches', pack(p), X.arr[i]), M.ogr_op(E, 'Within', pack(p), X.arr[i]))
    return [('no cell so far holds the point', lambda st, i=i: z3.ForAll([j], Implies(And(0 <= j, j < i(st)), Not(holds(j))), patterns=[X.arr[j]]))
            for i in ([lambda st: L.z(st, L.idx)] if L.idx is not None else []) + [c_ for _, c_, _0 in L.counters()]]


Contract(TY + 'Cells::getCellWherePoint', props=PROP, alloc=True, ensures=where_ens, invariants=[inv_where])


# lines of the trapezoidal decomposition: per cell, per ring, per point one line in both directions
def fold(E, angle, c0):
    """(points of a ring, rings of a cell, cells) -> lines, added to given ones"""
    fp = z3.Function('LinesOfPoints', S2, S1, z3.IntSort(), S2)
    fr = z3.Function('LinesOfRings', S2, S2, z3.IntSort(), S2)
    fc = z3.Function('LinesOfCells', S2, S3, z3.IntSort(), S2)
    pi = E.pi()

    def ax():
        c, i = z3.Const('fo_c', S2), z3.Int('fo_i')
        p, r, k = z3.Const('fo_p', S1), z3.Const('fo_r', S2), z3.Const('fo_k', S3)
        P, R, K = unpack(PTS, p), unpack(geo.CONT2, r), unpack(geo.CONT3, k)
        pt = at(P, i)
        two = app(E, app(E, fp(c, p, i), until(E, 'Cells', c0, pt, angle)), until(E, 'Cells', c0, pt, angle + pi))
        ring = unpack(PTS, R.arr[i])
        cell = unpack(geo.CONT2, K.arr[i])
        return [z3.ForAll([c, p], fp(c, p, 0) == c, patterns=[fp(c, p, 0)]),
                z3.ForAll([c, p, i], Implies(i >= 0, fp(c, p, i + 1) == two), patterns=[z3.MultiPattern(fp(c, p, i), P.arr[i])]),
                z3.ForAll([c, r], fr(c, r, 0) == c, patterns=[fr(c, r, 0)]),
                z3.ForAll([c, r, i], Implies(i >= 0, fr(c, r, i + 1) == fp(fr(c, r, i), R.arr[i], ring.n)), patterns=[z3.MultiPattern(fr(c, r, i), R.arr[i])]),
                z3.ForAll([c, k], fc(c, k, 0) == c, patterns=[fc(c, k, 0)]),
                z3.ForAll([c, k, i], Implies(i >= 0, fc(c, k, i + 1) == fr(fc(c, k, i), K.arr[i], count(E, 'Cell', cell))), patterns=[z3.MultiPattern(fc(c, k, i), K.arr[i])])]
    E.axiom('linefold', ax)
    return fp, fr, fc


def angle_of(C, st=None):
    return C.this().f['split_angle'].z


def trap_ens(C):
    E = C.E
    c0 = cells0(C)
    _, _, fc = fold(E, angle_of(C), c0)
    return [('for every point of every ring of every cell the line to the border in both directions',
             res_is(C, fc(none(E), c0, count(E, 'Cells', unpack(geo.CONT3, c0)))))]


def inv_trap(L):
    C = L.E.entry
    if not C.con.name.endswith('TrapezoidalDecomp::genSplitLines'):
        return []
    E = C.E
    c0 = cells0(C)
    fp, fr, fc = fold(E, angle_of(C), c0)
    out = []
    j = z3.Int('it_j')
    idx = ([lambda st: L.z(st, L.idx)] if L.idx is not None else []) + [c_ for _, c_, _0 in L.counters()]
    for l, v in L.places(lambda x: isinstance(x, Rec) and x.t.name == 'MultiLineString'):
        K = lambda st, l=l: unpack(REFS, st.heap['kids'][L.at(st, l).f['data_'].z])
        now = lambda st, l=l: cont(C, L.at(st, l), st.heap)
        c = now(L.entry)
        out.append(('lines exist', lambda st, K=K: And(K(st).n >= 0, z3.ForAll([j], Implies(And(0 <= j, j < K(st).n), And(K(st).arr[j] >= 1, K(st).arr[j] < st.alloc)), patterns=[K(st).arr[j]]))))
        for i in idx:
            rs = L.places(lambda x: isinstance(x, Rec) and x.t.name == 'LinearRing')
            cs = L.places(lambda x: isinstance(x, Rec) and x.t.name == 'Cell')
            for _, rv in rs[-1:]:
                out.append(('lines of the points so far', lambda st, now=now, i=i, rv=rv, c=c: And(i(st) >= 0, now(st) == fp(c, cont(C, rv, L.entry.heap), i(st)))))
            for _, cv in cs[-1:]:
                if not rs:
                    out.append(('lines of the rings so far', lambda st, now=now, i=i, cv=cv, c=c: And(i(st) >= 0, now(st) == fr(c, cont(C, cv, L.entry.heap), i(st)))))
            if not rs and not cs:
                out.append(('lines of the cells so far', lambda st, now=now, i=i, c=c: And(i(st) >= 0, now(st) == fc(c, c0, i(st)))))
    return out


Contract(DC + 'TrapezoidalDecomp::genSplitLines', props=PROP, alloc=True, ensures=trap_ens, invariants=[inv_trap])
Contract(DC + 'TrapezoidalDecomp::setSplitAngle', props=PROP, modifies=lambda C: [C.obj], ensures=lambda C: [('the angle is kept', C.this_post().f['split_angle'].z == C.arg(0).z)])
Contract(DC + 'TrapezoidalDecomp::getSplitAngle', props=PROP, ensures=lambda C: [('the angle set', C.res.z == C.this().f['split_angle'].z)])
