"""Field: cells relative to a reference point, with the names of their coordinate systems; moving geometries by a point."""
import z3
from f2cv.contract import Contract
from f2cv.values import *
from f2cv.values import sort_of, StrSort
from f2cv.sp import *
from f2cv import geo
from f2cv.engine import Unsupported

TY = 'f2c::types::'
FI = TY + 'Field::'
P_ = ['C11']
RV = z3.RealVal
S1, S2, S3 = sort_of(PTS), sort_of(geo.CONT2), sort_of(geo.CONT3)
R = z3.RealSort()


def xyz(p):
    return p.f['x'].z, p.f['y'].z, p.f['z'].z


def shift(p, q, d):
    """q is p moved by d"""
    return And([q.f[k].z == p.f[k].z + z for k, z in zip('xyz', d)])


def moved1(E, a, d, b):
    """packed point sequences: b is a moved by d"""
    f = z3.Function('Moved1', S1, R, R, R, S1, z3.BoolSort())

    def ax():
        x, y = z3.Const('mv_a', S1), z3.Const('mv_b', S1)
        D = [z3.Real('mv_' + k) for k in 'xyz']
        X, Y = unpack(PTS, x), unpack(PTS, y)
        W = z3.Function('MovedW1', S1, R, R, R, S1, z3.IntSort())
        w = W(x, *D, y)
        i = z3.Int('mv_i')
        t = f(x, *D, y)
        return [z3.ForAll([x, y] + D, Implies(t, X.n == Y.n), patterns=[t]),
                z3.ForAll([x, y, i] + D, Implies(And(t, 0 <= i, i < X.n), shift(at(X, i), at(Y, i), D)), patterns=[z3.MultiPattern(t, Y.arr[i]), z3.MultiPattern(t, X.arr[i])]),
                z3.ForAll([x, y] + D, Or(t, X.n != Y.n, And(0 <= w, w < X.n, Not(shift(at(X, w), at(Y, w), D)))), patterns=[t])]
    E.axiom('moved1', ax)
    return f(a, *d, b)


def ring_moved(E, a, d, b):
    """rings: moved, and closed by its first point in case it was open; a ring without points is left out of it"""
    f = z3.Function('MovedRing', S1, R, R, R, S1, z3.BoolSort())

    def ax():
        x, y = z3.Const('mv_a', S1), z3.Const('mv_b', S1)
        D = [z3.Real('mv_' + k) for k in 'xyz']
        X, Y = unpack(PTS, x), unpack(PTS, y)
        W = z3.Function('MovedWR', S1, R, R, R, S1, z3.IntSort())
        w = W(x, *D, y)
        i = z3.Int('mv_i')
        t = f(x, *D, y)
        shape = And(Y.n >= X.n, Y.n <= X.n + 1, Implies(Y.n > X.n, And(X.n > 0, Y.arr[X.n] == Y.arr[0])), Implies(And(X.n > 0, X.arr[0] == X.arr[X.n - 1]), Y.n == X.n))
        return [z3.ForAll([x, y] + D, Implies(t, shape), patterns=[t]),
                z3.ForAll([x, y, i] + D, Implies(And(t, 0 <= i, i < X.n), shift(at(X, i), at(Y, i), D)), patterns=[z3.MultiPattern(t, Y.arr[i]), z3.MultiPattern(t, X.arr[i])]),
                z3.ForAll([x, y] + D, Or(t, Not(shape), And(0 <= w, w < X.n, Not(shift(at(X, w), at(Y, w), D)))), patterns=[t])]
    E.axiom('movedring', ax)
    return f(a, *d, b)


def moved2(E, a, d, b):
    f = z3.Function('Moved2', S2, R, R, R, S2, z3.BoolSort())

    def ax():
        x, y = z3.Const('mv_a', S2), z3.Const('mv_b', S2)
        D = [z3.Real('mv_' + k) for k in 'xyz']
        X, Y = unpack(geo.CONT2, x), unpack(geo.CONT2, y)
        W = z3.Function('MovedW2', S2, R, R, R, S2, z3.IntSort())
        w = W(x, *D, y)
        i = z3.Int('mv_i')
        t = f(x, *D, y)
        return [z3.ForAll([x, y] + D, Implies(t, X.n == Y.n), patterns=[t]),
                z3.ForAll([x, y, i] + D, Implies(And(t, 0 <= i, i < X.n), ring_moved(E, X.arr[i], D, Y.arr[i])), patterns=[z3.MultiPattern(t, Y.arr[i]), z3.MultiPattern(t, X.arr[i])]),
                z3.ForAll([x, y] + D, Or(t, X.n != Y.n, And(0 <= w, w < X.n, Not(ring_moved(E, X.arr[w], D, Y.arr[w])))), patterns=[t])]
    ring_moved(E, z3.Const('mv_z', S1), [RV(0)] * 3, z3.Const('mv_z', S1))
    E.axiom('moved2', ax)
    return f(a, *d, b)


def moved3(E, a, d, b):
    f = z3.Function('Moved3', S3, R, R, R, S3, z3.BoolSort())

    def ax():
        x, y = z3.Const('mv_a', S3), z3.Const('mv_b', S3)
        D = [z3.Real('mv_' + k) for k in 'xyz']
        X, Y = unpack(geo.CONT3, x), unpack(geo.CONT3, y)
        W = z3.Function('MovedW3', S3, R, R, R, S3, z3.IntSort())
        w = W(x, *D, y)
        i = z3.Int('mv_i')
        t = f(x, *D, y)
        return [z3.ForAll([x, y] + D, Implies(t, X.n == Y.n), patterns=[t]),
                z3.ForAll([x, y, i] + D, Implies(And(t, 0 <= i, i < X.n), moved2(E, X.arr[i], D, Y.arr[i])), patterns=[z3.MultiPattern(t, Y.arr[i]), z3.MultiPattern(t, X.arr[i])]),
                z3.ForAll([x, y] + D, Or(t, X.n != Y.n, And(0 <= w, w < X.n, Not(moved2(E, X.arr[w], D, Y.arr[w])))), patterns=[t])]
    moved2(E, z3.Const('mv_z2', S2), [RV(0)] * 3, z3.Const('mv_z2', S2))
    E.axiom('moved3', ax)
    return f(a, *d, b)


MOVED = {'LinearRing': moved1, 'LineString': moved1, 'MultiPoint': moved1, 'Cell': moved2, 'MultiLineString': moved2, 'Cells': moved3}


def cont(C, v, heap):
    return geo.cont(C.E, v, heap)


def sgn(C):
    d = xyz(C.arg(1))
    return d if C.con.name.endswith('operator+') else [-x for x in d]


def tr_ens(C):
    n = C.arg(0).t.name
    return [('every point moved, nothing else', MOVED[n](C.E, cont(C, C.arg(0), C.pre.heap), sgn(C), cont(C, C.res, C.post.heap))),
            ('in an object of its own', And(C.res.f['data_'].z >= C.pre.alloc, C.res.f['data_'].z < C.post.alloc))]


def inv_tr(L):
    C = L.E.entry
    if not (C.con.name.endswith('operator+') or C.con.name.endswith('operator-')) or L.idx is None:
        return []
    n, d = C.arg(0).t.name, sgn(C)
    out = []
    a0 = L.entry.alloc
    for l, v in L.places(lambda x: isinstance(x, Rec) and x.t.name == n and 'data_' in x.f):
        out.append(('the result stays the same object', lambda st, l=l, v=v: L.at(st, l).f['data_'].z == v.f['data_'].z))
        if n in geo.GEO_PTS:
            A = pts_of(C.heap('pts'), C.arg(0).f['data_'].z)

            def f(st, l=l):
                B = pts_of(st.heap['pts'], L.at(st, l).f['data_'].z)
                k = L.z(st, L.idx)
                return And(B.n == k, fa(B, lambda i, p: shift(at(A, i), p, d), 0, k))
            out.append(('the points visited so far are moved', f))
        else:
            sub = moved2 if n == 'Cells' else ring_moved
            nm = 'Cell' if n == 'Cells' else 'LinearRing'
            A = unpack(geo.ctype(n), cont(C, C.arg(0), C.pre.heap))

            def g(st, l=l):
                K = kids_of(st.heap['kids'], L.at(st, l).f['data_'].z)
                k = L.z(st, L.idx)
                return And(K.n == k, fa(K, lambda i, r: And(r.z >= a0, r.z < st.alloc, sub(C.E, A.arr[i], d, geo.content(C.E, nm, r.z, st.heap))), 0, k))
            out.append(('the parts visited so far are moved', g))
    return out


for op in ('operator+', 'operator-'):
    for nm in ('LinearRing', 'Cell', 'Cells'):
        Contract(TY + op, sig='(const f2c::types::%s &, const f2c::types::Point &)' % nm, props=P_, alloc=True, invariants=[inv_tr], ensures=tr_ens)


# ---------------------------------------------------------------- the field
STRS = ('id_', 'coord_sys_', 'prev_coord_sys_')


def fcells(C, F, heap):
    return cont(C, F.f['field_'], heap)


def first_point(E, c):
    """first point of the border of the first cell"""
    return at(unpack(PTS, unpack(geo.CONT2, unpack(geo.CONT3, c).arr[0]).arr[0]), 0)


def keep(C, *changed):
    a, b = C.this(), C.this_post()
    eqs = [veq(a.f[k], b.f[k]) for k in STRS if k not in changed]
    if 'ref_point_' not in changed:
        eqs.append(And([x == y for x, y in zip(xyz(a.f['ref_point_']), xyz(b.f['ref_point_']))]))
    if 'field_' not in changed:
        eqs.append(a.f['field_'].f['data_'].z == b.f['field_'].f['data_'].z)
    return [('everything else stays', And(eqs))]


def same_pt(p, q):
    return And([x == y for x, y in zip(xyz(p), xyz(q))])


def getter(name, f, lab, **kw):
    Contract(FI + name, props=P_, inline=True, ensures=lambda C: [(lab, f(C))], **kw)


def setter(name, fld, f, lab, **kw):
    Contract(FI + name, props=P_, inline=True, modifies=lambda C: [C.obj], ensures=lambda C: [(lab, f(C))] + keep(C, fld), **kw)


getter('getId', lambda C: veq(C.res, C.this().f['id_']), 'the identifier')
getter('getCRS', lambda C: veq(C.res, C.this().f['coord_sys_']), 'the coordinate system')
getter('getPrevCRS', lambda C: veq(C.res, C.this().f['prev_coord_sys_']), 'the coordinate system before')
getter('getRefPoint', lambda C: same_pt(C.res, C.this().f['ref_point_']), 'the reference point', sig='const Point &() const')
setter('setId', 'id_', lambda C: veq(C.this_post().f['id_'], C.arg(0)), 'the identifier is the given one')
setter('setCRS', 'coord_sys_', lambda C: veq(C.this_post().f['coord_sys_'], C.arg(0)), 'the coordinate system is the given one')
setter('setPrevCRS', 'prev_coord_sys_', lambda C: veq(C.this_post().f['prev_coord_sys_'], C.arg(0)), 'the coordinate system before is the given one')
setter('setRefPoint', 'ref_point_', lambda C: same_pt(C.this_post().f['ref_point_'], C.arg(0)), 'the reference point is the given one')
setter('setField', 'field_', lambda C: fcells(C, C.this_post(), C.post.heap) == cont(C, C.arg(0), C.pre.heap), 'the cells are the given ones')


def ctor(C):
    t = C.this_post()
    c = cont(C, C.arg(0), C.pre.heap)
    e = geo.empty(C.E, 'Cells', c)
    p = t.f['ref_point_']
    return [('the identifier is the given one', veq(t.f['id_'], C.arg(1))),
            ('the reference point is the first point of the border', If(e, And([x == 0 for x in xyz(p)]), same_pt(p, first_point(C.E, c)))),
            ('cells of its own', t.f['field_'].f['data_'].z >= C.pre.alloc),
            ('no coordinate system yet', And(veq(t.f['coord_sys_'], NOSTR), veq(t.f['prev_coord_sys_'], NOSTR))),
            ('the cells are relative to the reference point', moved3(C.E, c, [-x for x in xyz(p)], fcells(C, t, C.post.heap)))]


def bordered(C, c):
    X = unpack(geo.CONT3, c)
    return [('the first cell has a border', Implies(X.n > 0, And(unpack(geo.CONT2, X.arr[0]).n > 0, unpack(PTS, unpack(geo.CONT2, X.arr[0]).arr[0]).n > 0)))]


NOSTR = Sc(STR, z3.Const('str:', StrSort))


Contract(FI + 'Field', sig='(const Cells &, const std::string &)', props=P_, alloc=True, requires=lambda C: bordered(C, cont(C, C.arg(0), C.pre.heap)), modifies=lambda C: [C.obj], ensures=ctor)
Contract(FI + 'getCellsAbsPosition', props=P_, alloc=True, ensures=lambda C: [
    ('the cells moved back by the reference point', moved3(C.E, fcells(C, C.this(), C.pre.heap), xyz(C.this().f['ref_point_']), cont(C, C.res, C.post.heap)))])
Contract(FI + 'isEmpty', props=P_, ensures=lambda C: [('whether there is any cell', C.res.z == geo.empty(C.E, 'Cells', fcells(C, C.this(), C.pre.heap)))])
Contract(FI + 'area', props=P_, ensures=lambda C: [('the area of the cells', C.res.z == geo.area(C.E, fcells(C, C.this(), C.pre.heap)))])


def clone(C):
    t, n = C.this(), C.res
    c = fcells(C, t, C.pre.heap)
    r, q = t.f['ref_point_'], n.f['ref_point_']
    return [('same identifier and coordinate systems', And([veq(t.f[k], n.f[k]) for k in STRS])),
            ('the cells stay where they are', moved3(C.E, c, [x - y for x, y in zip(xyz(r), xyz(q))], fcells(C, n, C.post.heap))),
            ('the reference point of a field without cells stays', Implies(geo.empty(C.E, 'Cells', c), same_pt(q, r))),
            ('in objects of its own', n.f['field_'].f['data_'].z >= C.pre.alloc)]


Contract(FI + 'clone', props=P_, alloc=True, requires=lambda C: bordered(C, fcells(C, C.this(), C.pre.heap)), ensures=clone)
