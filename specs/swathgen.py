"""Swath generation: parallel lines across the cell at a given angle, cut with the cell; search for the best angle."""
import z3
from f2cv.contract import Contract
from f2cv.values import *
from f2cv.values import sort_of
from f2cv.sp import *
from f2cv import models as M
from f2cv import geo
from f2cv.engine import Unsupported

SG = 'f2c::sg::'
TY = 'f2c::types::'
RV = z3.RealVal


def xyz(p):
    return p.f['x'].z, p.f['y'].z, p.f['z'].z


def sin(E, x):
    return M.trig(E, 'sin', x)


def PI(E):
    p = E.pi()
    return p.z if hasattr(p, 'z') else p


def cos(E, x):
    return M.trig(E, 'cos', x)


def rot(E, c, a, p):
    """coordinates of p turned by the angle a around c"""
    cx, cy, _ = xyz(c)
    px, py, _ = xyz(p)
    s, k = sin(E, a), cos(E, a)
    return ((px - cx) * k - (py - cy) * s + cx, (px - cx) * s + (py - cy) * k + cy, RV(0))


def is_pt(p, q):
    return And([u == v for u, v in zip(xyz(p), q)])


DEFROT = 'rotateFromPointEdRKS1_'


def R1(E):
    """RotX/RotY: the coordinates of a turned point, as named functions of the centre, the angle and the point (definition by axiom)"""
    s = z3.RealSort()
    fx, fy = z3.Function('RotX', s, s, s, s, s, s), z3.Function('RotY', s, s, s, s, s, s)

    def ax():
        cx, cy, a, x, y = [z3.Real('rt_' + n) for n in ('cx', 'cy', 'a', 'x', 'y')]
        S, K = sin(E, a), cos(E, a)
        return [z3.ForAll([cx, cy, a, x, y], fx(cx, cy, a, x, y) == (x - cx) * K - (y - cy) * S + cx, patterns=[fx(cx, cy, a, x, y)]),
                z3.ForAll([cx, cy, a, x, y], fy(cx, cy, a, x, y) == (x - cx) * S + (y - cy) * K + cy, patterns=[fy(cx, cy, a, x, y)])]
    if E.entry is not None and E.entry.con.inst == DEFROT:      # unfolded only where a single point is turned
        E.axiom('rot1', ax)
    return fx, fy


def rot_seq(C, E, c, a, A, B):
    """B is the point sequence A turned"""
    fx, fy = R1(E)
    cx, cy, _ = xyz(c)
    return And(A.n == B.n, fa(B, lambda i, p: And(p.f['x'].z == fx(cx, cy, a, at(A, i).f['x'].z, at(A, i).f['y'].z),
                                                   p.f['y'].z == fy(cx, cy, a, at(A, i).f['x'].z, at(A, i).f['y'].z), p.f['z'].z == 0)))


Contract(TY + 'Point::rotateFromPoint', sig='(double, const Point &) const', inst=DEFROT, props=['C06', 'C12'], ensures=lambda C: [
    ('the point turned around this one', (lambda q, fx, fy: And(q.f['x'].z == fx(C.this().f['x'].z, C.this().f['y'].z, C.arg(0).z, C.arg(1).f['x'].z, C.arg(1).f['y'].z),
                                                                q.f['y'].z == fy(C.this().f['x'].z, C.this().f['y'].z, C.arg(0).z, C.arg(1).f['x'].z, C.arg(1).f['y'].z),
                                                                q.f['z'].z == 0))(C.res, *R1(C.E)))])
Contract(TY + 'Point::getPointFromAngle', props=['C06', 'C12'], ensures=lambda C: [
    ('at the given distance in the given direction', And(C.res.f['x'].z == C.this().f['x'].z + C.arg(1).z * cos(C.E, C.arg(0).z),
                                                         C.res.f['y'].z == C.this().f['y'].z + C.arg(1).z * sin(C.E, C.arg(0).z), C.res.f['z'].z == 0))])


# ---------------------------------------------------------------- turning whole geometries
def ptseqs(L):
    """geometry locals made of points"""
    return L.places(lambda x: isinstance(x, Rec) and x.t.name in GEO_PTS)


def gpts(L, st, l):
    return pts_of(st.heap['pts'], L.at(st, l).f['data_'].z)


def inv_rot_line(L):
    C = L.E.entry
    if not C.con.name.endswith('rotateFromPoint') or L.idx is None:
        return []
    out = []
    fx, fy = R1(L.E)
    cx, cy, _ = xyz(C.this())
    A = pts_of(C.heap('pts'), C.arg(1).f['data_'].z) if C.arg(1).t.name in GEO_PTS else None
    if A is not None:
        for l, v in ptseqs(L):
            def f(st, l=l):
                B = gpts(L, st, l)
                k = L.z(st, L.idx)
                return And(B.n == k, fa(B, lambda i, p: And(p.f['x'].z == fx(cx, cy, C.arg(0).z, at(A, i).f['x'].z, at(A, i).f['y'].z),
                                                             p.f['y'].z == fy(cx, cy, C.arg(0).z, at(A, i).f['x'].z, at(A, i).f['y'].z), p.f['z'].z == 0), 0, k))
            out.append(('the points visited so far are turned', f))
            out.append(('the result stays the same object', lambda st, l=l, v=v: L.at(st, l).f['data_'].z == v.f['data_'].z))
    else:
        for l, v in L.places(lambda x: isinstance(x, Rec) and x.t.name == 'Cell'):
            a0 = L.entry.alloc

            def g(st, l=l):
                K = kids_of(st.heap['kids'], L.at(st, l).f['data_'].z)
                k = L.z(st, L.idx)
                A = kids_of(C.heap('kids'), C.arg(1).f['data_'].z)
                return And(K.n == k, fa(K, lambda i, r: And(r.z >= a0, r.z < st.alloc, rot_ring(C, C.this(), C.arg(0).z, pts_of(C.heap('pts'), A.arr[i]), pts_of(st.heap['pts'], r.z))), 0, k))
            out.append(('the rings visited so far are turned', g))
            out.append(('the result stays the same object', lambda st, l=l, v=v: L.at(st, l).f['data_'].z == v.f['data_'].z))
    return out


def rot_ring(C, c, a, A, B):
    """B is the ring A turned, closed by its first point in case it was open"""
    fx, fy = R1(C.E)
    cx, cy, _ = xyz(c)
    return And(B.n >= A.n, B.n <= A.n + 1, fa(A, lambda i, p: And(at(B, i).f['x'].z == fx(cx, cy, a, p.f['x'].z, p.f['y'].z), at(B, i).f['y'].z == fy(cx, cy, a, p.f['x'].z, p.f['y'].z), at(B, i).f['z'].z == 0),
               pats=lambda i: [A.arr[i], B.arr[i]]),
               Implies(B.n > A.n, And(A.n > 0, B.arr[A.n] == B.arr[0])),
               Implies(And(A.n > 0, A.arr[0] == A.arr[A.n - 1]), B.n == A.n))


for nm in ('LineString', 'LinearRing'):
    Contract(TY + 'Point::rotateFromPoint', sig='(double, const f2c::types::%s &) const' % nm, props=['C06', 'C12'], alloc=True, invariants=[inv_rot_line], ensures=lambda C: [
        ('every point turned around this one', rot_seq(C, C.E, C.this(), C.arg(0).z, pts_of(C.heap('pts'), C.arg(1).f['data_'].z), pts_of(C.heap_post('pts'), C.res.f['data_'].z))),
        ('in an object of its own', And(C.res.f['data_'].z >= C.pre.alloc, C.res.f['data_'].z < C.post.alloc))])
Contract(TY + 'Point::rotateFromPoint', sig='(double, const f2c::types::Cell &) const', props=['C06', 'C12'], alloc=True, invariants=[inv_rot_line],
         requires=lambda C: [('no ring without points', full_rings(geo.cont(C.E, C.arg(1), C.pre.heap)))], ensures=lambda C: [
    ('every ring turned around this point', rings_turned(C, C.this(), C.arg(0).z, kids_of(C.heap('kids'), C.arg(1).f['data_'].z), C.heap('pts'), kids_of(C.heap_post('kids'), C.res.f['data_'].z), C.heap_post('pts'))),
    ('in an object of its own', And(C.res.f['data_'].z >= C.pre.alloc, C.res.f['data_'].z < C.post.alloc))])


def full_rings(c):
    """every ring of a cell has points"""
    return fa(unpack(geo.CONT2, c), lambda i, r: r.n > 0)


def rings_turned(C, c, a, A, hA, B, hB):
    return And(A.n == B.n, fa(B, lambda i, r: rot_ring(C, c, a, pts_of(hA, A.arr[i]), pts_of(hB, r.z))))


def inv_shift(L):
    C = L.E.entry
    if not C.con.name.endswith('operator+') or L.idx is None:
        return []
    A = pts_of(C.heap('pts'), C.arg(0).f['data_'].z)
    out = []
    for l, v in ptseqs(L):
        def f(st, l=l):
            B = gpts(L, st, l)
            k = L.z(st, L.idx)
            return And(B.n == k, fa(B, lambda i, p: is_shift(p, at(A, i), C.arg(1)), 0, k))
        out.append(('the points visited so far are moved', f))
        out.append(('the result stays the same object', lambda st, l=l, v=v: L.at(st, l).f['data_'].z == v.f['data_'].z))
    return out


def is_shift(p, q, d):
    return And([p.f[k].z == q.f[k].z + d.f[k].z for k in 'xyz'])


Contract(TY + 'operator+', sig='(const f2c::types::LineString &, const f2c::types::Point &)', props=['C06'], alloc=True, invariants=[inv_shift], ensures=lambda C: [
    ('every point moved', (lambda A, B: And(A.n == B.n, fa(B, lambda i, p: is_shift(p, at(A, i), C.arg(1)))))(pts_of(C.heap('pts'), C.arg(0).f['data_'].z), pts_of(C.heap_post('pts'), C.res.f['data_'].z))),
    ('in an object of its own', And(C.res.f['data_'].z >= C.pre.alloc, C.res.f['data_'].z < C.post.alloc))])


# ---------------------------------------------------------------- lines across the cell and their parts inside
def env(C, c):
    return {k: geo.envelope(C.E, c, k) for k in ('MinX', 'MaxX', 'MinY', 'MaxY')}


def long_line(C, P, p, a, size):
    """P: two points at distance size from p, against and along the angle a"""
    E = C.E
    pi = PI(E)
    x, y = p
    q = lambda ang: (x + size * cos(E, ang), y + size * sin(E, ang), RV(0))
    return And(P.n == 2, is_pt(at(P, 0), q(pi + a)), is_pt(at(P, 1), q(a)))


Contract(TY + 'Cell::createStraightLongLine', props=['C06'], alloc=True, ensures=lambda C: [
    ('a line through the point, longer than the cell on both sides', (lambda e: long_line(C, pts_of(C.heap_post('pts'), C.res.f['data_'].z), xyz(C.arg(0))[:2], C.arg(1).z,
     (e['MaxX'] - e['MinX']) + (e['MaxY'] - e['MinY'])))(env(C, geo.cont(C.E, C.this(), C.pre.heap)))),
    ('in an object of its own', And(C.res.f['data_'].z >= C.pre.alloc, C.res.f['data_'].z < C.post.alloc))])

Contract(TY + 'MultiLineString::linesInside', props=[], alloc=True, trusted='GEOS intersection: the result is a function of the contents of the two geometries', ensures=lambda C: [
    ('the parts of the lines inside the area', geo.cont(C.E, C.res, C.post.heap) == parts(C, geo.cont(C.E, C.arg(0), C.pre.heap), geo.cont(C.E, C.arg(1), C.pre.heap))),
    ('new objects', new_tree(C, C.res))])


def parts(C, lines, area):
    r = geo.op(C.E, 'PartsInside_%s_%s' % (lines.sort(), area.sort()), geo.CONT2, lines, area)

    def ax():
        a, b = z3.Const('pi_a', lines.sort()), z3.Const('pi_b', area.sort())
        x = geo.op(C.E, 'PartsInside_%s_%s' % (lines.sort(), area.sort()), geo.CONT2, a, b)
        n = unpack(geo.CONT2, x).n
        return [z3.ForAll([a, b], And(n >= 0, n < (1 << 31) - 1), patterns=[x])]
    M._mark(C.E, 'a collection of lines has fewer than 2^31 - 1 members')
    C.E.axiom('parts_%s_%s' % (lines.sort(), area.sort()), ax)
    return r


def new_tree(C, g):
    """a collection of lines created by the call, members distinct"""
    K = kids_of(C.heap_post('kids'), g.f['data_'].z)
    i, j = qi('i'), qi('j')
    return And(g.f['data_'].z >= C.pre.alloc, g.f['data_'].z < C.post.alloc, fa(K, lambda i, r: And(r.z >= C.pre.alloc, r.z < C.post.alloc)),
               z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < K.n), K.arr[i] != K.arr[j]), patterns=[z3.MultiPattern(K.arr[i], K.arr[j])]))


for cl in ('Cell', 'Cells'):
    for ln in ('LineString', 'MultiLineString'):
        Contract(TY + cl + '::getLinesInside', sig='(const %s &)' % ln, props=['C06'], alloc=True, ensures=lambda C: [
            ('the parts of the given lines inside this cell', geo.cont(C.E, C.res, C.post.heap) == parts(C, geo.cont(C.E, C.arg(0), C.pre.heap), geo.cont(C.E, C.this(), C.pre.heap))),
            ('new objects', new_tree(C, C.res))])


# ---------------------------------------------------------------- appending swaths
def sdata(v):
    return v.f['data_']


def spath(s):
    return s.f['path_'].f['data_'].z


def appended(C, a, b, hb, lines, hl, width, type_, upto=None, ref_lo=None):
    """b is a followed by one swath per line: numbered by position, of the given width and type, with the points of the line in an object of its own"""
    n = lines.n if upto is None else upto
    lo = C.pre.alloc if ref_lo is None else ref_lo
    return And(b.n == a.n + n, fa(a, lambda i, s: b.arr[i] == a.arr[i], pats=lambda i: [b.arr[i]]),
               fa(b, lambda i, s: And(s.f['id_'].z == i, s.f['width_'].z == width, s.f['type_'].z == type_, s.f['creation_dir_'].z, spath(s) >= lo,
                                      hb[spath(s)] == hl(lines, i - a.n)), a.n, a.n + n))


def inv_append(L):
    C = L.E.entry
    if not C.con.name.endswith('Swaths::append') or L.idx is None:
        return []
    out = []
    K = kids_of(C.heap('kids'), C.arg(0).f['data_'].z)
    a = sdata(C.this())
    for l, v in L.vecs('Swath', True):
        out.append(('lines visited so far appended', lambda st, l=l: And(
            appended(C, a, L.at(st, l), st.heap['pts'], K, lambda K, i: C.heap('pts')[K.arr[i]], C.arg(1).z, C.arg(2).z, L.z(st, L.idx)),
            fa(L.at(st, l), lambda i, s: spath(s) < st.alloc, a.n))))
    return out


def app_pre(C, k=None):
    w = C.arg(len(C.locs) - 2).z
    return [('the width is positive', w > 0), ('ids fit an int', sdata(C.this()).n + 0 < (1 << 31) - 1)]


def one_line(C):
    a, b = sdata(C.this()), sdata(C.this_post())
    s = at(b, a.n)
    return [('the swaths so far stay', And(b.n == a.n + 1, fa(a, lambda i, s: b.arr[i] == a.arr[i], pats=lambda i: [b.arr[i]]))),
            ('the new one is numbered by position and has the given line, width and type', And(
                s.f['id_'].z == a.n, s.f['width_'].z == C.arg(1).z, s.f['type_'].z == C.arg(2).z, s.f['creation_dir_'].z, spath(s) == C.arg(0).f['data_'].z))]


Contract(TY + 'Swaths::append', sig='(const LineString &, double, SwathType)', props=['C06'], requires=app_pre, modifies=lambda C: [C.obj], ensures=one_line)
Contract(TY + 'Swaths::append', sig='(const MultiLineString &, double, SwathType)', props=['C06'], alloc=True, modifies=lambda C: [C.obj], invariants=[inv_append],
         requires=lambda C: app_pre(C) + [('ids fit an int', sdata(C.this()).n + kids_of(C.heap('kids'), C.arg(0).f['data_'].z).n < (1 << 31) - 1)],
         ensures=lambda C: [('one swath per line is appended', appended(C, sdata(C.this()), sdata(C.this_post()), C.heap_post('pts'), kids_of(C.heap('kids'), C.arg(0).f['data_'].z),
                                                                     lambda K, i: C.heap('pts')[K.arr[i]], C.arg(1).z, C.arg(2).z))])


def cut_ens(C):
    P = unpack(geo.CONT2, parts(C, geo.cont(C.E, C.arg(0), C.pre.heap), geo.cont(C.E, C.arg(1), C.pre.heap)))
    return [('one swath per part of the lines inside the cell is appended', appended(C, sdata(C.this()), sdata(C.this_post()), C.heap_post('pts'), P, lambda P, i: P.arr[i], C.arg(2).z, C.arg(3).z))]


for ln in ('LineString', 'MultiLineString'):
    for cl in ('Cell', 'Cells'):
        Contract(TY + 'Swaths::append', sig='(const %s &, const %s &, double, SwathType)' % (ln, cl), props=['C06'], alloc=True, modifies=lambda C: [C.obj],
                 requires=lambda C: app_pre(C) + [('ids fit an int', sdata(C.this()).n + unpack(geo.CONT2, parts(C, geo.cont(C.E, C.arg(0), C.pre.heap), geo.cont(C.E, C.arg(1), C.pre.heap))).n < (1 << 31) - 1)],
                 ensures=cut_ens)


# ---------------------------------------------------------------- the swaths of a cell at an angle
SWC = T('vec', None, (T('rec', 'SwathContent'),))


def swcont(C, v, heap):
    """ids, widths, types, directions and points of a collection of swaths, as a value"""
    E = C.E
    s = sort_of(v.t)
    f = z3.Function('SwathsContent', s, geo.HP, z3.DeclareSort('SwathsContent_'))

    def ax():
        a, b = z3.Const('sc_a', s), z3.Const('sc_b', s)
        g, h = z3.Const('sc_g', geo.HP), z3.Const('sc_h', geo.HP)
        A = unpack(v.t, a)
        D = z3.Function('SwathsContentDiff', s, geo.HP, geo.HP, z3.IntSort())
        d = D(a, g, h)
        # the content depends on the heap only through the paths of the swaths
        return [z3.ForAll([a, g, h], Or(f(a, g) == f(a, h), And(0 <= d, d < A.n, g[spath(at(A, d))] != h[spath(at(A, d))])), patterns=[z3.MultiPattern(f(a, g), f(a, h))])]
    E.axiom('swcont', ax)
    return f(pack(v), heap['pts'])


def generated(C, angle, w, overlap, cell, S, heap):
    """named relation: S holds the swaths of the cell at the angle (defined by the postcondition of generateSwaths(angle, width, cell))"""
    x = swcont(C, S, heap)
    f = z3.Function('GeneratedSwaths', z3.RealSort(), z3.RealSort(), z3.BoolSort(), sort_of(geo.CONT2), x.sort(), z3.BoolSort())
    return f(angle, w, overlap, cell, x)


def HT(E, w, n):
    """(n - 1/2) widths"""
    f = z3.Function('HeightOfLine', z3.RealSort(), z3.IntSort(), z3.RealSort())

    def ax():
        v, i = z3.Real('ht_w'), z3.Int('ht_i')
        return [z3.ForAll([v, i], f(v, i) == (z3.ToReal(i) - RV('1/2')) * v, patterns=[f(v, i)])]
    E.axiom('height', ax)
    return f(w, n)


def crossing_p(E, P, S, k, angle, w):
    """line k: the seed line S moved up by (k + 1/2) widths and turned back"""
    fx, fy = R1(E)
    z0 = RV(0)
    y = HT(E, w, k + 1)

    def one(p, q):
        return And(p.f['x'].z == fx(z0, z0, angle, q.f['x'].z, q.f['y'].z + y), p.f['y'].z == fy(z0, z0, angle, q.f['x'].z, q.f['y'].z + y), p.f['z'].z == 0)
    return And(P.n == 2, one(at(P, 0), at(S, 0)), one(at(P, 1), at(S, 1)))


def seed_pts(c):
    return pts_of(c.heap_post('pts'), c.res.f['data_'].z)


def overl(C):
    return C.this().f['allow_overlap'].z


def rotated_call(C):
    cs = [c for c in C.calls('f2c::types::Point::rotateFromPoint') if c.arg(1).t.name == 'Cell']
    return cs[0] if cs else None


def gen_ens(C):
    S = sdata(C.res)
    angle, w, ov = C.arg(0).z, C.arg(1).z, overl(C)
    cell = geo.cont(C.E, C.arg(2), C.pre.heap)
    name = [('these are the swaths of the cell at this angle', generated(C, angle, w, ov, cell, S, C.post.heap)),
            ('in objects of their own', And(S.n >= 0, fa(S, lambda i, s: And(spath(s) >= C.pre.alloc, spath(s) < C.post.alloc))))]
    if C is not C.E.entry:
        return name
    E = C.E
    rc_ = rotated_call(C)
    ap = [c for c in C.calls('f2c::types::Swaths::append')]
    sl = C.calls('f2c::types::Cell::createStraightLongLine')
    if rc_ is None or len(sl) != 1 or len(ap) != 1 or not isinstance(ap[0].arg(0), Rec):
        raise Unsupported('the calls that build the lines are not recognised')
    rc = geo.cont(E, rc_.res, rc_.post.heap)
    x = {k: geo.envelope(E, rc, k) for k in ('MinX', 'MaxX', 'MinY', 'MaxY')}
    H = x['MaxY'] - x['MinY']
    size = (x['MaxX'] - x['MinX']) + H
    seed = seed_pts(sl[0])
    lc = geo.cont(E, ap[0].arg(0), ap[0].pre.heap)
    LC, hp = kids_of(ap[0].heap('kids'), ap[0].arg(0).f['data_'].z), ap[0].heap('pts')
    thr = lambda n: HT(E, w, n) + If(ov, RV(0), w / 2)
    Pt = unpack(geo.CONT2, parts(C, lc, cell))
    origin = rc_.this()
    return [
        ('the cell is turned by the opposite angle around the origin', And(xyz(origin)[0] == 0, xyz(origin)[1] == 0, rc_.arg(0).z == -angle, geo.cont(E, rc_.arg(1), rc_.pre.heap) == cell)),
        ('the seed line starts at the lower left corner of the turned cell and is longer than it', And(long_line(C, seed, (x['MinX'], x['MinY']), RV(0), size))),
        ('line k is the one at (k + 1/2) widths above the lowest point of the turned cell', fa(LC, lambda k, r: crossing_p(E, pts_of(hp, r.z), seed, k, angle, w))),
        ('there are lines as long as they start inside the turned cell', fai(0, LC.n, lambda k: H > thr(k), pats=lambda k: [HT(E, w, k)])),
        ('no line is missing at the far end', And(LC.n >= 0, Not(H > thr(LC.n)))),
        ('one swath per part of these lines inside the cell, numbered, with the given width, on the mainland', And(
            S.n == Pt.n, fa(S, lambda i, s: And(s.f['id_'].z == i, s.f['width_'].z == w, s.f['type_'].z == 0, s.f['creation_dir_'].z,
                                                C.heap_post('pts')[spath(s)] == Pt.arr[i])))),
        name[1]]


def inv_lines(L):
    C = L.E.entry
    if not C.con.name.endswith('SwathGeneratorBase::generateSwaths') or L.idx is not None:
        return []
    E = L.E
    angle, w = C.arg(0).z, C.arg(1).z
    out = []
    rc_ = [c for n, c in L.entry.log if n == 'f2c::types::Point::rotateFromPoint' and c.arg(1).t.name == 'Cell']
    sl = [c for n, c in L.entry.log if n == 'f2c::types::Cell::createStraightLongLine']
    if len(rc_) != 1 or len(sl) != 1:
        return []
    seed = seed_pts(sl[0])
    rc = geo.cont(E, rc_[0].res, rc_[0].post.heap)
    x = {k: geo.envelope(E, rc, k) for k in ('MinX', 'MaxX', 'MinY', 'MaxY')}
    H = x['MaxY'] - x['MinY']
    ov = overl(C)
    thr = lambda n: HT(E, w, n) + If(ov, RV(0), w / 2)
    ys = L.reals()
    for l, v in L.places(lambda x: isinstance(x, Rec) and x.t.name == 'MultiLineString'):
        a0 = L.entry.alloc

        def K(st, l=l):
            return kids_of(st.heap['kids'], L.at(st, l).f['data_'].z)

        def LCs(st, l=l):
            return unpack(geo.CONT2, geo.content(E, 'MultiLineString', L.at(st, l).f['data_'].z, st.heap))
        out.append(('the result stays the same object', lambda st, l=l, v=v: L.at(st, l).f['data_'].z == v.f['data_'].z))
        for r, rv in ys:
            out.append(('the height follows the number of lines', lambda st, K=K, r=r: L.z(st, r) == HT(E, w, K(st).n)))
        out.append(('lines so far are new objects', lambda st, K=K: fa(K(st), lambda i, k: And(k.z >= a0, k.z < st.alloc))))

        def lines(st, K=K):
            k_ = K(st)

            return fa(k_, lambda i, k: crossing_p(E, pts_of(st.heap['pts'], k.z), seed, i, angle, w))
        out.append(('line k is at (k + 1/2) widths', lines))
        out.append(('lines so far start inside', lambda st, K=K: And(K(st).n >= 0, fai(0, K(st).n, lambda i: H > thr(i), pats=lambda i: [HT(E, w, i)]))))
    return out


def HT(E, w, n):
    """(n - 1/2) widths"""
    f = z3.Function('HeightOfLine', z3.RealSort(), z3.IntSort(), z3.RealSort())

    def ax():
        v, i = z3.Real('ht_w'), z3.Int('ht_i')
        return [z3.ForAll([v, i], f(v, i) == (z3.ToReal(i) - RV('1/2')) * v, patterns=[f(v, i)])]
    E.axiom('height', ax)
    return f(w, n)


Contract(SG + 'SwathGeneratorBase::generateSwaths', sig='(double, double, const F2CCell &)', props=['C06'], alloc=True, invariants=[inv_lines],
         requires=lambda C: [('the width is positive', C.arg(1).z > 0), ('no ring without points', full_rings(geo.cont(C.E, C.arg(2), C.pre.heap)))],
         ensures=gen_ens)


# ---------------------------------------------------------------- several cells, best angle
def cells_of(C, k):
    return unpack(geo.CONT3, geo.cont(C.E, C.arg(k), C.pre.heap))


def per_cell_pre(C):
    return [('the width is positive', C.arg(1).z > 0), ('no ring without points', fa(cells_of(C, 2), lambda i, c: full_rings(pack(c))))]


def by_cell(v):
    return v.f['data_'] if 'data_' in v.f else list(v.f.values())[0]


def own(C, S, st, a0):
    return fa(S, lambda i, s: And(spath(s) >= a0, spath(s) < st.alloc))


def each_cell(C, R, K, st, rel, n):
    return And(R.n == n, fa(R, lambda i, s: And(rel(K.arr[i], sdata(s), st.heap), sdata(s).n >= 0, own(C, sdata(s), st, C.pre.alloc)), 0, n))


def rel_angle(C):
    return lambda c, S, heap: generated(C, C.arg(0).z, C.arg(1).z, overl(C), c, S, heap)


def inv_cells(L):
    C = L.E.entry
    if not (C.con.name.startswith(SG) and C.con.name.endswith('Swaths')) or L.idx is None or C.arg(2).t.name != 'Cells':
        return []
    rel = (rel_angle if C.con.name.endswith('generateSwaths') else rel_best)(C)
    K = cells_of(C, 2)
    out = []
    for l, v in L.vecs('Swaths', True):
        out.append(('the cells visited so far have their swaths', lambda st, l=l: each_cell(C, L.at(st, l), K, st, rel, L.z(st, L.idx))))
    return out


Contract(SG + 'SwathGeneratorBase::generateSwaths', sig='(double, double, const F2CCells &)', props=['C06'], alloc=True, invariants=[inv_cells], requires=per_cell_pre, ensures=lambda C: [
    ('one collection per cell, in order, each with the swaths of its cell', each_cell(C, by_cell(C.res), cells_of(C, 2), C.post, rel_angle(C), cells_of(C, 2).n))])


# an objective is any class derived from SGObjective: its costs are functions of what they are given
def obj_cost(C, kind, *args):
    M._mark(C.E, 'an objective answers with a function of its arguments (no state, no randomness), the swath generator likewise')
    return geo.op(C.E, 'Objective_' + kind, z3.BoolSort() if kind in ('fast', 'min') else z3.RealSort(), *args) if args else z3.Bool('Objective_' + kind) if kind in ('fast', 'min') else None


OB = 'f2c::obj::'
ANYOBJ = 'interface of the objectives: any override may be behind it'
Contract(OB + 'SGObjective::isFastCompAvailable', props=[], trusted=ANYOBJ, ensures=lambda C: [('its answer', C.res.z == obj_cost(C, 'fast'))])
Contract(OB + 'BaseObjective::isMinimizing', props=[], trusted=ANYOBJ, ensures=lambda C: [('its answer', C.res.z == obj_cost(C, 'min'))])
Contract(OB + 'SGObjective::computeCost', sig='(double, double, const F2CCell &)', props=[], trusted=ANYOBJ, ensures=lambda C: [
    ('its answer', C.res.z == obj_cost(C, 'angle', C.arg(0).z, C.arg(1).z, geo.cont(C.E, C.arg(2), C.pre.heap)))])
Contract(OB + 'SGObjective::computeCost', sig='(const F2CCell &, const F2CSwaths &)', props=[], trusted=ANYOBJ, ensures=lambda C: [
    ('its answer', C.res.z == obj_cost(C, 'swaths', geo.cont(C.E, C.arg(0), C.pre.heap), swcont(C, sdata(C.arg(1)), C.pre.heap)))])


def one_cell_pre(k):
    return lambda C: [('the width is positive', C.arg(k - 1).z > 0), ('no ring without points', full_rings(geo.cont(C.E, C.arg(k), C.pre.heap)))]


def cost_of(C, ang, w, cell):
    return obj_cost(C, 'at_angle', overl(C), ang, w, cell)


def cost_ens(C):
    cell = geo.cont(C.E, C.arg(3), C.pre.heap)
    if C is not C.E.entry:
        return [('the cost of this angle', C.res.z == cost_of(C, C.arg(1).z, C.arg(2).z, cell))]
    sign = If(obj_cost(C, 'min'), RV(1), RV(-1))
    fast = obj_cost(C, 'fast')
    out = [('the cost known for the angle, negated when the objective is to be maximised', Implies(fast, C.res.z == sign * obj_cost(C, 'angle', C.arg(1).z, C.arg(2).z, cell)))]
    gs = C.calls(SG + 'SwathGeneratorBase::generateSwaths')
    if len(gs) > 1:
        raise Unsupported('the call that makes the swaths is not recognised')
    ok = z3.BoolVal(False)
    if gs:
        x = swcont(C, sdata(gs[0].res), gs[0].post.heap)
        out.append(('the swaths judged are those of the cell at this angle', generated(C, C.arg(1).z, C.arg(2).z, overl(C), cell, sdata(gs[0].res), gs[0].post.heap)))
        ok = C.res.z == sign * obj_cost(C, 'swaths', cell, x)
    out.append(('otherwise the cost of the swaths made at this angle, negated when the objective is to be maximised', Or(fast, ok)))
    return out


Contract(SG + 'SwathGeneratorBase::computeCostOfAngle', props=['C07'], alloc=True, requires=one_cell_pre(3), ensures=cost_ens)


def best_ens(C):
    E = C.E
    w, cell = C.arg(1).z, geo.cont(E, C.arg(2), C.pre.heap)
    if C is not E.entry:
        return [('the best angle', C.res.z == obj_cost(C, 'best_angle', overl(C), w, cell))]
    step = C.this().f['step_angle'].z
    j = qi('j')
    cost = lambda k: cost_of(C, ANG(E, step, k), w, cell)
    x = 2 * PI(E) / step
    ks = C.calls('extremum')
    if len(ks) != 1:
        raise Unsupported('the search for the least cost is not recognised')
    k = ks[0]
    return [('the result is one of the angles i * step', C.res.z == ANG(E, step, k)),
            ('it lies below 2 pi', And(0 <= k, z3.ToReal(k) + 1 <= x)),
            ('no angle i * step below 2 pi costs less', z3.ForAll([j], Implies(And(0 <= j, z3.ToReal(j) + 1 <= x), cost(j) >= cost(k)), patterns=[cost(j)])),
            ('no earlier one costs the same', z3.ForAll([j], Implies(And(0 <= j, j < k), cost(j) > cost(k)), patterns=[cost(j)]))]


def ANG(E, step, k):
    f = z3.Function('StepAngle', z3.RealSort(), z3.IntSort(), z3.RealSort())

    def ax():
        v, i = z3.Real('sa_w'), z3.Int('sa_i')
        return [z3.ForAll([v, i], f(v, i) == z3.ToReal(i) * v, patterns=[f(v, i)])]
    E.axiom('stepangle', ax)
    return f(step, k)


def inv_angles(L):
    C = L.E.entry
    if not C.con.name.endswith('computeBestAngle'):
        return []
    step, w, cell = C.this().f['step_angle'].z, C.arg(1).z, geo.cont(L.E, C.arg(2), C.pre.heap)
    out = []
    for _, c, _0 in L.counters():
        for l, v in L.vecs('int', True):
            out.append(('indices so far', lambda st, l=l, c=c: fa(L.at(st, l), lambda i, x: x.z == i, 0, c(st))))
        for l, v in L.vecs('real', True):
            out.append(('costs so far', lambda st, l=l, c=c: fa(L.at(st, l), lambda i, x: x.z == cost_of(C, ANG(L.E, step, i), w, cell), 0, c(st), pats=lambda i: [L.at(st, l).arr[i], ANG(L.E, step, i)])))
    return out


Contract(SG + 'BruteForce::computeBestAngle', props=['C07'], alloc=True,
         requires=lambda C: one_cell_pre(2)(C) + [('at least one angle, and fewer than 2^31', And(C.this().f['step_angle'].z > 0, 2 * PI(C.E) / C.this().f['step_angle'].z >= 1, 2 * PI(C.E) / C.this().f['step_angle'].z < (1 << 31) - 1))],
         ensures=best_ens, invariants=[inv_angles])
Contract(SG + 'SwathGeneratorBase::computeBestAngle', props=[], alloc=True, trusted='pure virtual: any search for an angle', requires=one_cell_pre(2), ensures=lambda C: [
    ('the best angle', C.res.z == obj_cost(C, 'best_angle', overl(C), C.arg(1).z, geo.cont(C.E, C.arg(2), C.pre.heap)))])


def rel_best(C):
    return lambda c, S, heap: generated(C, obj_cost(C, 'best_angle', overl(C), C.arg(1).z, c), C.arg(1).z, overl(C), c, S, heap)


Contract(SG + 'SwathGeneratorBase::generateBestSwaths', sig='(f2c::obj::SGObjective &, double, const F2CCell &)', props=['C07'], alloc=True, requires=one_cell_pre(2), ensures=lambda C: [
    ('the swaths of the cell at the best angle', rel_best(C)(geo.cont(C.E, C.arg(2), C.pre.heap), sdata(C.res), C.post.heap)),
    ('in objects of their own', And(sdata(C.res).n >= 0, own(C, sdata(C.res), C.post, C.pre.alloc)))])
Contract(SG + 'SwathGeneratorBase::generateBestSwaths', sig='(f2c::obj::SGObjective &, double, const F2CCells &)', props=['C07'], alloc=True, invariants=[inv_cells], requires=per_cell_pre, ensures=lambda C: [
    ('one collection per cell, in order, each with the swaths of its cell at its best angle', each_cell(C, by_cell(C.res), cells_of(C, 2), C.post, rel_best(C), cells_of(C, 2).n))])
for g, fld in (('SwathGeneratorBase::getAllowOverlap', 'allow_overlap'), ('BruteForce::getStepAngle', 'step_angle')):
    Contract(SG + g, props=['C06', 'C07'], ensures=lambda C, fld=fld: [('the value kept', C.res.z == C.this().f[fld].z)])
for g, fld in (('SwathGeneratorBase::setAllowOverlap', 'allow_overlap'), ('BruteForce::setStepAngle', 'step_angle')):
    Contract(SG + g, props=['C06', 'C07'], modifies=lambda C: [C.obj], ensures=lambda C, fld=fld: [
        ('the value is kept, nothing else changes', And([C.this_post().f[k].z == (C.arg(0).z if k == fld else x.z) for k, x in C.this().f.items()]))])
