"""Route: groups of swaths and connections in travel order."""
import z3
from f2cv.contract import Contract
from f2cv.values import *
from f2cv.values import sort_of
from f2cv.sp import *
from f2cv import models as M
from specs.order import data, ref, TY
from specs.groups import pushed, joined, copy_of, SS
import specs.groups

P_ = ['C14']
RT = TY + 'Route::'
PV = sort_of(PTS)


def G(v):
    return v.f['v_swaths_']


def N(v):
    return v.f['connections_']


def mref(m):
    return m.f['data_'].z


def same_vec(a, b):
    return And(a.n == b.n, fa(b, lambda i, x: b.arr[i] == a.arr[i]))


def last_changed(a, b):
    """only the last member of b differs from a"""
    return And(a.n == b.n, fa(b, lambda i, x: b.arr[i] == a.arr[i], 0, a.n - 1))


def room(C):
    t = C.this()
    return [('there is room', G(t).n < (1 << 31) - 8), ('connections and groups alternate', alternate(t))]


def alternate(t):
    """class invariant: as many connections as groups of swaths, or one more at the end"""
    return And(G(t).n <= N(t).n, N(t).n <= G(t).n + 1)


def shape(C):
    return [('connections and groups keep alternating', alternate(C.this_post()))]


def new_empty(C, a, b):
    """b is a followed by an empty connection of its own"""
    m = mref(at(b, a.n))
    return And(b.n == a.n + 1, fa(b, lambda i, x: b.arr[i] == a.arr[i], 0, a.n), m >= C.pre.alloc, m < C.post.alloc, pts_of(C.heap_post('pts'), m).n == 0)


def first_connection(C):
    a, b = C.this(), C.this_post()
    return ('a connection before the first swath, otherwise the connections stay', If(N(a).n == 0, new_empty(C, N(a), N(b)), same_vec(N(a), N(b))))


def opens(C):
    """a new group begins after a connection"""
    a = C.this()
    return Or(If(N(a).n == 0, 1, N(a).n) > G(a).n, G(a).n == 0)


def add_swaths(C, i=0):
    a, b = G(C.this()), G(C.this_post())
    s = C.arg(i)
    last = data(at(a, a.n - 1))
    new = data(at(b, b.n - 1))
    return [('the swaths form a new group after a connection, otherwise they join the last group', If(
        opens(C), And(b.n == a.n + 1, b.arr[a.n] == pack(s), fa(b, lambda i, x: b.arr[i] == a.arr[i], 0, a.n)),
        And(last_changed(a, b), joined(last, new, data(s), data(s).n))))]


def add_swath(C):
    a, b = G(C.this()), G(C.this_post())
    s = pack(C.arg(0))
    new = data(at(b, b.n - 1))
    return [('the swath begins a new group after a connection, otherwise it joins the last group', If(
        opens(C), And(b.n == a.n + 1, new.n == 1, new.arr[0] == s, fa(b, lambda i, x: b.arr[i] == a.arr[i], 0, a.n)),
        And(last_changed(a, b), pushed(data(at(a, a.n - 1)), new, s))))]


def swaths_room(C, i=0):
    a = G(C.this())
    return room(C) + [('the swaths fit', And(fa(a, lambda k, g: data(g).n + data(C.arg(i)).n < (1 << 31) - 8)))]


Contract(RT + 'addSwaths', props=P_, alloc=True, modifies=lambda C: [C.obj], requires=swaths_room, ensures=lambda C: add_swaths(C) + [first_connection(C)] + shape(C))
Contract(RT + 'addSwath', sig='(const Swath &)', props=P_, alloc=True, modifies=lambda C: [C.obj],
         requires=lambda C: room(C) + [('the swaths fit', fa(G(C.this()), lambda k, g: data(g).n < (1 << 31) - 8))],
         ensures=lambda C: add_swath(C) + [first_connection(C)] + shape(C))


# ---------------------------------------------------------------- connections
def owned(C):
    """connections are distinct objects (they are created by the route) and not those of the argument"""
    v = N(C.this())
    i, j = qi('i'), qi('j')
    return [('connections are distinct objects', z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < v.n), mref(at(v, i)) != mref(at(v, j))), patterns=[z3.MultiPattern(v.arr[i], v.arr[j])]))]


def target(C, st=None):
    """the connection that receives points: a new one when the last one is already followed by swaths"""
    b = N(C.this_post())
    return mref(at(b, b.n - 1))


def grows(C):
    a = C.this()
    return N(a).n <= G(a).n


def kept(C):
    a, b = C.this(), C.this_post()
    x = qi('x')
    t = target(C)
    return [('the groups of swaths stay', same_vec(G(a), G(b))),
            ('a new connection after swaths, otherwise the connections stay', If(grows(C), new_conn(C), same_vec(N(a), N(b)))),
            ('other geometries stay', z3.ForAll([x], Implies(And(x < C.pre.alloc, x != t), C.heap_post('pts')[x] == C.heap('pts')[x]), patterns=[C.heap_post('pts')[x]]))]


def new_conn(C):
    a, b = N(C.this()), N(C.this_post())
    m = mref(at(b, a.n))
    return And(b.n == a.n + 1, fa(b, lambda i, x: b.arr[i] == a.arr[i], 0, a.n), m >= C.pre.alloc, m < C.post.alloc)


def old_points(C):
    """points of the receiving connection before the call"""
    a = N(C.this())
    return pts_of(C.heap('pts'), mref(at(a, a.n - 1)))


def more_points(C, Q, n, st=None):
    """the receiving connection holds its old points followed by the first n of Q"""
    b = pts_of(C.heap_post('pts'), target(C))
    o = old_points(C)
    k = If(grows(C), 0, o.n)
    return And(b.n == k + n, fa(b, lambda i, x: b.arr[i] == If(i < k, o.arr[i], Q.arr[i - k])))


Contract(RT + 'addConnection', sig='()', props=P_, alloc=True, requires=room, modifies=lambda C: [C.obj],
         ensures=lambda C: [('the groups of swaths stay', same_vec(G(C.this()), G(C.this_post()))),
                            ('a new empty connection after swaths, otherwise the connections stay', If(grows(C), new_empty(C, N(C.this()), N(C.this_post())), same_vec(N(C.this()), N(C.this_post()))))] + shape(C))


def has_room_pts(C):
    x = qi('x')
    return [('connections fit', fa(N(C.this()), lambda i, m: pts_of(C.heap('pts'), mref(m)).n < (1 << 30)))]


def one(C):
    b = pts_of(C.heap_post('pts'), target(C))
    o = old_points(C)
    k = If(grows(C), 0, o.n)
    return [('the point is the last one of the receiving connection, behind its old points', And(
        b.n == k + 1, b.arr[k] == pack(C.arg(0)), fa(b, lambda i, x: b.arr[i] == o.arr[i], 0, k)))]


Contract(RT + 'addConnection', sig='(const Point &)', props=P_, alloc=True, modifies=lambda C: [C.obj, 'pts'],
         requires=lambda C: room(C) + owned(C) + has_room_pts(C),
         ensures=lambda C: one(C) + kept(C) + shape(C))


def given(C, i=0):
    v = C.arg(i)
    return v if isinstance(v, Vec) else pts_of(C.heap('pts'), mref(v))


class At(object):
    """the call context seen from a state inside the function (for loop invariants)"""

    def __init__(self, C, st, this):
        self.C, self.st, self._t = C, st, this

    def __getattr__(self, k):
        return getattr(self.C, k)

    @property
    def post(self):
        return self.st

    def this_post(self):
        return self._t

    def heap_post(self, k):
        return self.st.heap[k]


def inv_pts(L):
    C = L.E.entry
    if not C.con.name.endswith('addConnection'):
        return []
    Q = given(C)
    cs = [c for _, c, _0 in L.counters()] + ([lambda st: L.z(st, L.idx)] if L.idx is not None else [])
    out = []

    def view(st):
        return At(C, st, L.at(st, C.obj))
    out.append(('groups stay', lambda st: same_vec(G(C.this()), G(L.at(st, C.obj)))))
    out.append(('connections are distinct objects', lambda st: owned(ThisOnly(L.at(st, C.obj)))[0][1]))
    out.append(('sizes', lambda st: fa(N(L.at(st, C.obj)), lambda i, m: And(mref(m) >= 1, mref(m) < st.alloc))))
    n0, a0, h0 = N(L.at(L.entry, C.obj)), L.entry.alloc, L.entry.heap['pts']
    out.append(('the route alternates', lambda st: alternate(L.at(st, C.obj))))
    for c in cs:
        out.append(('nothing before the first point', lambda st, c=c: Implies(c(st) == 0, And(same_vec(n0, N(L.at(st, C.obj))), st.alloc == a0, st.heap['pts'] == h0))))
        out.append(('points visited so far', lambda st, c=c: Implies(c(st) > 0, And([g for l, g in kept(view(st))] + [more_points(view(st), Q, c(st))]))))
        out.append(('there is room', lambda st, c=c: Implies(c(st) > 0, N(L.at(st, C.obj)).n > G(C.this()).n)))
        out.append(('connections fit', lambda st, c=c: fa(N(L.at(st, C.obj)), lambda i, m: pts_of(st.heap['pts'], mref(m)).n < (1 << 29) + c(st))))
    return out


class ThisOnly(object):
    def __init__(self, t):
        self.t = t

    def this(self):
        return self.t


def many_ens(C):
    Q = given(C)
    return [('the points follow the old ones of the receiving connection, in order', more_points(C, Q, Q.n))] + kept(C) + shape(C)


def many_pre(C):
    out = room(C) + owned(C) + [('connections fit', And(given(C).n < (1 << 29), fa(N(C.this()), lambda i, m: pts_of(C.heap('pts'), mref(m)).n < (1 << 29)))),
                                ('connections exist', fa(N(C.this()), lambda i, m: And(mref(m) >= 1, mref(m) < C.pre.alloc)))]
    if not isinstance(C.arg(0), Vec):
        out.append(('the points are not those of a connection of the route', fa(N(C.this()), lambda i, m: mref(m) != mref(C.arg(0)))))
    return out


for s in ('(const MultiPoint &)', '(const std::vector<Point> &)'):
    Contract(RT + 'addConnection', sig=s, props=P_, alloc=True, modifies=lambda C: [C.obj, 'pts'], requires=many_pre, invariants=[inv_pts], ensures=many_ens)


# ---------------------------------------------------------------- ends, sizes, members
def swpts(C, s):
    return pts_of(C.heap('pts'), ref(s))


def cpts(C, m):
    return pts_of(C.heap('pts'), mref(m))


def none(C):
    p = C.res
    return And(p.f['x'].z == 0, p.f['y'].z == 0, p.f['z'].z == 0)


def start(C):
    t = C.this()
    c0, g0 = at(N(t), 0), at(G(t), 0)
    P, S = cpts(C, c0), data(g0)
    r = pack(C.res)
    return [('the first point of the first connection, else of the first swath, else the origin', If(
        And(N(t).n > 0, P.n > 0), r == P.arr[0], If(And(G(t).n > 0, S.n > 0), r == swpts(C, at(S, 0)).arr[0], none(C))))]


def end(C):
    t = C.this()
    P, S = cpts(C, at(N(t), N(t).n - 1)), data(at(G(t), G(t).n - 1))
    r = pack(C.res)
    lp = swpts(C, at(S, S.n - 1))
    return [('the last point of a final connection, else of the last swath, else the origin', If(
        And(N(t).n > G(t).n, P.n > 0), r == P.arr[P.n - 1], If(And(G(t).n > 0, S.n > 0), r == lp.arr[lp.n - 1], none(C))))]


def end_pts(C):
    g = G(C.this())
    s = data(at(g, g.n - 1))
    return [('the last swath has a point', Implies(And(g.n > 0, s.n > 0), swpts(C, at(s, s.n - 1)).n > 0))]


def start_pts(C):
    g = G(C.this())
    s = data(at(g, 0))
    return [('the first swath has a point', Implies(And(g.n > 0, s.n > 0), swpts(C, at(s, 0)).n > 0))]


Contract(RT + 'startPoint', props=P_, requires=start_pts, ensures=start)
Contract(RT + 'endPoint', props=P_, requires=end_pts, ensures=end)
Contract(RT + 'sizeVectorSwaths', props=P_, inline=True, ensures=lambda C: [('the number of groups', C.res.z == G(C.this()).n)])
Contract(RT + 'sizeConnections', props=P_, inline=True, ensures=lambda C: [('the number of connections', C.res.z == N(C.this()).n)])
Contract(RT + 'isEmpty', props=P_, inline=True, ensures=lambda C: [('neither swaths nor connections', C.res.z == And(G(C.this()).n == 0, N(C.this()).n == 0))])
inr = lambda f: lambda C: [('in range', C.arg(0).z < f(C.this()).n)]
Contract(RT + 'getSwaths', props=P_, inline=True, requires=inr(G), ret=lambda C: C.obj.fld('v_swaths_').idx(C.arg(0).z))
Contract(RT + 'getConnection', props=P_, inline=True, requires=inr(N), ret=lambda C: C.obj.fld('connections_').idx(C.arg(0).z))
Contract(RT + 'getLastSwaths', props=P_, inline=True, requires=lambda C: [('not empty', G(C.this()).n > 0)], ret=lambda C: C.obj.fld('v_swaths_').idx(G(C.this()).n - 1))
Contract(RT + 'getLastConnection', props=P_, inline=True, requires=lambda C: [('not empty', N(C.this()).n > 0)], ret=lambda C: C.obj.fld('connections_').idx(N(C.this()).n - 1))
Contract(RT + 'getVectorSwaths', props=P_, inline=True, ret=lambda C: C.obj.fld('v_swaths_'))
Contract(RT + 'getConnections', props=P_, inline=True, ret=lambda C: C.obj.fld('connections_'))


def only(f, g):
    def ens(C):
        a, b = f(C.this()), f(C.this_post())
        i = C.arg(0).z
        return [('the member at this position is the given one', b.arr[i] == pack(C.arg(1))),
                ('all other members stay', And(a.n == b.n, fa(b, lambda k, x: Implies(k != i, b.arr[k] == a.arr[k])), same_vec(g(C.this()), g(C.this_post()))))]
    return ens


Contract(RT + 'setSwaths', props=P_, inline=True, requires=inr(G), modifies=lambda C: [C.obj], ensures=only(G, N))
Contract(RT + 'setConnection', props=P_, inline=True, requires=inr(N), modifies=lambda C: [C.obj], ensures=only(N, G))


# ---------------------------------------------------------------- the route as a line
def snoc(v, x):
    return Vec(v.t, z3.Store(v.arr, v.n, x), v.n + 1)


def line_fold(C):
    """Pts(b, q, k): line b followed by the first k points of q;  Sw(b, s, k): by the points of the first k swaths of s;
    Rt(k): first connection, then for each of the first k groups its swaths and the connection after it"""
    E = C.E
    h = C.pre.heap['pts']
    t = C.this()
    g, n = G(t), N(t)
    I = z3.IntSort()
    sv = data(at(g, 0)).t
    Pts = z3.Function('LinePts', PV, PV, I, PV)
    Sw = z3.Function('LineSwaths', PV, sort_of(sv), I, PV)
    Rt_ = z3.Function('LineRoute', PV, I, PV)
    b, q, s, k = z3.Const('lf_b', PV), z3.Const('lf_q', PV), z3.Const('lf_s', sort_of(sv)), z3.Int('lf_k')
    B, Q, S = unpack(PTS, b), unpack(PTS, q), unpack(sv, s)
    path = lambda S, k: h[ref(at(S, k))]

    def conn(base, i):
        m = h[mref(at(n, i))]
        return If(i < n.n, Pts(base, m, unpack(PTS, m).n), base)

    def ax():
        P = Pts(b, q, k)
        pk = path(S, k)
        return [z3.ForAll([b, q], Pts(b, q, 0) == b, patterns=[Pts(b, q, 0)]),
                z3.ForAll([b, q, k], Implies(k >= 0, Pts(b, q, k + 1) == pack(snoc(unpack(PTS, P), Q.arr[k]))), patterns=[z3.MultiPattern(P, Q.arr[k])]),
                z3.ForAll([b, s], Sw(b, s, 0) == b, patterns=[Sw(b, s, 0)]),
                z3.ForAll([b, s, k], Implies(k >= 0, Sw(b, s, k + 1) == Pts(Sw(b, s, k), pk, unpack(PTS, pk).n)), patterns=[z3.MultiPattern(Sw(b, s, k), S.arr[k])]),
                z3.ForAll([b], Rt_(b, 0) == conn(b, z3.IntVal(0)), patterns=[Rt_(b, 0)]),
                z3.ForAll([b, k], Implies(k >= 0, Rt_(b, k + 1) == conn(Sw(Rt_(b, k), pack(data(at(g, k))), data(at(g, k)).n), k + 1)), patterns=[z3.MultiPattern(Rt_(b, k), g.arr[k])])]
    E.axiom('linefold', ax)
    return Pts, Sw, Rt_


def inv_line(L):
    C = L.E.entry
    if not C.con.name.endswith('asLineString'):
        return []
    E = L.E
    Pts, Sw, Rt_ = line_fold(C)
    t = C.this()
    g, n = G(t), N(t)
    h = C.pre.heap['pts']
    out = []
    cs = [(nm, c) for nm, c, _0 in L.counters()] + ([('idx', lambda st: L.z(st, L.idx))] if L.idx is not None else [])
    lines = L.places(lambda x: isinstance(x, Rec) and x.t.name == 'LineString')
    out.append(('geometries of the route stay', lambda st: (lambda x: z3.ForAll([x], Implies(x < C.pre.alloc, st.heap['pts'][x] == h[x]), patterns=[st.heap['pts'][x]]))(qi('x'))))
    Q = L.at(L.entry, L.cont) if L.idx is not None and L.cont is not None else None
    q = pack(Q) if isinstance(Q, Vec) else None
    for l, v in lines:
        r = v.f['data_'].z
        b0 = z3.simplify(L.entry.heap['pts'][r])
        if not L.outer and z3.is_int_value(z3.simplify(unpack(PTS, b0).n)):
            C.base = b0         # the line before any point was added
        b = getattr(C, 'base', None)
        Rt = lambda k, b=b0 if b is None else b: Rt_(b, k)
        for nm, c in cs:
            if Q is None:
                out.append(('the line so far (groups)', lambda st, c=c, r=r: And(c(st) >= 0, Implies(c(st) <= g.n, line_is(C, st, r, Rt(c(st)))))))
                continue
            if Q.t.e.name == 'Point':
                F = Pts
            elif Q.t.e.name == 'Swath':
                F = Sw
            else:
                out.append(('the line so far (groups)', lambda st, c=c, r=r: And(c(st) >= 0, Implies(c(st) <= g.n, line_is(C, st, r, Rt(c(st)))))))
                continue
            out.append(('the line so far', lambda st, c=c, r=r, F=F, b0=b0: And(c(st) >= 0, c(st) <= Q.n, line_is(C, st, r, F(b0, q, c(st))))))
    return out


def line_is(C, st, r, p):
    return And(r >= C.pre.alloc, r < st.alloc, st.heap['pts'][r] == p)


def line_ens(C):
    t = C.this()
    Pts, Sw, Rt = line_fold(C)
    r = C.res.f['data_'].z
    P = pts_of(C.heap_post('pts'), r)
    nothing = And(G(t).n == 0, N(t).n == 0)
    out = [('nothing without swaths and connections', Implies(nothing, P.n == 0)), ('the line is an object of its own', And(r >= C.pre.alloc, r < C.post.alloc))]
    if C is C.E.entry:
        b = getattr(C, 'base', None)
        b = C.heap_post('pts')[r] if b is None else b
    else:
        b = z3.FreshConst(PV, 'line_base')
    return out + [('all points in travel order, behind nothing', Implies(Not(nothing), And(unpack(PTS, b).n == 0, C.heap_post('pts')[r] == Rt(b, G(t).n))))]


def exist(C):
    """the paths and connections of the route are existing geometries"""
    t, a = C.this(), C.pre.alloc
    return [('members exist', And(fa(N(t), lambda i, m: And(mref(m) >= 1, mref(m) < a)), fa(G(t), lambda i, g: fa(data(g), lambda j, s: And(ref(s) >= 1, ref(s) < a)))))]


Contract(RT + 'asLineString', props=P_, alloc=True, requires=lambda C: [('connections and groups alternate', alternate(C.this()))] + exist(C), invariants=[inv_line], ensures=line_ens)
Contract(RT + 'length', props=P_, alloc=True, requires=lambda C: [('connections and groups alternate', alternate(C.this()))] + exist(C),
         ensures=lambda C: length_ens(C))


def length_ens(C):
    cl = C.calls(RT + 'asLineString')
    if len(cl) != 1:
        raise Unsupported('the length is not taken from the route as a line')
    r = cl[0].res.f['data_'].z
    return [('the length of the route as a line', C.res.z == M.path_length(C.E, 'LineString', pts_of(C.heap_post('pts'), r)))]


def conn_copies(C, v, w, st, n):
    h0 = C.pre.heap['pts']
    eq, rv = SEQ(C.E)
    return And(w.n == n, fa(w, lambda i, m: And(mref(m) >= C.pre.alloc, mref(m) < st.alloc, eq(st.heap['pts'][mref(m)], h0[mref(at(v, i))]))))


def inv_copy(L):
    C = L.E.entry
    if not C.con.name.endswith('Route::clone'):
        return []
    t = C.this()
    cs = [c for _, c, _0 in L.counters()] + ([lambda st: L.z(st, L.idx)] if L.idx is not None else [])
    out = []
    from specs.groups import copies
    for e, src, rel in (('Swaths', G(t), copies), ('MultiPoint', N(t), conn_copies)):
        for l, w in L.vecs(e, True):
            for c in cs:
                out.append(('copies so far', lambda st, l=l, c=c, src=src, rel=rel: rel(C, src, L.at(st, l), st, c(st))))
        for l, w in L.vecs(e, False):
            out.append(('copies stay', lambda st, l=l, src=src, rel=rel, w=w: rel(C, src, L.at(st, l), st, w.n)))
    return out


def clone_ens(C):
    from specs.groups import copies
    a, b = C.this(), C.res
    return [('group by group and swath by swath the same, with paths of their own', copies(C, G(a), G(b), C.post, G(a).n)),
            ('connection by connection the same points, in objects of their own', conn_copies(C, N(a), N(b), C.post, N(a).n))]


Contract(RT + 'clone', props=P_, alloc=True, invariants=[inv_copy], ensures=clone_ens, requires=exist)


def connected(C):
    """a connection by the given points, then the given swaths"""
    a, b = C.this(), C.this_post()
    P = pts_of(C.heap('pts'), mref(C.arg(0)))
    ga, gb = G(a), G(b)
    n1 = If(N(a).n <= ga.n, N(a).n + 1, N(a).n)         # connections after the points
    t = mref(at(N(b), n1 - 1))
    b_ = pts_of(C.heap_post('pts'), t)
    o = old_points(C)
    k = If(grows(C), 0, o.n)
    s = C.arg(1)
    return [('the points come first', And(N(b).n == n1, b_.n == k + P.n, fa(b_, lambda i, x: b_.arr[i] == If(i < k, o.arr[i], P.arr[i - k])))),
            ('then the swaths as a group of their own', And(gb.n == ga.n + 1, gb.arr[ga.n] == pack(s), fa(gb, lambda i, x: gb.arr[i] == ga.arr[i], 0, ga.n)))] + shape(C)


Contract(RT + 'addConnectedSwaths', props=P_, alloc=True, modifies=lambda C: [C.obj, 'pts'],
         requires=lambda C: many_pre(C) + [('the swaths fit', fa(G(C.this()), lambda k, g: data(g).n + data(C.arg(1)).n < (1 << 31) - 8))], ensures=connected)


# ---------------------------------------------------------------- a swath connected through a graph
G2 = TY + 'Graph2D::shortestPath'
Contract(G2, sig='(const Point &, const Point &, int64_t)', props=[], trusted='property C05', modifies=lambda C: [C.obj], maythrow=('out_of_range',),
         ensures=lambda C: [('a path fits a connection', And(C.res.n >= 0, C.res.n < (1 << 29)))])


def routed(C):
    a, b = C.this(), C.this_post()
    e = And(G(a).n == 0, N(a).n == 0)
    cl = C.calls(G2)
    s = pack(C.arg(0))
    ga, gb = G(a), G(b)
    if not cl:
        return [('without a connection only for an empty route', e)] + add_swath(C) + [first_connection(C)] + shape(C)
    if len(cl) != 1:
        raise Unsupported('several shortest paths')
    c = cl[0]
    ends = C.calls(RT + 'endPoint')
    if not ends:
        raise Unsupported('the end of the route is not asked for')
    Q = c.res
    n1 = If(N(a).n <= ga.n, N(a).n + 1, N(a).n)
    b_ = pts_of(C.heap_post('pts'), mref(at(N(b), n1 - 1)))
    o = old_points(C)
    k = If(grows(C), 0, o.n)
    return [('a connection only behind something', Not(e)),
            ('the path leads from the end of the route to the start of the swath', And(pack(c.arg(0)) == pack(ends[0].res), pack(c.arg(1)) == swpts(C, C.arg(0)).arr[0])),
            ('the connection takes the points of the path', And(N(b).n == n1, b_.n == k + Q.n, fa(b_, lambda i, x: b_.arr[i] == If(i < k, o.arr[i], Q.arr[i - k])))),
            ('the swath is a group of its own behind it', And(gb.n == ga.n + 1, data(at(gb, ga.n)).n == 1, data(at(gb, ga.n)).arr[0] == s, fa(gb, lambda i, x: gb.arr[i] == ga.arr[i], 0, ga.n)))] + shape(C)


def routed_pre(C):
    out = room(C) + owned(C) + end_pts(C) + [('connections exist', fa(N(C.this()), lambda i, m: And(mref(m) >= 1, mref(m) < C.pre.alloc)))] + [('connections fit', fa(N(C.this()), lambda i, m: pts_of(C.heap('pts'), mref(m)).n < (1 << 29)))]
    return out + [('the swaths fit', fa(G(C.this()), lambda k, g: data(g).n < (1 << 31) - 8)),
                  ('the swath has points of its own', And(swpts(C, C.arg(0)).n > 0, ref(C.arg(0)) >= 1, ref(C.arg(0)) < C.pre.alloc, fa(N(C.this()), lambda i, m: mref(m) != ref(C.arg(0)))))]


Contract(RT + 'addSwath', sig='(const Swath &, Graph2D &)', props=P_, alloc=True, maythrow=('out_of_range',), requires=routed_pre, ensures=routed, modifies=lambda C: [C.obj, C.locs[1], 'pts'])
