"""Contents of geometry objects as mathematical values: point sequences, sequences of these (lines of a multi line, rings of a
cell) and sequences of these again (cells), read from the heap.  Library geometry operations (OGR/GEOS) are uninterpreted
functions of the contents of their operands: equal contents give equal results, whatever objects hold them."""
import z3
from .values import *
from .values import sort_of

CONT2 = T('vec', None, (PTS,))
CONT3 = T('vec', None, (CONT2,))
HP = z3.ArraySort(z3.IntSort(), sort_of(PTS))
HK = z3.ArraySort(z3.IntSort(), sort_of(REFS))


def ctype(name):
    if name in GEO_PTS:
        return PTS
    return CONT3 if name == 'Cells' else CONT2


def C2(E):
    f = z3.Function('Cont2', sort_of(REFS), HP, sort_of(CONT2))

    def ax():
        k, k2 = z3.Const('c2k', sort_of(REFS)), z3.Const('c2k2', sort_of(REFS))
        h, h2 = z3.Const('c2h', HP), z3.Const('c2h2', HP)
        i = z3.Int('c2i')
        K, K2 = unpack(REFS, k), unpack(REFS, k2)
        A = unpack(CONT2, f(k, h))
        D = z3.Function('Cont2Diff', sort_of(REFS), HP, sort_of(CONT2), z3.IntSort())
        c = z3.Const('c2c', sort_of(CONT2))
        C = unpack(CONT2, c)
        d = D(k, h, c)
        return [
            z3.ForAll([k, h], A.n == K.n, patterns=[f(k, h)]),
            z3.ForAll([k, h, i], z3.Implies(z3.And(0 <= i, i < K.n), A.arr[i] == h[K.arr[i]]), patterns=[A.arr[i], z3.MultiPattern(f(k, h), K.arr[i])]),
        ]

    def ax2():
        k, k2 = z3.Const('c2k', sort_of(REFS)), z3.Const('c2k2', sort_of(REFS))
        h, h2 = z3.Const('c2h', HP), z3.Const('c2h2', HP)
        K, K2 = unpack(REFS, k), unpack(REFS, k2)
        D = z3.Function('Cont2Diff', sort_of(REFS), HP, sort_of(CONT2), z3.IntSort())
        return [
            # two contents with equal members are equal
            z3.ForAll([k, h, k2, h2], z3.Or(f(k, h) == f(k2, h2), K.n != K2.n, z3.And(0 <= D(k, h, f(k2, h2)), D(k, h, f(k2, h2)) < K.n, h[K.arr[D(k, h, f(k2, h2))]] != h2[K2.arr[D(k, h, f(k2, h2))]])),
                      patterns=[z3.MultiPattern(f(k, h), f(k2, h2))]),
        ]
    E.axiom('cont2', ax)
    E.axiom('cont2', ax2, pair=True)
    return f


def same2(E, k, h, c):
    """the content c equals that of the children k in heap h as soon as all members do (instance of extensionality)"""
    C2(E)
    D = z3.Function('Cont2Diff', sort_of(REFS), HP, sort_of(CONT2), z3.IntSort())
    f = C2(E)
    K, C = unpack(REFS, k), unpack(CONT2, c)
    d = D(k, h, c)
    return z3.Or(f(k, h) == c, K.n != C.n, z3.And(0 <= d, d < K.n, h[K.arr[d]] != C.arr[d]))


def C3(E):
    f2 = C2(E)
    f = z3.Function('Cont3', sort_of(REFS), HK, HP, sort_of(CONT3))

    def ax():
        k, k2 = z3.Const('c3k', sort_of(REFS)), z3.Const('c3k2', sort_of(REFS))
        h, h2 = z3.Const('c3h', HP), z3.Const('c3h2', HP)
        g, g2 = z3.Const('c3g', HK), z3.Const('c3g2', HK)
        i = z3.Int('c3i')
        K, K2 = unpack(REFS, k), unpack(REFS, k2)
        A = unpack(CONT3, f(k, g, h))
        D = z3.Function('Cont3Diff', sort_of(REFS), HK, HP, sort_of(CONT3), z3.IntSort())
        d = D(k, g, h, f(k2, g2, h2))
        return [
            z3.ForAll([k, g, h], A.n == K.n, patterns=[f(k, g, h)]),
            z3.ForAll([k, g, h, i], z3.Implies(z3.And(0 <= i, i < K.n), A.arr[i] == f2(g[K.arr[i]], h)), patterns=[A.arr[i], z3.MultiPattern(f(k, g, h), K.arr[i])]),
        ]

    def ax2():
        k, k2 = z3.Const('c3k', sort_of(REFS)), z3.Const('c3k2', sort_of(REFS))
        h, h2 = z3.Const('c3h', HP), z3.Const('c3h2', HP)
        g, g2 = z3.Const('c3g', HK), z3.Const('c3g2', HK)
        K, K2 = unpack(REFS, k), unpack(REFS, k2)
        D = z3.Function('Cont3Diff', sort_of(REFS), HK, HP, sort_of(CONT3), z3.IntSort())
        d = D(k, g, h, f(k2, g2, h2))
        return [
            z3.ForAll([k, g, h, k2, g2, h2], z3.Or(f(k, g, h) == f(k2, g2, h2), K.n != K2.n, z3.And(0 <= d, d < K.n, f2(g[K.arr[d]], h) != f2(g2[K2.arr[d]], h2))),
                      patterns=[z3.MultiPattern(f(k, g, h), f(k2, g2, h2))]),
        ]
    E.axiom('cont3', ax)
    E.axiom('cont3', ax2, pair=True)
    return f


def same3(E, k, g, h, c):
    f, f2 = C3(E), C2(E)
    D = z3.Function('Cont3Diff', sort_of(REFS), HK, HP, sort_of(CONT3), z3.IntSort())
    K, C = unpack(REFS, k), unpack(CONT3, c)
    d = D(k, g, h, c)
    return z3.Or(f(k, g, h) == c, K.n != C.n, z3.And(0 <= d, d < K.n, f2(g[K.arr[d]], h) != C.arr[d]))


def frame(E, bound, hk0, hp0, hk1, hp1):
    """contents of the objects below bound are the same before and after a step that changes nothing reachable from them"""
    f2 = z3.Function('Cont2', sort_of(REFS), HP, sort_of(CONT2))
    f3 = z3.Function('Cont3', sort_of(REFS), HK, HP, sort_of(CONT3))
    x = z3.Int('fm_x')

    def named(h, nm):
        # patterns are matched modulo equality: a name keeps them free of terms the solver rewrites
        if z3.is_const(h):
            return h
        c = E.fresh('heap_' + nm, h.sort())
        E.assume(c == h)
        return c
    hk0, hp0, hk1, hp1 = named(hk0, 'kids'), named(hp0, 'pts'), named(hk1, 'kids'), named(hp1, 'pts')
    E.assume(z3.ForAll([x], z3.Implies(x < bound, f2(hk1[x], hp1) == f2(hk0[x], hp0)), patterns=[f2(hk1[x], hp1)]))
    E.assume(z3.ForAll([x], z3.Implies(x < bound, f3(hk1[x], hk1, hp1) == f3(hk0[x], hk0, hp0)), patterns=[f3(hk1[x], hk1, hp1)]))


def content(E, name, ref, heap):
    """packed content of the geometry object ref of class name in heap {'pts','kids'}"""
    if name in GEO_PTS:
        return heap['pts'][ref]
    k = heap['kids'][ref]
    if name == 'Cells':
        return C3(E)(k, heap['kids'], heap['pts'])
    return C2(E)(k, heap['pts'])


def cont(E, v, heap=None):
    """packed content of a geometry value (point: itself)"""
    if v.t.name == 'Point':
        return pack(v)
    r = v.f['data_'] if isinstance(v, Rec) else v
    return content(E, v.t.name, r.z, heap or E.st.heap)


def empty(E, name, c):
    """IsEmpty of a collection: all members are"""
    t = ctype(name)
    f = z3.Function('Empty_' + t.key(), sort_of(t), z3.BoolSort())
    sub = (lambda x: unpack(PTS, x).n == 0) if t == CONT2 else (lambda x: empty(E, 'Cell', x))
    if t == CONT3:
        empty(E, 'Cell', z3.Const('em_z', sort_of(CONT2)))

    def ax():
        x = z3.Const('em_c', sort_of(t))
        i = z3.Int('em_i')
        X = unpack(t, x)
        W = z3.Function('EmptyWit_' + t.key(), sort_of(t), z3.IntSort())
        return [z3.ForAll([x, i], z3.Implies(z3.And(f(x), 0 <= i, i < X.n), sub(X.arr[i])), patterns=[z3.MultiPattern(f(x), X.arr[i])]),
                z3.ForAll([x], z3.Or(f(x), z3.And(0 <= W(x), W(x) < X.n, z3.Not(sub(X.arr[W(x)])))), patterns=[f(x)])]
    E.axiom('empty_' + t.key(), ax)
    return f(c)


def fresh(E, name, c=None):
    """a new object of class name, all of whose parts are new, with content c (arbitrary when not given)"""
    t = ctype(name)
    if c is None:
        c = E.fresh('cont', sort_of(t))
    C = unpack(t, c)
    E.assume(z3.And(C.n >= 0, C.n < (1 << 31) - 1))
    if t == PTS:
        r = E.alloc_ref()
        h0 = dict(E.st.heap)
        E.st.heap['pts'] = z3.Store(E.st.heap['pts'], r, c)
        frame(E, r, h0['kids'], h0['pts'], E.st.heap['kids'], E.st.heap['pts'])
        return Rec(T('rec', name), {'data_': Sc(T('ptr', name), r)})
    a0 = E.st.alloc
    r = E.alloc_ref()
    b0 = E.st.alloc
    a1 = E.fresh('alloc', z3.IntSort())
    E.assume(a1 >= b0)
    E.st.alloc = a1
    hp, hk = E.st.heap['pts'], E.st.heap['kids']
    np_, nk = E.fresh('heap_pts', hp.sort()), E.fresh('heap_kids', hk.sort())
    x, i, j = z3.Int('fr_x'), z3.Int('fr_i'), z3.Int('fr_j')
    E.assume(z3.ForAll([x], z3.Implies(x < b0, np_[x] == hp[x]), patterns=[np_[x]]))
    E.assume(z3.ForAll([x], z3.Implies(x < a0, nk[x] == hk[x]), patterns=[nk[x]]))
    k = E.fresh('kids', sort_of(REFS))
    K = unpack(REFS, k)
    E.assume(nk[r] == k)
    E.assume(K.n == C.n)
    E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < K.n), z3.And(K.arr[i] >= b0, K.arr[i] < a1)), patterns=[K.arr[i]]))
    E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < K.n), K.arr[i] != K.arr[j]), patterns=[z3.MultiPattern(K.arr[i], K.arr[j])]))
    if t == CONT2:
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < K.n), np_[K.arr[i]] == C.arr[i]), patterns=[K.arr[i]]))
        E.assume(C2(E)(k, np_) == c)
    else:
        f2 = C2(E)
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < K.n), f2(nk[K.arr[i]], np_) == C.arr[i]), patterns=[K.arr[i]]))
        L = lambda x: unpack(REFS, nk[x])
        E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < K.n, 0 <= j, j < L(K.arr[i]).n), z3.And(L(K.arr[i]).arr[j] >= b0, L(K.arr[i]).arr[j] < a1)),
                           patterns=[L(K.arr[i]).arr[j]]))
        E.assume(C3(E)(k, nk, np_) == c)
    frame(E, a0, hk, hp, nk, np_)
    E.st.heap['pts'], E.st.heap['kids'] = np_, nk
    return Rec(T('rec', name), {'data_': Sc(T('ptr', name), r)})


def op(E, name, ret, *args):
    """uninterpreted library operation on contents"""
    f = z3.Function(name, *([a.sort() for a in args] + [ret if isinstance(ret, z3.SortRef) else sort_of(ret)]))
    return f(*args)


def envelope(E, c, side):
    return op(E, 'env%s_%s' % (side, c.sort()), z3.RealSort(), c)


def area(E, c):
    return op(E, 'area_%s' % c.sort(), z3.RealSort(), c)
