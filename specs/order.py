"""Swath ordering (route planning inside one cell): rearrangement, pattern, directions."""
import z3
from f2cv.contract import Contract
from f2cv.values import *
from f2cv.values import sort_of
from f2cv.sp import *
from f2cv import models as M

SW = T('rec', 'Swath')
RP = 'f2c::rp::'
TY = 'f2c::types::'


def data(v):
    return v.f['data_']


def ref(s):
    return s.f['path_'].f['data_'].z


def permr(C, a, b):
    """b holds the swaths (identified by their path object) of a in some order"""
    P, _, _ = PERMR(C.E, SW, ref, 'Swath')
    return P(pack(a), pack(b))


def distinct(v):
    i, j = qi('i'), qi('j')
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < v.n), ref(at(v, i)) != ref(at(v, j))),
                     patterns=[z3.MultiPattern(v.arr[i], v.arr[j])])


def same_attrs(a, b, type_=True, path=False):
    out = [a.f[k].z == b.f[k].z for k in (('id_', 'width_', 'type_') if type_ else ('id_', 'width_'))]
    if path:
        out.append(ref(a) == ref(b))
    return z3.And(out)


def same_swath(C, a, ha, b, hb):
    """b is a, possibly driven in the other direction: the points are reversed exactly when the direction flag flips"""
    eq, rv = SEQ(C.E)
    pa, pb = ha[ref(a)], hb[ref(b)]
    return z3.And(same_attrs(a, b),
                  z3.If(a.f['creation_dir_'].z == b.f['creation_dir_'].z, eq(pb, pa), rv(pb, pa)))


def flips(C, va, ha, vb, hb):
    """every swath of vb is the swath of va with the same path object, up to direction"""
    i, j = qi('i'), qi('j')
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < va.n, 0 <= j, j < vb.n, ref(at(va, i)) == ref(at(vb, j))),
                                        same_swath(C, at(va, i), ha, at(vb, j), hb)),
                     patterns=[z3.MultiPattern(va.arr[i], vb.arr[j])])


def others_same(v, h0, h1):
    """points of geometries that are not paths of v are unchanged"""
    x, i = qi('x'), qi('i')
    return z3.ForAll([x], z3.Implies(z3.Not(z3.Exists([i], z3.And(0 <= i, i < v.n, ref(at(v, i)) == x))), h1[x] == h0[x]),
                     patterns=[h1[x]])


def older_same(C, a0):
    x = qi('x')
    return z3.ForAll([x], z3.Implies(x < a0, C.heap_post('pts')[x] == C.heap('pts')[x]), patterns=[C.heap_post('pts')[x]])


# ---------------------------------------------------------------- Swath
Contract(TY + 'Swath::reverse', props=['C01', 'C02'], inline=True,
         modifies=lambda C: [C.obj.fld('creation_dir_'), 'pts'],
         ensures=lambda C: [
             ('the direction flag flips', C.this_post().f['creation_dir_'].z == Not(C.this().f['creation_dir_'].z)),
             ('the points are reversed', seq_rev(pts_of(C.heap_post('pts'), ref(C.this())), pts_of(C.heap('pts'), ref(C.this())))),
             ('no other geometry changes', (lambda x: z3.ForAll([x], Implies(x != ref(C.this()), C.heap_post('pts')[x] == C.heap('pts')[x])))(qi('x')))])


def swath_pair(C, same):
    a, b = C.this(), C.arg(0)
    a1 = C.this_post()
    want = b.f['creation_dir_'].z if same else Not(b.f['creation_dir_'].z)
    return [('direction becomes the %s one' % ('same' if same else 'opposite'), a1.f['creation_dir_'].z == want),
            ('same swath up to direction', same_swath(C, a, C.heap('pts'), a1, C.heap_post('pts')))]


for nm, sm in (('targetSameDirAs', True), ('targetOppositeDirAs', False)):
    Contract(TY + 'Swath::' + nm, props=['C02'], inline=True, modifies=lambda C: [C.obj.fld('creation_dir_'), 'pts'],
             ensures=lambda C, sm=sm: swath_pair(C, sm))

Contract(TY + 'Swath::clone', props=['C01', 'C03'], alloc=True,
         ensures=lambda C: [
             ('same id, width and type', same_attrs(C.res, C.this())),
             ('same direction flag', C.res.f['creation_dir_'].z == C.this().f['creation_dir_'].z),
             ('same points', SEQ(C.E)[0](C.heap_post('pts')[ref(C.res)], C.heap('pts')[ref(C.this())])),
             ('the path is a new object', And(ref(C.res) >= C.pre.alloc, ref(C.res) < C.post.alloc)),
         ])


# ---------------------------------------------------------------- Swaths
def norm_dir(C, s, h):
    """after sorting, no swath ends before it starts (lexicographic order of the planar coordinates)"""
    p = pts_of(h, ref(s))
    a, b = at(p, 0), at(p, p.n - 1)
    ax, ay, bx, by = a.f['x'].z, a.f['y'].z, b.f['x'].z, b.f['y'].z
    return Implies(p.n > 0, Not(Or(bx < ax, And(bx == ax, by < ay))))


def swath_vec_param(L):
    return [(l, v) for l, v in L.vecs('Swath', True)]


def inv_inplace(L):
    """loops that visit the swaths of a container one after the other and may flip them in place"""
    out = []
    E = L.E
    C = E.entry
    eq, rv = SEQ(E)
    counters = [('idx', lambda st: L.z(st, L.idx))] if L.idx is not None else [(n, f) for n, f, _ in L.counters()]
    for l, v0 in L.vecs('Swath'):
        h0 = L.entry.heap['pts']

        def same(st, l=l, v0=v0):
            v1 = L.at(st, l)
            return And(v1.n == v0.n, fa(v1, lambda i, s: And(ref(s) == ref(at(v0, i)), same_attrs(s, at(v0, i)))))
        out.append(('attributes and paths stay in place', same))

        def others(st, l=l, v0=v0):
            x = qi('x')
            k = qi('k')
            return z3.ForAll([x], Or(st.heap['pts'][x] == h0[x], z3.Exists([k], And(0 <= k, k < v0.n, ref(at(v0, k)) == x))), patterns=[st.heap['pts'][x]])
        out.append(('points of other geometries unchanged', others))

        def flp(st, l=l, v0=v0):
            v1 = L.at(st, l)
            return fa(v1, lambda i, s: same_swath_h(eq, rv, at(v0, i), h0, s, st.heap['pts']))
        out.append(('points reversed exactly when the flag flipped', flp))
        for cn, cf in counters:
            def todo(st, l=l, v0=v0, cf=cf):
                v1 = L.at(st, l)
                i = qi('i')
                return z3.ForAll([i], Implies(And(cf(st) <= i, i < v0.n), And(v1.arr[i] == v0.arr[i], st.heap['pts'][ref(at(v0, i))] == h0[ref(at(v0, i))])), patterns=[v1.arr[i], v0.arr[i]])
            out.append(('swaths from %s on are untouched' % cn, todo))

            def done(st, l=l, cf=cf):
                v1 = L.at(st, l)
                return fa(v1, lambda i, s: norm_dir(C, s, st.heap['pts']), 0, cf(st))
            out.append(('swaths before %s do not end before they start' % cn, done))

            def alt(st, l=l, cf=cf):
                v1 = L.at(st, l)
                return fa(v1, lambda i, s: s.f['creation_dir_'].z != at(v1, i - 1).f['creation_dir_'].z, 1, cf(st))
            out.append(('directions alternate before %s' % cn, alt))

            def first(st, l=l, v0=v0):
                return And(L.at(st, l).arr[0] == v0.arr[0], Implies(v0.n > 0, st.heap['pts'][ref(at(v0, 0))] == h0[ref(at(v0, 0))]))
            out.append(('first swath untouched', first))
    return out


def same_swath_h(eq, rv, a, ha, b, hb):
    pa, pb = ha[ref(a)], hb[ref(b)]
    return z3.And(same_attrs(a, b),
                  z3.If(a.f['creation_dir_'].z == b.f['creation_dir_'].z, eq(pb, pa), rv(pb, pa)))


def sort_ens(C):
    a, b = data(C.this()), data(C.this_post())
    h0, h1 = C.heap('pts'), C.heap_post('pts')
    i, j = qi('i'), qi('j')
    return [('same number of swaths', a.n == b.n),
            ('a rearrangement of the swaths', permr(C, a, b)),
            ('each swath keeps its id, width, type and points (up to direction)', flips(C, a, h0, b, h1)),
            ('ids do not decrease', z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < b.n), at(b, i).f['id_'].z <= at(b, j).f['id_'].z),
                                              patterns=[z3.MultiPattern(b.arr[i], b.arr[j])])),
            ('no swath ends before it starts', fa(b, lambda i, s: norm_dir(C, s, h1))),
            ('points of other geometries unchanged', others_same(a, h0, h1))]


Contract(TY + 'Swaths::sort', props=['C01', 'C02'],
         requires=lambda C: [('the swaths own distinct paths', distinct(data(C.this())))],
         modifies=lambda C: [C.obj, 'pts'], invariants=[inv_inplace], ensures=sort_ens)


def odd_ens(C):
    a, b = data(C.this()), data(C.this_post())
    h0, h1 = C.heap('pts'), C.heap_post('pts')
    return [('same number of swaths', a.n == b.n),
            ('swaths stay at their position', fa(b, lambda i, s: ref(s) == ref(at(a, i)))),
            ('a rearrangement of the swaths', permr(C, a, b)),
            ('each swath keeps its id, width, type and points (up to direction)', flips(C, a, h0, b, h1)),
            ('directions alternate', fa(b, lambda i, s: s.f['creation_dir_'].z != at(b, i - 1).f['creation_dir_'].z, 1)),
            ('the first swath keeps its direction', And(Implies(a.n > 0, b.arr[0] == a.arr[0]),
                                                       Implies(a.n > 0, h1[ref(at(a, 0))] == h0[ref(at(a, 0))]))),
            ('points of other geometries unchanged', others_same(a, h0, h1))]


Contract(TY + 'Swaths::reverseDirOddSwaths', props=['C01', 'C02'],
         requires=lambda C: [('the swaths own distinct paths', distinct(data(C.this())))],
         modifies=lambda C: [C.obj, 'pts'], invariants=[inv_inplace], ensures=odd_ens)


def fresh_refs(v, lo, hi):
    return fa(v, lambda i, s: And(lo <= ref(s), ref(s) < hi))


def inv_clone(L):
    """loops that append a copy of each swath of a source container to an initially empty container"""
    out = []
    E = L.E
    C = E.entry
    eq, rv = SEQ(E)
    srcs = L.vecs('Swath', False)
    dsts = L.vecs('Swath', True)
    for ls, src in srcs:
        for ld, d0 in dsts:
            def copied(st, src=src, ld=ld):
                d = L.at(st, ld)
                return And(d.n <= src.n, fa(d, lambda i, s: And(same_attrs(s, at(src, i)), s.f['creation_dir_'].z == at(src, i).f['creation_dir_'].z,
                                               eq(st.heap['pts'][ref(s)], C.pre.heap['pts'][ref(at(src, i))]))))
            out.append(('copied prefix', copied))

    for ld, d0 in dsts:
        out.append(('copies have new paths', lambda st, ld=ld: fresh_refs(L.at(st, ld), C.pre.alloc, st.alloc)))
        out.append(('copies have distinct paths', lambda st, ld=ld: distinct(L.at(st, ld))))
    return out


def clone_ens(C):
    a, b = data(C.this()), data(C.res)
    eq, rv = SEQ(C.E)
    h0, h1 = C.heap('pts'), C.heap_post('pts')
    return [('same number of swaths', a.n == b.n),
            ('swath by swath: same id, width, type and direction', fa(b, lambda i, s: And(same_attrs(s, at(a, i)), s.f['creation_dir_'].z == at(a, i).f['creation_dir_'].z))),
            ('swath by swath: same points', fa(b, lambda i, s: eq(h1[ref(s)], h0[ref(at(a, i))]))),
            ('the copies have new, distinct paths', And(fresh_refs(b, C.pre.alloc, C.post.alloc), distinct(b)))]


Contract(TY + 'Swaths::clone', props=['C01', 'C03'], alloc=True, invariants=[inv_clone], ensures=clone_ens)


# ---------------------------------------------------------------- orders
def sorted_ens(C):
    a, b = data(C.arg(0)), data(C.arg_post(0))
    return [('the swaths are rearranged: each exactly once', M.perm(C.E, a, b))]


BASE = RP + 'SingleCellSwathsOrderBase::'
nonempty = lambda C: [('there is at least one swath', data(C.arg(0)).n > 0)]
mod0 = lambda C: [C.locs[0]]


def inv_perm(L):
    out = []
    C = L.E.entry
    for l, v in L.vecs('Swath', True):
        out.append(('rearrangement of the input', lambda st, l=l: M.perm(L.E, data(C.arg(0)), L.at(st, l))))
    return out


Contract(BASE + 'sortSwaths', props=[], requires=nonempty, modifies=mod0, ensures=sorted_ens, trusted='virtual: every override in the repository is verified against this contract')
Contract(RP + 'BoustrophedonOrder::sortSwaths', props=['C01', 'C02'], requires=nonempty, modifies=mod0, ensures=lambda C: sorted_ens(C) + [
    ('the order is kept', veq(data(C.arg(0)), data(C.arg_post(0))))])


def snake_pos(n, k):
    """index in the id-sorted sequence of the k-th swath of a snake: evens up, then odds down"""
    h = (n + 1) / 2
    return If(k < h, 2 * k, 2 * (n - 1 - k) + 1)


def inv_snake(L):
    C = L.E.entry
    out = []
    a = data(C.arg(0))
    for l, v in L.vecs('Swath', True):
        for cn, cf, z0 in L.counters():
            def f(st, l=l, cf=cf):
                b = L.at(st, l)
                t = cf(st) - 1     # rotations done
                n = a.n
                return And(b.n == n, fa(b, lambda k, s: b.arr[k] == a.arr[If(k <= t, 2 * k, If(k < n - t, k + t, 2 * (k - (n - t)) + 1))]))
            out.append(('rotated prefix by ' + cn, f))
    return out


Contract(RP + 'SnakeOrder::sortSwaths', props=['C01', 'C02'], requires=nonempty, modifies=mod0, invariants=[inv_perm, inv_snake],
         ensures=lambda C: sorted_ens(C) + [
    ('even positions ascending, then odd positions descending',
     (lambda a, b: fa(b, lambda k, s: b.arr[k] == a.arr[snake_pos(a.n, k)]))(data(C.arg(0)), data(C.arg_post(0))))])


H_ = z3.Function('Half', z3.IntSort(), z3.IntSort())


def half_axiom(C=None):
    """definition of Half (integer division by two), kept abstract for the solver"""
    k = z3.Int('half_k')
    return [('Half(k) is k/2 rounded down', z3.ForAll([k], And(2 * H_(k) <= k, k <= 2 * H_(k) + 1), patterns=[H_(k)]))]


def odd(k):
    return k != 2 * H_(k)


def spiral_pos(off, size, k):
    """index inside a group of the k-th visited swath: alternately from the two ends, from the low end first for even offsets"""
    return If(odd(k) == odd(off), H_(k), size - 1 - H_(k))


def inv_spiral(L):
    C = L.E.entry
    if 'spiral' not in C.con.name.split('::')[-1]:
        return []
    out = []
    a = data(C.arg(0))
    off, size = C.arg(1).z, C.arg(2).z
    for l, v in L.vecs('Swath', True):
        for cn, cf, z0 in L.counters():
            def f(st, l=l, cf=cf):
                b = L.at(st, l)
                J = cf(st)
                return And(b.n == a.n, fa(b, lambda p, x: b.arr[p] == a.arr[
                    If(And(off <= p, p < off + size), off + If(p - off < J, spiral_pos(off, size, p - off), p - off - H_(J)), p)]))
            out.append(('parity of ' + cn, lambda st, cf=cf: odd(cf(st)) != odd(off)))
            out.append(('within group ' + cn, lambda st, cf=cf: And(cf(st) >= 0, cf(st) <= size + 1)))
            out.append(('group prefix done by ' + cn, f))
    return out


def spiral_ens(C):
    a, b = data(C.arg(0)), data(C.arg_post(0))
    off, size = C.arg(1).z, C.arg(2).z
    return sorted_ens(C) + [
        ('same number of swaths', a.n == b.n),
        ('other groups untouched, this group taken alternately from its two ends',
         fa(b, lambda p, s: b.arr[p] == a.arr[If(And(off <= p, p < off + size), off + spiral_pos(off, size, p - off), p)]))]


Contract(RP + 'SpiralOrder::spiral', props=['C01', 'C02'], invariants=[inv_perm, inv_spiral], assume=half_axiom,
         requires=lambda C: [('the group lies inside the swaths', And(C.arg(1).z + C.arg(2).z <= data(C.arg(0)).n, C.arg(2).z >= 1))],
         modifies=mod0, ensures=spiral_ens)


G_ = z3.Function('GroupStart', z3.IntSort(), z3.IntSort())
GS_ = z3.Function('GroupNumberStart', z3.IntSort(), z3.IntSort())


def group_axiom(C):
    """definitions: consecutive groups of S positions; GroupNumberStart(q) = q*S, GroupStart(k) the start of the group that contains k"""
    S = C.this().f['spiral_size'].z
    k, q = z3.Int('gs_k'), z3.Int('gs_q')
    return half_axiom() + [
        ('GroupNumberStart(q) is q*S; GroupStart(k) is the GroupNumberStart(q) with GroupNumberStart(q) <= k < GroupNumberStart(q)+S', And(
            z3.ForAll([q], GS_(q) == q * S, patterns=[GS_(q)]),
            z3.ForAll([k], Implies(k >= 0, And(0 <= G_(k), G_(k) <= k, k < G_(k) + S)), patterns=[G_(k)]),
            z3.ForAll([k, q], Implies(And(GS_(q) <= k, k < GS_(q) + S), G_(k) == GS_(q)), patterns=[z3.MultiPattern(GS_(q), G_(k))]),
            # groups do not overlap
            z3.ForAll([k, q], Implies(And(k >= 0, k < GS_(q)), G_(k) + S <= GS_(q)), patterns=[z3.MultiPattern(GS_(q), G_(k))])))]


def spiral_all(C, a, b, upto, S):
    n = a.n

    def at_(p, s):
        g = G_(p)
        sz = If(g + S <= n, S, n - g)
        return b.arr[p] == a.arr[If(p < upto, g + spiral_pos(g, sz, p - g), p)]
    return And(b.n == n, fa(b, at_))


def inv_spiral_sort(L):
    C = L.E.entry
    if C.con.name != RP + 'SpiralOrder::sortSwaths':
        return []
    out = []
    a = data(C.arg(0))
    S = C.this().f['spiral_size'].z
    for l, v in L.vecs('Swath', True):
        for cn, cf, z0 in L.counters():
            out.append(('groups fit %s' % cn, lambda st, l=l, cf=cf: And(GS_(cf(st)) == cf(st) * S, GS_(cf(st)) <= a.n)))
            out.append(('groups before %s done' % cn, lambda st, l=l, cf=cf: And(GS_(cf(st) + 1) == GS_(cf(st)) + S, spiral_all(C, a, L.at(st, l), GS_(cf(st)), S))))
    return out


Contract(RP + 'SpiralOrder::sortSwaths', props=['C01', 'C02'], invariants=[inv_perm, inv_spiral_sort],
         requires=lambda C: nonempty(C) + [('the spiral size is at least 1', C.this().f['spiral_size'].z >= 1)],
         assume=group_axiom,
         modifies=mod0, ensures=lambda C: sorted_ens(C) + [
             ('group by group, each taken alternately from its two ends',
              spiral_all(C, data(C.arg(0)), data(C.arg_post(0)), data(C.arg(0)).n, C.this().f['spiral_size'].z))])
Contract(RP + 'SpiralOrder::setSpiralSize', props=['C01', 'C02'], modifies=lambda C: [C.obj], ensures=lambda C: [
    ('the size is stored, at least 1', C.this_post().f['spiral_size'].z == If(C.arg(0).z < 1, 1, C.arg(0).z))])
Contract(RP + 'SpiralOrder::SpiralOrder', props=['C01', 'C02'], ensures=lambda C: [
    ('the spiral size is at least 1', C.this_post().f['spiral_size'].z >= 1)])


# ---------------------------------------------------------------- custom order
def dups(v):
    i, j = qi('i'), qi('j')
    return z3.Exists([i, j], And(0 <= i, i < j, j < v.n, v.arr[i] == v.arr[j]))


def toolarge(v, n):
    i = qi('i')
    return z3.Exists([i], And(0 <= i, i < v.n, v.arr[i] >= n))


def custom_throws(C):
    o = C.this().f['custom_order']
    n = data(C.arg(0)).n
    d = dups(o)
    return [('invalid_argument', Or(d, And(o.n == n, toolarge(o, n)))), ('length_error', And(Not(d), o.n != n))]


Contract(RP + 'CustomOrder::check', props=['C01', 'C02'], requires=nonempty, throws=custom_throws)


def inv_custom(L):
    C = L.E.entry
    if 'CustomOrder' not in C.con.name:
        return []
    out = []
    a, o = data(C.arg(0)), C.this().f['custom_order']
    for l, v in L.vecs('Swath', True):
        for cn, cf, z0 in L.counters():
            out.append(('filled by %s' % cn, lambda st, l=l, cf=cf: And(L.at(st, l).n == a.n, fa(L.at(st, l), lambda i, s: L.at(st, l).arr[i] == a.arr[o.arr[i]], 0, cf(st)))))
    return out


def custom_ens(C):
    a, b, o = data(C.arg(0)), data(C.arg_post(0)), C.this().f['custom_order']
    return [('k-th swath is the one the order names', And(a.n == b.n, fa(b, lambda i, s: b.arr[i] == a.arr[o.arr[i]]))),
            ('the swaths are rearranged: each exactly once', Implies(M.lemma_perm_intro(C.E, a, b, o), M.perm(C.E, a, b)))]


Contract(RP + 'CustomOrder::sortSwaths', props=['C01', 'C02'], requires=nonempty, throws=custom_throws, modifies=mod0, invariants=[inv_custom],
         ensures=custom_ens, alloc=True)
Contract(RP + 'CustomOrder::setCustomOrder', props=['C01'], modifies=lambda C: [C.obj],
         ensures=lambda C: [('the order is stored', veq(C.this_post().f['custom_order'], C.arg(0)))])


# ---------------------------------------------------------------- the pipeline
def start_ens(C):
    a, b = data(C.arg(0)), data(C.arg_post(0))
    v = C.arg(1).z
    h0, h1 = C.heap('pts'), C.heap_post('pts')
    f = z3.Function('bit_and', z3.IntSort(), z3.IntSort(), z3.IntSort())
    b1, b2 = v % 2 == 1, (v / 2) % 2 == 1
    return [('same number of swaths', a.n == b.n),
            ('reversed order exactly for odd variants', fa(b, lambda i, s: ref(s) == ref(If_(b1, at(a, a.n - 1 - i), at(a, i))))),
            ('a rearrangement of the swaths', permr(C, a, b)),
            ('each swath keeps its id, width, type and points (up to direction)', flips(C, a, h0, b, h1)),
            ('only the first swath may flip, exactly for variants 2 and 3',
             fa(b, lambda i, s: s.f['creation_dir_'].z == Xor(If_(b1, at(a, a.n - 1 - i), at(a, i)).f['creation_dir_'].z, And(b2, i == 0)))),
            ('points of other geometries unchanged', others_same(a, h0, h1))]


def If_(c, x, y):
    return unpack(x.t, z3.If(c, pack(x), pack(y)))


Contract(BASE + 'changeStartPoint', props=['C01', 'C02'], modifies=lambda C: [C.locs[0], 'pts'],
         requires=lambda C: nonempty(C) + [('the swaths own distinct paths', distinct(data(C.arg(0))))], ensures=start_ens)


def gen_ens(C):
    a, r = data(C.arg(0)), data(C.res)
    h0, h1 = C.heap('pts'), C.heap_post('pts')
    cl = C.calls(TY + 'Swaths::clone')
    so = C.calls(BASE + 'sortSwaths')
    out = [('same number of swaths', a.n == r.n)]
    if not cl:
        # nothing cloned on this path: only the empty input may end here
        return out + [('a copy of the swaths is made', z3.BoolVal(False))]
    c = data(cl[0].res)
    hc = cl[0].post.heap['pts']
    eq, rv = SEQ(C.E)
    out += [('the copy the order is built from equals the input swath by swath',
             And(c.n == a.n, fa(c, lambda i, s: And(same_attrs(s, at(a, i)), eq(hc[ref(s)], h0[ref(at(a, i))]))))),
            ('the result is a rearrangement of that copy', permr(C, c, r)),
            ('each swath keeps its id, width, type and points (up to direction)', flips(C, c, hc, r, h1)),
            ('paths in the result are distinct and new', And(distinct(r), fresh_refs(r, C.pre.alloc, C.post.alloc))),
            ('directions alternate', fa(r, lambda i, s: s.f['creation_dir_'].z != at(r, i - 1).f['creation_dir_'].z, 1))]
    if so:
        s0, s1 = data(so[0].arg(0)), data(so[0].arg_post(0))
        v = C.arg(1).z
        i, j = qi('i'), qi('j')
        up = z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < s0.n), at(s0, i).f['id_'].z <= at(s0, j).f['id_'].z), patterns=[z3.MultiPattern(s0.arr[i], s0.arr[j])])
        dn = z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < s0.n), at(s0, i).f['id_'].z >= at(s0, j).f['id_'].z), patterns=[z3.MultiPattern(s0.arr[i], s0.arr[j])])
        out += [('the order is applied to the swaths sorted by id, ascending for even variants, descending for odd ones', If(v % 2 == 0, up, dn)),
                ('the result follows the order position by position', fa(r, lambda i, s: ref(s) == ref(at(s1, i)))),
                ('the first swath keeps the direction it had when ordered', r.arr[0] == s1.arr[0])]
    else:
        out += [('nothing to order only when there are no swaths', a.n == 0)]
    return out


Contract(BASE + 'genSortedSwaths', props=['C01', 'C02', 'C03'], alloc=True, maythrow=('invalid_argument', 'length_error'), ensures=gen_ens)
