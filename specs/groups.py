"""Swath containers: Swaths, SwathsByCells (swath access by position over all cells, sizes, reversal, flattening, copies)."""
import z3
from f2cv.contract import Contract
from f2cv.values import *
from f2cv.values import sort_of
from f2cv.sp import *
from f2cv import models as M
from specs.order import data, ref, same_attrs, fresh_refs, distinct, TY

P_ = ['C15']
SS = TY + 'Swaths::'
SB = TY + 'SwathsByCells::'


def OFF(E, v, tag='groups'):
    """Off(j): number of swaths in the first j groups of v"""
    S = z3.Function('Off_' + tag, z3.IntSort(), z3.IntSort())
    i = z3.Int('of_i')
    E.axiom('off_' + tag, lambda: [S(0) == 0, z3.ForAll([i], Implies(And(0 <= i, i < v.n), S(i + 1) == S(i) + data(at(v, i)).n), patterns=[z3.MultiPattern(S(i), v.arr[i]), S(i + 1)])])
    return S


# ---------------------------------------------------------------- containers
def pushed(a, b, x):
    """b is a followed by x"""
    return And(b.n == a.n + 1, b.arr[a.n] == x, fa(b, lambda i, s: b.arr[i] == a.arr[i], 0, a.n))


def reversed_(a, b):
    return And(b.n == a.n, fa(b, lambda i, s: b.arr[i] == a.arr[a.n - 1 - i]))


def both(name, sig=None, **kw):
    for cl in (SS, SB):
        Contract(cl + name, props=P_, sig=sig, **kw)


room = lambda C: [('there is room', data(C.this()).n < (1 << 31) - 2)]
for nm in ('emplace_back', 'push_back'):
    for cl, e in ((SS, 'Swath'), (SB, 'Swaths')):
        Contract(cl + nm, sig='(const %s &)' % e, props=P_, inline=True, requires=room, modifies=lambda C: [C.obj],
                 ensures=lambda C: [('the given one follows the others', pushed(data(C.this()), data(C.this_post()), pack(C.arg(0))))])
for cl in (SS, SB):
    Contract(cl + 'size', props=P_, inline=True, ensures=lambda C: [('the number of members', C.res.z == data(C.this()).n)])
    Contract(cl + 'reverse', props=P_, inline=True, modifies=lambda C: [C.obj], ensures=lambda C: [('the members in reverse order', reversed_(data(C.this()), data(C.this_post())))])
    Contract(cl + 'at', props=P_, inline=True, throws=lambda C: [('out_of_range', C.arg(0).z >= data(C.this()).n)],
             ret=lambda C: C.obj.fld('data_').idx(C.arg(0).z))
    Contract(cl + 'operator[]', props=P_, inline=True, requires=lambda C: [('in range', And(0 <= C.arg(0).z, C.arg(0).z < data(C.this()).n))],
             ret=lambda C: C.obj.fld('data_').idx(C.arg(0).z))
    Contract(cl + 'back', props=P_, inline=True, requires=lambda C: [('not empty', data(C.this()).n > 0)],
             ret=lambda C: C.obj.fld('data_').idx(data(C.this()).n - 1))


def inv_app(L):
    """the members visited so far follow the old ones"""
    C = L.E.entry
    out = []
    if L.idx is None:
        cs = [c for _, c, z0 in L.counters()]
    else:
        cs = [lambda st: L.z(st, L.idx)]
    if not C.con.name.endswith('Swaths::append'):
        return []
    a, g = data(C.this()), data(C.arg(0))
    for l, v in L.vecs('Swath', True):
        for c in cs:
            out.append(('old members, then the ones visited', lambda st, l=l, c=c: joined(a, L.at(st, l), g, c(st))))
    return out


def joined(a, b, g, n):
    return And(b.n == a.n + n, fa(b, lambda i, s: b.arr[i] == a.arr[i], 0, a.n), fa(b, lambda i, s: b.arr[i] == g.arr[i - a.n], a.n, b.n))


Contract(SS + 'append', sig='(const Swaths &)', props=P_, invariants=[inv_app], modifies=lambda C: [C.obj],
         requires=lambda C: [('there is room', data(C.this()).n + data(C.arg(0)).n < (1 << 31) - 2)],
         ensures=lambda C: [('the given swaths follow the old ones, in order', joined(data(C.this()), data(C.this_post()), data(C.arg(0)), data(C.arg(0)).n))])


# ---------------------------------------------------------------- access over all cells
def holds(C, j):
    """the position asked for lies in group j"""
    S = OFF(C.E, data(C.this()))
    return And(S(j) <= C.arg(0).z, C.arg(0).z < S(j + 1))


def some_group(C, f):
    v = data(C.this())
    j = qi('j')
    return z3.Exists([j], And(0 <= j, j < v.n, holds(C, j), f(j)), patterns=[v.arr[j]])


def inv_get(L):
    C = L.E.entry
    if not C.con.name.endswith('getSwath'):
        return []
    v = data(C.this())
    S = OFF(C.E, v)
    out = []
    cs = L.counters()
    for na, a, za in cs:
        out.append(('%s is in range' % na, lambda st, a=a: And(a(st) >= 0, a(st) < v.n)))
        for nb, b, zb in cs:
            if na == nb:
                continue
            out.append(('position left over: %s after %s' % (na, nb), lambda st, a=a, b=b: And(a(st) >= 0, a(st) + S(b(st)) == C.arg(0).z)))
            out.append(('%s counts the swaths before %s' % (na, nb), lambda st, a=a, b=b: And(a(st) >= 0, a(st) == S(b(st)), a(st) <= C.arg(0).z)))
            out.append(('%s is the size of group %s' % (na, nb), lambda st, a=a, b=b: a(st) == data(at(v, b(st))).n))

        def before(st, a=a):
            q = qi('q')
            return z3.ForAll([q], Implies(And(0 <= q, q < a(st)), C.arg(0).z >= S(q + 1)), patterns=[v.arr[q]])
        out.append(('the position lies behind the groups before %s' % na, before))
    return out


def get_ens(C):
    v = data(C.this())
    S = OFF(C.E, v)
    return [('the swath at this position counted over all cells', some_group(C, lambda j: pack(C.res) == data(at(v, j)).arr[C.arg(0).z - S(j)]))] + (
        [('the swath held by the container, not a copy', z3.BoolVal(isinstance(C.resloc, Loc) and C.resloc.root == C.obj.root))] if C is C.E.entry else [])


Contract(SB + 'getSwath', props=P_, invariants=[inv_get], ensures=get_ens,
         throws=lambda C: [('out_of_range', Not(some_group(C, lambda j: z3.BoolVal(True))))])


def total_pre(C):
    v = data(C.this())
    S = OFF(C.E, v)
    return [('the number of swaths fits an int', fai(0, v.n + 1, lambda i: S(i) < (1 << 31) - 2, pats=lambda i: [S(i)]))]


def inv_total(L):
    C = L.E.entry
    v = data(C.this())
    S = OFF(C.E, v)
    out = []
    for cn in ('sizeTotal',):
        if not C.con.name.endswith(cn):
            return []
    cs = L.counters()
    if L.idx is not None:
        cs = cs + [('idx', lambda st: L.z(st, L.idx), None)]
    for na, a, za in cs:
        for nb, b, zb in cs:
            if na != nb:
                out.append(('%s swaths before %s' % (na, nb), lambda st, a=a, b=b: And(a(st) >= 0, a(st) == S(b(st)))))
    if L.bound is not None:
        for na, a, za in cs:
            out.append(('%s swaths so far' % na, lambda st, a=a: And(a(st) >= 0, a(st) == S(L.z(st, L.bound[0])))))
    return out


Contract(SB + 'sizeTotal', props=P_, requires=total_pre, invariants=[inv_total],
         ensures=lambda C: [('the number of swaths of all cells', C.res.z == OFF(C.E, data(C.this()))(data(C.this()).n))])


def flat_is(C, r, n):
    """r holds the swaths of the first n groups, one after the other"""
    v = data(C.this())
    S = OFF(C.E, v)
    j, k = qi('j'), qi('k')
    return And(r.n == S(n), z3.ForAll([j, k], Implies(And(0 <= j, j < n, 0 <= k, k < data(at(v, j)).n), r.arr[S(j) + k] == data(at(v, j)).arr[k]),
                                      patterns=[data(at(v, j)).arr[k]]))


def inv_flat(L):
    C = L.E.entry
    if not C.con.name.endswith('flatten'):
        return []
    v = data(C.this())
    S = OFF(C.E, v)
    out = []
    cs = [c for _, c, _0 in L.counters()] + ([lambda st: L.z(st, L.idx)] if L.idx is not None else [])
    for c in cs:
        out.append(('offsets do not decrease', lambda st, c=c: And(S(c(st)) >= 0, fai(0, c(st), lambda q: And(0 <= S(q), S(q) + data(at(v, q)).n <= S(c(st))), pats=lambda q: [v.arr[q]]))))
        for l, w in L.vecs('Swath', True):
            out.append(('swaths of the groups visited', lambda st, l=l, c=c: flat_is(C, L.at(st, l), c(st))))
    return out


Contract(SB + 'flatten', props=P_, requires=total_pre, invariants=[inv_flat], ensures=lambda C: [('the swaths of all cells, cell by cell', flat_is(C, data(C.res), data(C.this()).n))])


def copy_of(C, a, ha, b, hb):
    eq, rv = SEQ(C.E)
    return And(a.n == b.n, fa(b, lambda i, s: And(same_attrs(s, at(a, i)), s.f['creation_dir_'].z == at(a, i).f['creation_dir_'].z, eq(hb[ref(s)], ha[ref(at(a, i))]))))


def copies(C, v, w, st, n):
    h0 = C.pre.heap['pts']
    return And(w.n == n, fa(w, lambda i, s: And(copy_of(C, data(at(v, i)), h0, data(s), st.heap['pts']), fresh_refs(data(s), C.pre.alloc, st.alloc))))


def inv_copy(L):
    C = L.E.entry
    if not C.con.name.endswith('SwathsByCells::clone'):
        return []
    v = data(C.this())
    cs = [c for _, c, _0 in L.counters()] + ([lambda st: L.z(st, L.idx)] if L.idx is not None else [])
    return [('copies so far', lambda st, l=l, c=c: copies(C, v, L.at(st, l), st, c(st))) for l, w in L.vecs('Swaths', True) for c in cs]


Contract(SB + 'clone', props=P_, alloc=True, invariants=[inv_copy],
         ensures=lambda C: [('group by group and swath by swath the same, with paths of their own', copies(C, data(C.this()), data(C.res), C.post, data(C.this()).n))])
