"""Helpers to write specifications."""
import z3
from .values import *
from .values import sort_of
from . import models as M

_n = [0]


def qi(p='q'):
    _n[0] += 1
    return z3.Int('%s~%d' % (p, _n[0]))


def at(v, i):
    return unpack(v.t.e, v.arr[i])


def fa(v, f, lo=0, hi=None, pats=None):
    """for all lo <= i < hi (default size): f(i, v[i])"""
    i = qi('i')
    hi = v.n if hi is None else hi
    return z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), f(i, at(v, i))), patterns=pats(i) if pats else [v.arr[i]])


def fai(lo, hi, f, pats=None):
    i = qi('i')
    b = f(i)
    kw = {'patterns': pats(i)} if pats else {}
    return z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), b), **kw)


def And(*a):
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        return z3.And(*a[0])
    return z3.And(*a) if len(a) != 1 else a[0]


Or, Not, Implies, If, Xor = z3.Or, z3.Not, z3.Implies, z3.If, z3.Xor


def pts_of(heap, ref):
    return unpack(PTS, heap[ref])


def kids_of(heap, ref):
    return unpack(REFS, heap[ref])


def seq_eq(a, b):
    """same length, same elements (point sequences)"""
    return z3.And(a.n == b.n, fa(a, lambda i, x: a.arr[i] == b.arr[i], pats=lambda i: [a.arr[i]] if a.arr.eq(b.arr) else [a.arr[i], b.arr[i]]))


def seq_rev(a, b):
    return z3.And(a.n == b.n, fa(a, lambda i, x: a.arr[i] == b.arr[a.n - 1 - i]),
                  fa(b, lambda i, x: b.arr[i] == a.arr[a.n - 1 - i]))


def rel2(E, name, sort):
    """named relation over two point sequences, unfolded by axiom (keeps quantifiers opaque for the solver)"""
    f = z3.Function(name, sort, sort, z3.BoolSort())
    return f


def SEQ(E):
    """SeqEq / SeqRev: opaque relations on point sequences with their algebra"""
    s = sort_of(PTS)
    eq = z3.Function('SeqEq', s, s, z3.BoolSort())
    rv = z3.Function('SeqRev', s, s, z3.BoolSort())

    def ax():
        a, b, c = z3.Const('sa', s), z3.Const('sb', s), z3.Const('sc', s)
        A, B = unpack(PTS, a), unpack(PTS, b)
        i = z3.Int('sq_i')
        return [
            z3.ForAll([a, b], eq(a, b) == z3.And(A.n == B.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < A.n), A.arr[i] == B.arr[i]), patterns=[A.arr[i], B.arr[i]])), patterns=[eq(a, b)]),
            z3.ForAll([a, b], rv(a, b) == z3.And(A.n == B.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < A.n), A.arr[i] == B.arr[A.n - 1 - i]), patterns=[A.arr[i]])), patterns=[rv(a, b)]),
            z3.ForAll([a, b, c], z3.And(z3.Implies(z3.And(eq(a, b), eq(b, c)), eq(a, c))), patterns=[z3.MultiPattern(eq(a, b), eq(b, c))]),
            z3.ForAll([a, b, c], z3.And(z3.Implies(z3.And(rv(a, b), rv(b, c)), eq(a, c))), patterns=[z3.MultiPattern(rv(a, b), rv(b, c))]),
            z3.ForAll([a, b, c], z3.And(z3.Implies(z3.And(rv(a, b), eq(b, c)), rv(a, c))), patterns=[z3.MultiPattern(rv(a, b), eq(b, c))]),
            z3.ForAll([a, b, c], z3.And(z3.Implies(z3.And(eq(a, b), rv(b, c)), rv(a, c))), patterns=[z3.MultiPattern(eq(a, b), rv(b, c))]),
        ]
    E.axiom('seq', ax)
    return eq, rv


def PERMR(E, t, keyf, tag):
    """PermR(a,b): the keys keyf(.) of b are a rearrangement of those of a"""
    vt = T('vec', None, (t,))
    s = sort_of(vt)
    P = z3.Function('PermR_' + tag, s, s, z3.BoolSort())
    W = z3.Function('PermRIx_' + tag, s, s, z3.IntSort(), z3.IntSort())
    Wi = z3.Function('PermRInv_' + tag, s, s, z3.IntSort(), z3.IntSort())
    D = z3.Function('PermRDiff_' + tag, s, s, z3.IntSort())
    P0, _, _ = M.perm_rel(E, t)

    def ax():
        a, b, c = z3.Const('ra', s), z3.Const('rb', s), z3.Const('rc', s)
        i = z3.Int('ri_')
        A, B = unpack(vt, a), unpack(vt, b)
        k = lambda v, j: keyf(at(v, j))
        return [
            z3.ForAll([a, b, c], z3.Implies(z3.And(P(a, b), P(b, c)), P(a, c)), patterns=[z3.MultiPattern(P(a, b), P(b, c))]),
            z3.ForAll([a, b], z3.Implies(P0(a, b), P(a, b)), patterns=[P0(a, b)]),
            z3.ForAll([a, b], z3.Implies(P(a, b), A.n == B.n), patterns=[P(a, b)]),
            # pointwise equal keys: the identity rearrangement
            z3.ForAll([a, b], z3.Or(P(a, b), A.n != B.n, z3.And(0 <= D(a, b), D(a, b) < A.n, k(A, D(a, b)) != k(B, D(a, b)))), patterns=[P(a, b)]),
            # ... before or after a rearrangement
            z3.ForAll([a, b, c], z3.Or(P(a, c), z3.Not(P0(b, c)), A.n != B.n, z3.And(0 <= D(a, b), D(a, b) < A.n, k(A, D(a, b)) != k(B, D(a, b)))),
                      patterns=[z3.MultiPattern(P(a, c), P0(b, c))]),
            z3.ForAll([a, b, c], z3.Or(P(a, c), z3.Not(P(a, b)), B.n != unpack(vt, c).n, z3.And(0 <= D(b, c), D(b, c) < B.n, k(B, D(b, c)) != k(unpack(vt, c), D(b, c)))),
                      patterns=[z3.MultiPattern(P(a, c), P(a, b))]),
            z3.ForAll([a, b, i], z3.Implies(z3.And(P(a, b), 0 <= i, i < B.n),
                                            z3.And(0 <= W(a, b, i), W(a, b, i) < A.n, k(B, i) == k(A, W(a, b, i)), Wi(a, b, W(a, b, i)) == i)),
                      patterns=[z3.MultiPattern(P(a, b), B.arr[i]), W(a, b, i)]),
            z3.ForAll([a, b, i], z3.Implies(z3.And(P(a, b), 0 <= i, i < A.n),
                                            z3.And(0 <= Wi(a, b, i), Wi(a, b, i) < B.n, W(a, b, Wi(a, b, i)) == i)),
                      patterns=[Wi(a, b, i)]),
        ]
    E.axiom('permr_' + tag, ax)
    return P, W, Wi
