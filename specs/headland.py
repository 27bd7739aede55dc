"""Headlands of constant width: what is left of the field, and the rings along which headland swaths run."""
import z3
from f2cv.contract import Contract
from f2cv.values import *
from f2cv.values import sort_of
from f2cv.sp import *
from f2cv import models as M
from f2cv import geo
from specs.sgobj import flat          # trusted contract of the GEOS buffer

TY = 'f2c::types::'
HG = 'f2c::hg::ConstHL::'
RV = z3.RealVal


def grown(E, c, d):
    """content of cells grown by d (shrunk when negative): named function over the GEOS buffer"""
    f = z3.Function('Grown', sort_of(geo.CONT3), z3.RealSort(), sort_of(geo.CONT3))

    def ax():
        x, r = z3.Const('gr_x', sort_of(geo.CONT3)), z3.Real('gr_r')
        return [z3.ForAll([x, r], f(x, r) == M.geo_of(E, 'Cells', flat(E, x, r)), patterns=[f(x, r)])]
    E.axiom('grown', ax)
    return f(c, d)


def field(C):
    return geo.cont(C.E, C.obj and C.this() if C.con.name.endswith('buffer') else C.arg(0), C.pre.heap)


def is_(C, d):
    return geo.cont(C.E, C.res, C.post.heap) == grown(C.E, field(C), d)


Contract(TY + 'Cells::buffer', sig='(double)', props=['C09'], alloc=True, ensures=lambda C: [('the cells grown by the width', is_(C, C.arg(0).z))])
Contract(HG + 'generateHeadlands', props=['C09'], alloc=True, ensures=lambda C: [('the field shrunk by the width of the headland', is_(C, -C.arg(1).z))])
Contract(HG + 'generateHeadlandArea', props=['C09'], alloc=True, ensures=lambda C: [('the field shrunk by all swaths of the headland', is_(C, -C.arg(1).z * z3.ToReal(C.arg(2).z)))])


def ring(C, heap, V, i):
    return geo.cont(C.E, at(V, i), heap)


def good(C, heap, V, n):
    """the first n rings are those of the headland"""
    E, w, N, F = C.E, C.arg(1).z, C.arg(2).z, field(C)
    i = z3.Int('hl_i')
    r = ring(C, heap, V, i)
    out = C.arg(3).z
    return And(
        Implies(out, z3.ForAll([i], Implies(And(0 <= i, i < n), r == grown(E, F, -w * (z3.ToReal(i) + RV('1/2')))), patterns=[V.arr[i]])),
        Implies(And(Not(out), n > 0), ring(C, heap, V, 0) == grown(E, F, -w * (z3.ToReal(N) - RV('1/2')))),
        Implies(Not(out), z3.ForAll([i], Implies(And(1 <= i, i < n), r == grown(E, ring(C, heap, V, i - 1), w)), patterns=[V.arr[i]])))


def hs_ens(C):
    V, n = C.res, C.arg(2).z
    return [('one ring per swath', V.n == If(n > 0, n, 0)),
            ('the middle lines of the swaths, in the order asked for', good(C, C.post.heap, V, V.n))]


def inv_rings(L):
    C = L.E.entry
    out = []
    for l, v in L.vecs('Cells', True) if False else L.places(lambda x: isinstance(x, Vec) and x.t.e.name == 'Cells'):
        for _, c, _0 in L.counters():
            out.append(('one ring per turn', lambda st, l=l, c=c: And(c(st) >= 0, L.at(st, l).n == c(st))))
            out.append(('no more rings than swaths', lambda st, l=l, c=c: c(st) <= C.arg(2).z))
        i = z3.Int('ir_i')
        out.append(('rings exist', lambda st, l=l: z3.ForAll([i], Implies(And(0 <= i, i < L.at(st, l).n), And(at(L.at(st, l), i).f['data_'].z >= 1, at(L.at(st, l), i).f['data_'].z < st.alloc)), patterns=[L.at(st, l).arr[i]])))
        out.append(('the rings so far', lambda st, l=l: good(C, st.heap, L.at(st, l), L.at(st, l).n)))
    return out


Contract(HG + 'generateHeadlandSwaths', props=['C09'], alloc=True, ensures=hs_ens, invariants=[inv_rings])
