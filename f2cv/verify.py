"""Driver: verifies one function of /repo against its contract, and discharges the obligations."""
import os
import re
import subprocess
import tempfile
import time
import traceback
import z3
from . import fe
from .values import *
from .values import sort_of
from .engine import limit, solve, cpu, Engine, Frame, CallCtx, State, PathEnd, ThrowX, ret_type, parse_type_of_class, Obligation, cvc5_unsat, split_goal
from . import contract as CT

Z3_MS = int(os.environ.get('F2CV_Z3_MS', '8000'))
CVC5_MS = int(os.environ.get('F2CV_CVC5_MS', '15000'))


def make_engine(prog):
    import z3 as _z
    E = Engine(prog, CT.REG)
    E.cur_node = None
    E.M_ext = None
    return E


def verify(prog, con, budget=240):
    """all bodies that carry this contract; returns a list of result dicts"""
    out = []
    if con.trusted:
        return out
    fs = con.find(prog)
    if not fs:
        return [{'function': con.key, 'status': 'missing', 'reason': 'no function body with this name in the current source', 'obligations': [],
                 'props': con.props}]
    for f in fs:
        out.append(verify_fn(prog, con, f, budget))
    return out


def verify_fn(prog, con, f, budget=240):
    t0 = time.time()
    E = make_engine(prog)
    c0 = cpu()
    E.deadline = c0 + budget * 0.6
    E.cur = con.short
    E.cur_node = f
    E.spec = con
    rep = {'function': con.name, 'contract': con.key, 'type': f.raw.get('qt'), 'where': E.where(f), 'props': con.props,
           'obligations': [], 'status': None, 'reason': None}
    try:
        paths = explore_fn(E, con, f, rep)
        rep['paths'] = paths
        discharge(E, rep, c0 + budget)
    except Unsupported as u:
        rep['status'], rep['reason'] = 'unsupported', str(u)
    except ThrowX as u:
        rep['status'], rep['reason'] = 'unsupported', 'exception %s outside the explored body' % u.typ
    except (RecursionError, KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception, AssertionError, ValueError) as e:
        rep['status'], rep['reason'] = 'unsupported', 'verifier has no rule: %s: %s' % (type(e).__name__, str(e)[:300])
        rep['trace'] = traceback.format_exc()[-1800:]
    rep['time'] = round(time.time() - t0, 2)
    rep['solver_time'] = round(E.solver_time, 2)
    rep['queries'] = E.nqueries
    rep['inlined'] = sorted(E.inlined)
    rep['used_contracts'] = sorted(E.used_contracts)
    rep['trusted_models'] = sorted(E.used_models)
    rep['assumptions'] = sorted(E.assumptions)
    rep['loops'] = [{'where': w, 'invariants': k, 'dropped': d} for w, k, d in E.loopinfo]
    return rep


def param_root(E, p, k):
    t = parse_type(p.t)
    pn = p.name or 'arg%d' % k
    root = ('v', pn, -1 - k)
    if t.kind in ('opaque', 'iter'):
        v = Opq(t, z3.Const('arg_' + pn, OpqSort))
    else:
        v = unpack(t, z3.Const('arg_' + pn, sort_of(t)))
    E.st.vars[root] = v
    return Loc(root)


def explore_fn(E, con, f, rep):
    st = E.st = State()
    st.heap = {'pts': z3.Const('heap_pts0', z3.ArraySort(z3.IntSort(), sort_of(PTS))),
               'kids': z3.Const('heap_kids0', z3.ArraySort(z3.IntSort(), sort_of(REFS)))}
    st.alloc = z3.Int('alloc0')
    E.assume(st.alloc >= 1)
    x = z3.Int('hwf')
    # heap well-formedness: sizes of existing geometries
    P0 = unpack(PTS, st.heap['pts'][x])
    K0 = unpack(REFS, st.heap['kids'][x])
    E.assume(z3.ForAll([x], z3.And(P0.n >= 0, P0.n < (1 << 31) - 1), patterns=[st.heap['pts'][x]]))
    E.assume(z3.ForAll([x], z3.And(K0.n >= 0, K0.n < (1 << 31) - 1), patterns=[st.heap['kids'][x]]))
    i = z3.Int('hwfi')
    E.assume(z3.ForAll([x, i], z3.Implies(z3.And(x < st.alloc, 0 <= i, i < K0.n), z3.And(K0.arr[i] >= 1, K0.arr[i] < st.alloc)),
                       patterns=[K0.arr[i]]))
    ps = [p for p in f.kids if p is not None and p.kind == 'ParmVarDecl']
    locs = [param_root(E, p, k) for k, p in enumerate(ps)]
    this = None
    isctor = f.kind == 'CXXConstructorDecl'
    static = f.raw.get('storageClass') == 'static'
    if f.kind in ('CXXMethodDecl', 'CXXConversionDecl', 'CXXDestructorDecl') and not static or isctor:
        t = parse_type_of_class(f)
        inst = f.raw.get('clsn')
        if t.name in ('Geometry', 'Geometries'):
            t = self_type(f)
        root = ('v', 'this', -100)
        if t.name not in REC_FIELDS:
            raise Unsupported('class %s' % t.name)
        st.vars[root] = unpack(t, z3.Const('this', sort_of(t))) if rec_fields(t) else Rec(t, {})
        if isctor:
            if t.name in GEO_ALL:
                st.vars[root] = E.new_geo(t.name)
        else:
            E.assume_wf(st.vars[root])
        this = Loc(root)
    for l in locs:
        v = E.read(l)
        if not isinstance(v, Opq):
            E.assume_wf(v)
    pre = st.copy()
    C = CallCtx(E, con, f, this, locs, pre)
    C.post = pre
    E.entry = C
    for nm, g in con.requires(C) or []:
        E.assume(g)
    for nm, g in (con.assume(C) if con.assume else []):
        E.assume(g)
        E.assumptions.add('%s: %s' % (con.short, nm))
    pre.pc = list(E.st.pc)
    if E.check(E.st.pc, timeout=3000) == 'unsat':
        raise Unsupported('vacuous: precondition is unsatisfiable')
    fr = Frame(f, this=this)
    for p, l in zip(ps, locs):
        fr.env[p.id] = l
    E.frames = [fr]
    npaths = [0, 0]

    def body():
        if isctor:
            E.run_ctor_inits(f, this)
        for c in f.kids:
            if c is not None and c.kind in ('CompoundStmt', 'CXXTryStmt'):
                E.ex(c)

    def end(st, out):
        npaths[0] += 1
        E.st = st
        C.post = st
        thr = con.throws(C) if con.throws else []
        if out[0] == 'throw':
            x = out[1]
            conds = [c for t, c in thr if t == x.typ]
            if x.typ in con.maythrow:
                return
            E.oblige('exits by %s only when specified' % x.typ, z3.Or(conds) if conds else z3.BoolVal(False), x.node or f, 'exception')
            return
        if out[0] not in ('normal', 'return'):
            raise Unsupported('path ends by ' + out[0])
        npaths[1] += 1
        for t, c in thr:
            E.oblige('throws %s whenever specified' % t, z3.Not(c), f, 'exception')
        rts = ret_type(f)
        C.res = Void()
        if rts is not None and rts != 'void' and out[0] == 'return':
            v = out[1]
            C.resloc = v if isinstance(v, Loc) else None
            if con.ret is not None:
                want = con.ret(C)
                ok = isinstance(v, Loc) and v.root == want.root and len(v.path) == len(want.path) and all(
                    a[0] == b[0] and (a[1] == b[1] if not z3.is_expr(a[1]) and not z3.is_expr(b[1]) else True) for a, b in zip(v.path, want.path))
                E.oblige('returned reference designates the specified object', z3.And(
                    [a[1] == b[1] for a, b in zip(v.path, want.path) if z3.is_expr(a[1]) or z3.is_expr(b[1])] or [z3.BoolVal(True)]) if ok else z3.BoolVal(False), f, 'postcondition')
            if isinstance(v, Loc):
                v = E.read(v)
            rt = parse_type(rts)
            if rt.kind not in ('opaque', 'iter', 'ptr'):
                v = E.coerce(v, rt)
            C.res = v
        frame_obligations(E, con, C, f)
        for nm, g in con.ensures(C) or []:
            if callable(g):
                g = g()
            E.oblige('postcondition: ' + nm, g, f, 'postcondition')
        if not rep.get('covered'):
            if E.check([p for p in st.pc], timeout=2000) != 'unsat':
                rep['covered'] = True
    E.explore(body, end)
    E.frames = []
    if not npaths[1] and not con.throws:
        raise Unsupported('vacuous: no path reaches the end of the function')
    if npaths[1] and not rep.get('covered'):
        raise Unsupported('vacuous: every path to the end is contradictory')
    return npaths[0]


def self_type(f):
    q = f.raw.get('clsn')
    if q is not None:
        for k in q.kids:
            if k is not None and k.kind == 'TemplateArgument' and k.t:
                nm = parse_type(k.t)
                if nm.kind == 'rec' and nm.name in REC_FIELDS:
                    return nm
    raise Unsupported('template instance type')


def frame_obligations(E, con, C, f):
    mods = con.modifies(C) or []
    roots = {}
    for l in mods:
        if not isinstance(l, str):
            roots.setdefault(l.root, []).append(l)
    objs = [('*this', C.obj)] if C.obj is not None and f.kind != 'CXXConstructorDecl' else []
    ps = [p for p in f.kids if p is not None and p.kind == 'ParmVarDecl']
    for p, l in zip(ps, C.locs):
        if (p.raw.get('qt') or p.t).rstrip().endswith('&') or p.t.rstrip().endswith('&'):
            objs.append((p.name or 'arg', l))
    for nm, l in objs:
        a, b = C.pre.vars[l.root], C.post.vars[l.root]
        if a is b:
            continue
        ms = roots.get(l.root, [])
        if any(not m.path for m in ms):
            continue
        frame_eq(E, nm, a, b, [tuple(x for _, x in m.path) for m in ms], f)
    x = z3.Int('fr_x')
    for k in ('pts', 'kids'):
        if k in mods:
            continue
        h0, h1 = C.pre.heap[k], C.post.heap[k]
        if h0.eq(h1):
            continue
        E.oblige('frame: geometries existing at the call keep their %s' % ('points' if k == 'pts' else 'children'),
                 z3.ForAll([x], z3.Implies(z3.And(1 <= x, x < C.pre.alloc), h1[x] == h0[x])), f, 'frame')
    if not con.alloc and 'alloc' not in mods and not C.pre.alloc.eq(C.post.alloc):
        raise Unsupported('contract of %s does not declare that it creates geometries' % con.short)


def frame_eq(E, nm, a, b, mods, f):
    if isinstance(a, Rec) and isinstance(b, Rec) and a.t.name != 'Point':
        for k in a.f:
            sub = [m[1:] for m in mods if m and m[0] == k]
            if any(not m for m in sub):
                continue
            if a.f[k] is not b.f[k]:
                frame_eq(E, nm + '.' + k, a.f[k], b.f[k], sub, f)
        return
    za, zb = pack(a), pack(b)
    if not za.eq(zb):
        E.oblige('frame: %s unchanged' % nm, veq(a, b), f, 'frame')


# ------------------------------------------------------------------ discharge
def discharge(E, rep, deadline):
    bad = 0
    for o in E.obls:
        d = {'name': o.name, 'where': o.where, 'kind': o.kind}
        if o.status == 'proved':
            d['status'], d['backend'], d['time'] = 'proved', o.backend, 0.0
            rep['obligations'].append(d)
            continue
        if bad >= 6:
            d['status'] = 'not attempted'
            rep['obligations'].append(d)
            continue
        t = time.time()
        st, be, extra = prove(E, o, deadline)
        d['status'], d['backend'], d['time'] = st, be, round(time.time() - t, 3)
        if st != 'proved':
            bad += 1
            d['detail'] = extra
        rep['obligations'].append(d)
    if not rep['obligations']:
        rep['status'], rep['reason'] = 'unsupported', 'vacuous: no obligation generated'
        return
    rep['status'] = 'proved' if all(d['status'] == 'proved' for d in rep['obligations']) else 'failed'


def prove(E, o, deadline):
    """z3 by pattern-based instantiation, then cvc5, then z3 with model-based instantiation"""
    EM = {'smt.mbqi': False, 'auto_config': False}
    configs = [('z3', EM, 4000), ('cvc5', None, 6000), ('z3', dict(EM, **{'smt.random_seed': 7, 'smt.arith.solver': 2}), 4000),
               ('z3', {}, Z3_MS), ('cvc5', '--enum-inst', CVC5_MS)]
    last = ''
    bes = set()
    # whole goal first, then case by case
    if E.check(o.pc, o.goal, timeout=3000) == 'unsat':
        return 'proved', 'z3', ''
    for hy, g in split_goal(o.goal):
        ok = False
        if E.check(o.pc + hy, g, timeout=2500) == 'unsat':
            bes.add('z3')
            continue
        for be, opts, ms in configs:
            left = deadline - cpu()
            if left <= 0.5:
                return 'unknown', 'time budget', 'time budget of the function exhausted'
            s = z3.SimpleSolver() if be == 'z3' and opts else z3.Solver()
            for a in E.axioms:
                s.add(a)
            for h in o.pc + hy:
                s.add(h)
            s.add(z3.Not(g))
            t = time.time()
            E.nqueries += 1
            if be == 'cvc5':
                r = cvc5_unsat(s, ms, opts)
                E.solver_time += time.time() - t
                if r:
                    ok = True
                    bes.add('cvc5')
                    break
                continue
            limit(s, ms, left * 1000)
            for k, v in opts.items():
                s.set(k, v)
            try:
                r = solve(s)
            except z3.Z3Exception as e:
                last = 'unknown (%s)' % e
                continue
            finally:
                E.solver_time += time.time() - t
            if r == z3.unsat:
                ok = True
                bes.add('z3')
                break
            last = 'unknown (%s)' % s.reason_unknown() if r != z3.sat else 'sat'
            if r == z3.sat:
                try:
                    m = s.model()
                    last = 'counterexample: ' + '; '.join('%s = %s' % (d, str(m[d])[:120]) for d in m.decls()[:40] if d.arity() == 0)
                except z3.Z3Exception:
                    pass
                return 'refuted', 'z3', last
        if not ok:
            return 'unknown', 'z3+cvc5', last + ' | goal: ' + str(g)[:600]
    return 'proved', '+'.join(sorted(bes)), ''
