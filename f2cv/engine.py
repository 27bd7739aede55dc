"""Verification-condition generator: symbolic execution of one function body at a time over the clang AST,
callees known by contract (or inlined when they are contract-less helpers of the repository), loops cut by
inductive invariants.  Paths are enumerated by re-execution under a decision oracle."""
import os
import resource
import subprocess
import threading
import time
import re
import z3
from fractions import Fraction
from .values import *
from .values import sort_of
from . import fe


def mentions_big(z, _c={}):
    k = z.get_id()
    seen = set()
    todo = [z]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_int_value(x) and x.as_long() >= 1 << 63:
            return True
        if len(seen) < 60 and z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            todo += x.children()
    return False


SCALE = [float(os.environ.get('F2CV_SCALE', '1'))]    # multiplies every solver time limit (retries on a loaded machine)


CAL = [0] if os.environ.get('F2CV_CAL') else None


def rcount(s):
    for k, v in s.statistics():
        if k == 'rlimit count':
            return v
    return 0


RL_PER_MS = 5000      # z3 resource units that take about one millisecond on an idle core of this sandbox (measured, see DESIGN.md)
WALL = 20.0       # the wall clock is only a backstop: other processes may share the machine
CPU_PER_MS = 2.0  # processor time after which a query is given up, per millisecond of its nominal limit


def cpu():
    """processor seconds of this process and its solvers: what the budgets of a function body are counted in"""
    return sum(os.times()[:4])


WATCH = {'pid': None, 'until': None}


def watchdog():
    while True:
        time.sleep(0.03)
        u = WATCH['until']
        if u is not None and time.process_time() > u:
            WATCH['until'] = None
            z3.main_ctx().interrupt()


def limit(s, ms, cap=None):
    """limits a z3 query by its resource counter and by processor time, which do not depend on the load of the machine; the wall clock is
    only a backstop"""
    ms = min(ms * SCALE[0], cap) if cap else ms * SCALE[0]
    s.set('rlimit', max(1, int(ms * RL_PER_MS)))
    s.set('timeout', int(ms * WALL + 1000))
    s.f2cv_ms = ms


def solve(s):
    """s.check() within the limits set by limit()"""
    if WATCH['pid'] != os.getpid():
        WATCH['pid'], WATCH['until'] = os.getpid(), None
        threading.Thread(target=watchdog, daemon=True).start()
    WATCH['until'] = time.process_time() + max(s.f2cv_ms * CPU_PER_MS / 1000.0, 0.1)
    try:
        return s.check()
    finally:
        WATCH['until'] = None


def cvc5_unsat(s, ms, opt=None):
    """second back end: the same query given to cvc5"""
    ms = int(ms * SCALE[0])
    s2 = z3.Solver()
    for a in (s.assertions() if not isinstance(s, list) else s):
        s2.add(a)
    s = s2
    txt = '(set-logic ALL)\n' + re.sub(r'\(set-info[^)]*\)', '', s.to_smt2())
    try:
        lim = int(ms * 1.5 / 1000) + 1
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (ms * WALL)] + ([opt] if opt else []) + ['-'], input=txt.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=ms * WALL / 1000.0 + 5, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (lim, lim + 2)))
        return p.stdout.decode().strip().startswith('unsat')
    except subprocess.TimeoutExpired:
        return False


_syms = {}


_hq = {}
TRACE = os.environ.get('F2CV_TRACE')


def has_quant(e):
    k = e.get_id()
    r = _hq.get(k)
    if r is None:
        todo, seen, r = [e], set(), False
        while todo:
            x = todo.pop()
            if z3.is_quantifier(x):
                r = True
                break
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            todo += x.children()
        _hq[k] = (r, e)
        return r
    return r[0]


def symbols(z):
    """names of the uninterpreted functions in a formula"""
    r = _syms.get(z.get_id())
    if r is not None and r[0].eq(z):
        return r[1]
    out, seen, todo = set(), set(), [z]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                out.add(x.decl().name())
            todo += x.children()
    _syms[z.get_id()] = (z, out)
    return out


_cst = {}


def constants(z):
    """names of the constants in a formula (bound variables excluded)"""
    r = _cst.get(z.get_id())
    if r is not None and r[0].eq(z):
        return r[1]
    out, seen, todo = set(), set(), [z]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.num_args():
                out.add(x.decl().name())
            todo += x.children()
    _cst[z.get_id()] = (z, out)
    return out


def slice_hyps(hyps, goal):
    """the hypotheses without quantifiers, and the quantified ones that speak of constants of the goal only"""
    names = constants(goal)
    return [h for h in hyps if not has_quant(h) or constants(h) <= names]


_sk = [0]


def find_ite(z, skip_q=True):
    """an ite subterm outside quantifiers, innermost condition first"""
    seen = set()
    todo = [z]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE and x.sort() != z3.BoolSort():
                y = find_ite(x.arg(0))
                return y if y is not None else x.arg(0)
            todo += x.children()
    return None


def split_goal(g, depth=6):
    """[(extra hypotheses, goal)]: skolemise, split conjunctions, and case-split on conditional terms"""
    if z3.is_quantifier(g) and g.is_forall():
        vs = []
        for k in range(g.num_vars()):
            _sk[0] += 1
            vs.append(z3.Const('sk_%s!%d' % (g.var_name(k).split('~')[0], _sk[0]), g.var_sort(k)))
        return split_goal(z3.substitute_vars(g.body(), *reversed(vs)), depth)
    if z3.is_and(g):
        return [x for c in g.children() for x in split_goal(c, depth)]
    if z3.is_implies(g):
        return [([g.arg(0)] + h, c) for h, c in split_goal(g.arg(1), depth)]
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_ITE and g.sort() == z3.BoolSort():
        c = g.arg(0)
        return [([c] + h, x) for h, x in split_goal(g.arg(1), depth)] + [([z3.Not(c)] + h, x) for h, x in split_goal(g.arg(2), depth)]
    if depth > 0:
        c = find_ite(g)
        if c is not None:
            T_, F_ = z3.BoolVal(True), z3.BoolVal(False)
            a = z3.substitute(g, (c, T_))
            b = z3.substitute(g, (c, F_))
            fold = lambda x: fold_ite(x)
            return [([c] + h, x) for h, x in split_goal(fold(a), depth - 1)] + [([z3.Not(c)] + h, x) for h, x in split_goal(fold(b), depth - 1)]
    return [([], g)]


def fold_ite(z, memo=None):
    """ite(true,a,b) -> a, ite(false,a,b) -> b"""
    memo = {} if memo is None else memo
    k = z.get_id()
    if k in memo:
        return memo[k]
    if not z3.is_app(z) or z.num_args() == 0:
        r = z
    else:
        if z.decl().kind() == z3.Z3_OP_ITE and z3.is_true(z.arg(0)):
            r = fold_ite(z.arg(1), memo)
        elif z.decl().kind() == z3.Z3_OP_ITE and z3.is_false(z.arg(0)):
            r = fold_ite(z.arg(2), memo)
        else:
            ch = [fold_ite(c, memo) for c in z.children()]
            r = z if all(a.eq(b) for a, b in zip(ch, z.children())) else z.decl()(*ch)
    memo[k] = r
    return r


class PathEnd(Exception):
    pass


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class ThrowX(Exception):
    def __init__(self, typ, node=None):
        self.typ, self.node = typ, node


PI = z3.Real('pi')
B64 = 1 << 64


class State(object):
    def __init__(self):
        self.vars = {}
        self.heap = {}
        self.pc = []
        self.alloc = None
        self.nroot = 0
        self.log = ()
        self.roots = ()
        self.pure = True

    def copy(self):
        s = State()
        s.vars = dict(self.vars)
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.alloc = self.alloc
        s.nroot = self.nroot
        s.log = self.log
        s.roots, s.pure = self.roots, self.pure
        return s


class Frame(object):
    def __init__(self, fn, this=None, env=None):
        self.fn, self.this, self.env = fn, this, env if env is not None else {}


class Obligation(object):
    __slots__ = ('name', 'where', 'pc', 'goal', 'fn', 'status', 'time', 'backend', 'model', 'key', 'axioms', 'kind', 'hyps')

    def __init__(self, name, where, pc, goal, fn, kind):
        self.name, self.where, self.pc, self.goal, self.fn, self.kind = name, where, pc, goal, fn, kind
        self.status = None
        self.time = 0.0
        self.backend = None
        self.model = None


EXC_BASES = {'out_of_range': ['logic_error', 'exception'], 'invalid_argument': ['logic_error', 'exception'],
             'length_error': ['logic_error', 'exception'], 'domain_error': ['logic_error', 'exception'],
             'runtime_error': ['exception'], 'logic_error': ['exception'], 'bad_optional_access': ['exception']}


class Hierarchy(object):
    """classes of the program with their bases and methods, for virtual calls"""

    def __init__(self, E):
        self.n = len(E.prog.tus)
        self.bases, self.methods, self.virt = {}, {}, set()
        for qn, r in E.prog.records.items():
            x = qn.split('<')[0].split('::')[-1]
            bs = self.bases.setdefault(x, [])
            for b in r.raw.get('bases') or []:
                bt = b['type'].get('desugaredQualType') or b['type']['qualType']
                b = re.sub(r'<.*', '', bt).split('::')[-1]
                if b not in bs:
                    bs.append(b)
        for tu in E.prog.tus.values():
            for f in tu.funcs:
                if f.kind == 'CXXMethodDecl' and f.raw.get('cls'):
                    x = f.raw['cls'].split('::')[-1]
                    sg = E.sig_of(f)
                    if not (x, sg) in self.methods or f.raw.get('mangledName') and not self.methods[(x, sg)].raw.get('mangledName'):
                        self.methods[(x, sg)] = f
                    if f.raw.get('virtual'):
                        self.virt.add((x, sg))

    def up(self, x):
        out = [x]
        for y in out:
            out += [b for b in self.bases.get(y, []) if b not in out]
        return out

    def down(self, x):
        return [y for y in self.bases if x in self.up(y)]

    def virtual(self, x, sig):
        return any((y, sig) in self.virt for y in self.up(x))


class Engine(object):
    def __init__(self, prog, contracts=None):
        self.prog = prog
        self.contracts = contracts or {}
        self.st = State()
        self.axioms = []
        self._axkeys = set()
        self.pairax = []
        self.obls = []
        self.oblkeys = set()
        self.quiet = 0
        self.dec = []
        self.pos = 0
        self.work = None
        self.cnt = 0
        self.feas = {}
        self.loopcache = {}
        self.loopstack = []
        self.modphase = 0
        self.ctxkey = []      # what is assumed about the enclosing loops under analysis
        self.frames = []
        self.depth = 0
        self.used_models = set()
        self.inlined = set()
        self.used_contracts = set()
        self.chk_contracts = set()
        self.solver_time = 0.0
        self.nqueries = 0
        self.houdini_obls = 0
        self.dropmemo = {}
        self.cur = None
        self.cur_node = None
        self.M_ext = None
        self.spec = None
        self.entry = None
        self.nestkey = ()
        self.assumptions = set()
        self.loopinfo = []
        self.deadline = None
        self.houdini_timeout = 1500
        from . import models
        self.M = models
        self.init_records()

    # ------------------------------------------------------------ records
    def init_records(self):
        for qn, n in self.prog.records.items():
            short = qn.split('::')[-1] if '<' not in qn else None
            if short is None or short in GEO_ALL or short == 'Point' or short in ('Geometry', 'Geometries'):
                continue
            KNOWN_RECS.add(short)
        for tu in self.prog.tus.values():
            for d in tu.decls.values():
                if d.kind == 'EnumDecl' and d.name:
                    ENUMS.add(d.name)
        self.recnodes = {}
        for qn, n in self.prog.records.items():
            if '<' in qn:
                continue
            short = qn.split('::')[-1]
            if short in GEO_ALL or short == 'Point' or short in ('Geometry', 'Geometries'):
                self.recnodes.setdefault(short, n)
                continue
            self.recnodes.setdefault(short, n)
        from . import values as _v
        _v._pcache.clear()
        for short, n in self.recnodes.items():
            if short in GEO_ALL or short in ('Point', 'Geometry', 'Geometries', 'Iterator', 'ConstIterator', 'Private'):
                continue
            REC_FIELDS[short] = self._fields(n)

    def bases(self, n):
        out = []
        for b in n.raw.get('bases') or []:
            bt = b['type'].get('desugaredQualType') or b['type']['qualType']
            nm = re.sub(r'<.*', '', bt).split('::')[-1]
            if nm in self.recnodes:
                out.append(nm)
        return out

    def _fields(self, n):
        fs = []
        for b in self.bases(n):
            if b in GEO_ALL or b == 'Point':
                fs += REC_FIELDS[b]
            else:
                fs += self._fields(self.recnodes[b])
        for c in n.kids:
            if c is not None and c.kind == 'FieldDecl' and c.name:
                fs.append((c.name, parse_type(c.t)))
        return fs

    def is_subclass(self, d, b):
        if d == b:
            return True
        n = self.recnodes.get(d)
        return n is not None and any(self.is_subclass(x, b) for x in self.bases(n))

    # ------------------------------------------------------------ basics
    def fresh(self, name, sort):
        self.cnt += 1
        return z3.Const('%s!%d' % (name, self.cnt), sort)

    def fresh_v(self, name, t):
        if t.kind in ('opaque', 'iter', 'void'):
            return Opq(t, self.fresh(name, OpqSort))
        v = unpack(t, self.fresh(name, sort_of(t)))
        self.assume_wf(v)
        return v

    def assume(self, c):
        if c is True or (z3.is_expr(c) and z3.is_true(c)):
            return
        if c is False:
            c = z3.BoolVal(False)
        self.st.pc.append(c)

    def axiom(self, key, f, pair=False):
        """pair: an axiom that instantiates for pairs of terms, given to the solver only when it fails without"""
        key = (key, pair)
        if key not in self._axkeys:
            self._axkeys.add(key)
            (self.pairax if pair else self.axioms).extend(f() if callable(f) else f)

    def wf(self, v, depth=0):
        """type invariants of a C++ value: integer ranges, container sizes, valid references"""
        out = []
        if isinstance(v, Sc):
            t = v.t
            if t.kind == 'int':
                if t.signed:
                    out.append(z3.And(v.z >= -(1 << (t.bits - 1)), v.z < (1 << (t.bits - 1))))
                else:
                    out.append(z3.And(v.z >= 0, v.z < (1 << t.bits)))
            elif t.kind == 'ptr':
                out.append(z3.And(v.z >= 1, v.z < self.st.alloc))
        elif isinstance(v, Rec):
            for f in v.f.values():
                out += self.wf(f, depth)
        elif isinstance(v, Opt):
            out += [z3.Implies(v.has, c) for c in self.wf(v.v, depth)]
        elif isinstance(v, Vec):
            out.append(z3.And(v.n >= 0, v.n < (1 << 31) - 1))
            if depth < 3 and not isinstance(v.t.e, str):
                i = z3.Int('wf_i%d' % depth)
                try:
                    ew = self.wf(unpack(v.t.e, v.arr[i]), depth + 1)
                except Unsupported:
                    ew = []
                if ew:
                    out.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.n), z3.And(ew)), patterns=[v.arr[i]]))
        elif isinstance(v, Map):
            out.append(v.n >= 0)
            if depth == 0:
                k = z3.Const('wf_kn', sort_of(v.t.args[0]))
                out.append(z3.ForAll([k], z3.Implies(v.dom[k], v.n > 0), patterns=[v.dom[k]]))
            if depth < 3:
                k = z3.Const('wf_k%d' % depth, sort_of(v.t.args[0]))
                kw = self.wf(unpack(v.t.args[0], k), depth + 1)
                vw = self.wf(unpack(v.t.args[1], v.val[k]), depth + 1)
                if kw + vw:
                    out.append(z3.ForAll([k], z3.Implies(v.dom[k], z3.And(kw + vw)), patterns=[v.dom[k], v.val[k]]))
        return out

    def assume_wf(self, v):
        for c in self.wf(v):
            self.assume(c)

    # ------------------------------------------------------------ solver
    def relevant(self, goal):
        """axioms without those of relation families the goal does not mention (leaving out a hypothesis is always sound)"""
        names = symbols(goal)
        out = [a for a in self.axioms if not any(any(x.startswith(f) for x in symbols(a)) and not any(x.startswith(f) for x in names) for f in ('Perm', 'Seq'))]
        return out if len(out) != len(self.axioms) else None

    def qf_check(self, hyps, goal, timeout=300):
        """the same question with the quantifier-free hypotheses only: 'unsat' still proves the goal"""
        s = z3.SimpleSolver()
        limit(s, timeout)
        for h in hyps:
            if not has_quant(h):
                s.add(h)
        s.add(z3.Not(goal))
        t = time.time()
        self.nqueries += 1
        try:
            return str(solve(s))
        except z3.Z3Exception:
            return 'unknown'
        finally:
            self.solver_time += time.time() - t

    def query(self, axioms, hyps, goal, ms, ext=None):
        """one z3 query by pattern-based instantiation; ext: with extensionality of arrays"""
        s = z3.SimpleSolver()
        limit(s, ms)
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        if ext is None:      # contents of geometries are compared by their own axioms
            ext = ('cont2', False) not in self._axkeys
        s.set('smt.array.extensional', ext)
        for a in axioms:
            s.add(a)
        for h in hyps:
            s.add(h)
        if goal is not None:
            s.add(z3.Not(goal))
        t = time.time()
        self.nqueries += 1
        try:
            r = str(solve(s))
        except z3.Z3Exception:
            r = 'unknown'
        if CAL:
            n = rcount(s)
            print('CAL %.4f %d %s' % (time.time() - t, n - CAL[0], r), flush=True)
            CAL[0] = n
        self.solver_time += time.time() - t
        if TRACE and time.time() - t > 0.4:
            print('     qq %.1fs %s ext=%s nax=%d ms=%d %s' % (time.time() - t, r, ext, len(axioms), ms, s.reason_unknown() if r == 'unknown' else ''), flush=True)
        return r

    def check(self, hyps, goal=None, timeout=1500, alt=0):
        """'unsat' (proved) / 'sat' / 'unknown' of hyps & !goal"""
        t = time.time()
        if goal is None:
            r = self.query(self.axioms, hyps, None, timeout)
        else:
            few = self.relevant(goal)
            r = 'unknown' if few is None else self.query(few, hyps, goal, timeout)
            if r != 'unsat' and timeout >= 2000:
                sl = slice_hyps(hyps, goal)
                if len(sl) < len(hyps) and self.query([], sl, goal, 700) == 'unsat':
                    r = 'unsat'
            if r != 'unsat':
                r = self.query(self.axioms, hyps, goal, timeout)
            if r != 'unsat' and self.pairax and timeout >= 1000:
                r = self.query(self.axioms + self.pairax, hyps, goal, timeout)
        if r == 'unknown' and goal is not None and alt:
            subs = split_goal(goal)
            if 1 < len(subs) <= 40:
                tmax = cpu() + alt / 500.0 * SCALE[0]
                r = 'unsat'
                for h, g in subs:
                    if cpu() > tmax or self.check(list(hyps) + h, g, timeout=timeout, alt=0) != 'unsat':
                        r = 'unknown'
                        break
                if r == 'unsat':
                    return r
                r = 'unknown'
            if cvc5_unsat(self.axioms + list(hyps) + [z3.Not(goal)], alt):
                r = 'unsat'
        self.solver_time += time.time() - t
        if goal is not None and os.environ.get('F2CV_DUMP') and time.time() - t > float(os.environ.get("F2CV_SLOW", "4")):
            self.dump('slow', hyps, goal)
        if TRACE and time.time() - t > 0.4:
            print('   q %.1fs %s %s' % (time.time() - t, r, str(goal)[:80].replace('\n', ' ')), flush=True)
        return r

    def dump(self, nm, pc, g):
        d = os.environ.get('F2CV_DUMP')
        if d:
            s = z3.Solver()
            for a in self.axioms + list(pc):
                s.add(a)
            s.add(z3.Not(g))
            self.ndump = getattr(self, 'ndump', 0) + 1
            open('%s/%03d_%s.smt2' % (d, self.ndump, re.sub(r'\W+', '_', nm)[:60]), 'w').write(s.to_smt2())

    def feasible(self, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = tuple(p.get_id() for p in self.st.pc) + (c.get_id(), len(self.axioms))
        r = self.feas.get(key)
        if r is None:
            pc = list(self.st.pc)
            r = (self.qf_check(pc, z3.Not(c), 60) != 'unsat' and self.check(pc + [c], timeout=70) != 'unsat', pc, c)
            self.feas[key] = r
        return r[0]

    def choice(self, conds, tags=None):
        """pick one alternative; its condition joins the path condition"""
        if self.deadline and cpu() > self.deadline:
            raise Unsupported('time budget for path exploration exhausted')
        if self.pos < len(self.dec):
            k = self.dec[self.pos]
            self.pos += 1
        else:
            opts = []
            simp = [z3.simplify(c) if z3.is_expr(c) else z3.BoolVal(c) for c in conds]
            for i, c in enumerate(simp):
                if not z3.is_false(c) and (any(z3.is_true(x) for x in simp) and z3.is_true(c) or self.feasible(c)):
                    opts.append(i)
            if not opts:
                raise PathEnd()
            k = opts[0]
            for o in reversed(opts[1:]):
                self.work.append(self.dec[:self.pos] + [o])
            self.dec = self.dec[:self.pos] + [k]
            self.pos += 1
        c = conds[k]
        self.assume(c if z3.is_expr(c) else z3.BoolVal(c))
        return k

    def explore(self, fn, on_end):
        """run fn once per path, from the current state each time"""
        saved = (self.st, self.dec, self.pos, self.work, self.cnt, self.frames, self.nestkey, self.depth)
        base = self.st.copy()
        frames = [(f, dict(f.env)) for f in self.frames]
        self.nestkey = self.nestkey + (tuple(self.dec[:self.pos]),)
        work = [[]]
        n = 0
        try:
            while work:
                n += 1
                if n > 400:
                    raise Unsupported('more than 400 paths')
                self.work = work
                self.dec = work.pop()
                self.pos = 0
                self.cnt = saved[4]
                self.st = base.copy()
                self.frames = [f for f, _ in frames]
                self.depth = saved[7]
                for f, e in frames:
                    f.env = dict(e)
                try:
                    fn()
                    out = ('normal', None)
                except PathEnd:
                    continue
                except BreakX:
                    out = ('break', None)
                except ContinueX:
                    out = ('continue', None)
                except ReturnX as r:
                    out = ('return', r.v)
                except ThrowX as x:
                    out = ('throw', x)
                on_end(self.st, out)
        finally:
            self.st, self.dec, self.pos, self.work, self.cnt, self.frames, self.nestkey, self.depth = saved
            for f, e in frames:
                f.env = e

    def where(self, node):
        if node is None:
            return '?'
        return '%s:%s' % ((node.file or '?').replace(fe.REPO + '/', ''), node.line)

    def oblige(self, name, goal, node=None, kind='safety'):
        if not z3.is_expr(goal):
            goal = z3.BoolVal(goal)
        if self.quiet:
            self.assume(goal)
            return
        g = z3.simplify(goal)
        if z3.is_true(g):
            # still an obligation, closed by simplification
            key = (name, self.where(node), 'T')
            if key not in self.oblkeys:
                self.oblkeys.add(key)
                o = Obligation(name, self.where(node), [], goal, self.cur, kind)
                o.status, o.backend = 'proved', 'simplifier'
                self.obls.append(o)
            return
        key = (name, self.where(node), tuple(p.get_id() for p in self.st.pc), goal.get_id())
        if key not in self.oblkeys:
            self.oblkeys.add(key)
            o = Obligation(name, self.where(node), list(self.st.pc), goal, self.cur, kind)
            o.key = key
            self.obls.append(o)
        self.assume(goal)

    # ------------------------------------------------------------ memory
    def new_root(self, v, name='t'):
        self.st.nroot += 1
        # fresh, deterministic along a path
        r = ('v', name, self.st.nroot)
        self.st.vars[r] = v
        return Loc(r)

    def heap_arr(self, kind):
        h = self.st.heap.get(kind)
        if h is None:
            raise Unsupported('heap ' + kind)
        return h

    def read(self, loc):
        r = loc.root
        if r[0] == 'H':
            t = PTS if r[1] == 'pts' else REFS
            v = unpack(t, self.heap_arr(r[1])[r[2]])
        else:
            if r not in self.st.vars:
                raise Unsupported('read of unknown variable %r' % (r,))
            v = self.st.vars[r]
        for e in loc.path:
            v = self.step(v, e)
        return v

    def step(self, v, e):
        k, a = e
        if k == 'f':
            if isinstance(v, Rec):
                if a not in v.f:
                    raise Unsupported('no field %s in %r' % (a, v))
                return v.f[a]
            raise Unsupported('field %s of %r' % (a, v))
        if k == 'i':
            if isinstance(v, Vec):
                z = v.arr[a]
                return unpack(v.t.e, z3.simplify(z) if z3.is_store(v.arr) else z)
            raise Unsupported('index of %r' % (v,))
        if k == 'k':
            if isinstance(v, Map):
                return unpack(v.t.args[1], v.val[a])
            raise Unsupported('map access of %r' % (v,))
        if k == 'o':
            if isinstance(v, Opt):
                return v.v
            raise Unsupported('optional access')
        raise Unsupported('step')

    def write(self, loc, val):
        r = loc.root
        if r[0] == 'H':
            t = PTS if r[1] == 'pts' else REFS
            h = self.heap_arr(r[1])
            v = unpack(t, h[r[2]])
            nv = self.upd(v, loc.path, val)
            h0 = dict(self.st.heap)
            self.st.heap[r[1]] = z3.Store(h, r[2], pack(nv))
            self.frame_write(r[1], r[2], h0)
            return
        if not loc.path:
            old = self.st.vars.get(r)
            self.st.vars[r] = val
            return
        self.st.vars[r] = self.upd(self.st.vars[r], loc.path, val)

    def frame_write(self, kind, ref, h0):
        """what a write to a geometry leaves alone.  roots: objects allocated alone in this body, such that nothing older reaches them or
        anything newer; pure: no object older than the call was given new members"""
        st = self.st
        if 'kids' not in st.heap or 'pts' not in st.heap or 'kids' not in h0 or 'pts' not in h0:
            st.roots, st.pure = (), False
            return
        ids = [x.get_id() for x in st.roots]
        bound = None
        if ref.get_id() in ids:
            bound = ref
            if kind == 'kids':
                st.roots = st.roots[:ids.index(ref.get_id()) + 1]
        elif self.entry is not None and self.entry.pre is not None:
            a0 = self.entry.pre.alloc
            if st.pure and self.qf_check(st.pc, ref >= a0, 100) == 'unsat':
                bound = a0
            elif kind == 'kids':
                st.pure = False
            if kind == 'kids':
                st.roots = ()
        else:
            st.roots, st.pure = (), False
        if bound is not None:
            from . import geo
            geo.frame(self, bound, h0['kids'], h0['pts'], st.heap['kids'], st.heap['pts'])

    def upd(self, v, path, val):
        if not path:
            return val
        (k, a), rest = path[0], path[1:]
        new = self.upd(self.step(v, path[0]), rest, val)
        if k == 'f':
            f = dict(v.f)
            f[a] = new
            return Rec(v.t, f)
        if k == 'i':
            return Vec(v.t, z3.Store(v.arr, a, pack(new)), v.n)
        if k == 'k':
            return Map(v.t, z3.Store(v.dom, a, True), z3.Store(v.val, a, pack(new)),
                       z3.If(v.dom[a], v.n, v.n + 1))
        if k == 'o':
            return Opt(v.t, v.has, new)
        raise Unsupported('upd')

    def alloc_ref(self):
        r = self.st.alloc
        self.st.alloc = z3.simplify(r + 1)
        return r

    # ------------------------------------------------------------ default / constructed values
    def const(self, t, k):
        if t.kind == 'int':
            return Sc(t, z3.IntVal(k))
        if t.kind == 'real':
            return Sc(t, z3.RealVal(k))
        if t.kind == 'bool':
            return Sc(t, z3.BoolVal(bool(k)))
        raise Unsupported('const')

    def const_arr(self, t):
        """contents of an empty container: an array nothing is known about"""
        return self.fresh('junk', z3.ArraySort(z3.IntSort(), sort_of(t)))

    def default(self, t, node=None, zero=True):
        k = t.kind
        if k in ('int', 'real', 'bool'):
            return self.const(t, 0) if zero else self.fresh_v('uninit', t)
        if k == 'str':
            return Sc(STR, z3.Const('str:', StrSort))
        if k == 'ptr':
            return Sc(t, z3.IntVal(0))
        if k == 'vec':
            return Vec(t, self.const_arr(t.e), z3.IntVal(0))
        if k == 'map':
            return Map(t, z3.K(sort_of(t.args[0]), z3.BoolVal(False)),
                       self.fresh('junkm', z3.ArraySort(sort_of(t.args[0]), sort_of(t.args[1]))), z3.IntVal(0))
        if k == 'opt':
            s = sort_of(t.e)
            return Opt(t, z3.BoolVal(False), unpack(t.e, self.fresh('junko', s)))
        if k == 'rec':
            if t.name == 'Point':
                z = Sc(REAL, z3.RealVal(0))
                return Rec(t, {'x': z, 'y': z, 'z': z})
            if t.name in GEO_ALL:
                return self.new_geo(t.name)
            if t.name == 'pair':
                return Rec(t, {'first': self.default(t.args[0]), 'second': self.default(t.args[1])})
            n = self.recnodes.get(t.name)
            if n is not None:
                return self.construct(t, 'void ()', [], node)
            return Rec(t, {f: self.default(ft) for f, ft in rec_fields(t)})
        return Opq(t, self.fresh('opq', OpqSort))

    def new_geo(self, name):
        r = self.alloc_ref()
        kind = 'pts' if name in GEO_PTS else 'kids'
        t = PTS if kind == 'pts' else REFS
        h = self.heap_arr(kind)
        h0 = dict(self.st.heap)
        self.st.heap[kind] = z3.Store(h, r, pack(Vec(t, self.const_arr(t.e), z3.IntVal(0))))
        if 'kids' in h0 and 'pts' in h0:
            from . import geo
            geo.frame(self, r, h0['kids'], h0['pts'], self.st.heap['kids'], self.st.heap['pts'])
        self.st.roots = self.st.roots + (r,)
        return Rec(T('rec', name), {'data_': Sc(T('ptr', name), r)})

    def field_inits(self, n):
        """(name, T, default-init expr node or None) for the fields of record node n (own fields only)"""
        out = []
        for c in n.kids:
            if c is not None and c.kind == 'FieldDecl' and c.name:
                init = None
                if c.raw.get('hasInClassInitializer') and c.kids:
                    init = c.kids[-1]
                out.append((c, c.name, parse_type(c.t), init))
        return out

    def find_ctor(self, t, ctype, tu=None):
        n = self.recnodes.get(t.name)
        if n is None:
            return None
        best = None
        cands = []
        for tu in self.prog.tus.values():
            for f in tu.funcs:
                if f.kind == 'CXXConstructorDecl' and f.name == t.name and (f.raw.get('clsn') is None or f.raw.get('cls', '').split('::')[-1] == t.name):
                    cands.append(f)
        norm = lambda s: re.sub(r'\s+', ' ', re.sub(r'\b(f2c::types::|types::|f2c::\w+::|std::|F2C)', '', s)).replace('class ', '').replace(' noexcept', '')
        for f in cands:
            if norm(f.raw.get('qt') or '') == norm(ctype):
                d = self.prog.defs.get(f.raw.get('mangledName'))
                if d is not None:
                    return d
                best = f
        return best

    def construct(self, t, ctype, args, node):
        """run the constructor; args are already-evaluated Loc/V"""
        vals = [self.read(a) if isinstance(a, Loc) else a for a in args]
        # copy / move
        if len(vals) == 1 and isinstance(vals[0], (Rec,)) and vals[0].t.kind == 'rec' and \
                (vals[0].t == t) and '(' in ctype:
            f = self.find_ctor(t, ctype)
            if t.name == 'Point' or f is None or f.raw.get('explicitlyDefaulted') or not fe.has_body(f):
                return vals[0]
            if t.name in GEO_ALL:
                return vals[0]
        if t.name == 'Point':
            return self.M.construct_point(self, vals, node)
        if t.name in GEO_ALL:
            g = self.M.construct_geo(self, t, vals, args, node)
            if g is not None:
                return g
        f = self.find_ctor(t, ctype)
        if f is None or f.raw.get('explicitlyDefaulted') == 'default' or not fe.has_body(f):
            if args:
                if t.name == 'pair':
                    return Rec(t, {'first': self.coerce(vals[0], t.args[0]), 'second': self.coerce(vals[1], t.args[1])})
                raise Unsupported('constructor %s%s has no body' % (t.name, ctype))
            return self.default_init_rec(t)
        con = self.contract_for(f)
        loc = self.new_root(None, 'obj')
        if con is not None and f is not self.cur_node:
            self.st.vars[loc.root] = self.blank_rec(t)
            self.call_contract(con, f, loc, args, node)
            return self.read(loc)
        self.st.vars[loc.root] = self.blank_rec(t)
        self.inline(f, loc, args, node)
        return self.read(loc)

    def blank_rec(self, t):
        """storage of an object under construction: nothing is known about it"""
        if t.name in GEO_ALL:
            return self.new_geo(t.name)
        return unpack(t, self.fresh('uninit_' + t.name, sort_of(t)))

    def default_init_rec(self, t):
        if t.name not in self.recnodes:
            return self.fresh_v('obj', t)
        n = self.recnodes[t.name]
        f = {}
        for b in self.bases(n):
            bv = self.default(T('rec', b))
            f.update(bv.f)
        loc = self.new_root(self.blank_rec(t) if rec_fields(t) else Rec(t, {}), 'obj')
        fr = Frame(None, this=loc, env={})
        self.frames.append(fr)
        for k, v in f.items():
            self.write(loc.fld(k), v)
        for (_, name, ft, init) in self.field_inits(n):
            v = self.init_value(init, ft) if init is not None else self.default(ft, zero=False)
            self.write(loc.fld(name), v)
        self.frames.pop()
        return self.read(loc)

    def run_ctor_inits(self, f, loc):
        """member-initialiser list and default member initialisers of constructor f"""
        t = parse_type_of_class(f)
        n = self.recnodes[t.name]
        inits = [c for c in f.kids if c is not None and c.kind == 'CXXCtorInitializer']
        done = set()
        for b in self.bases(n):
            if b in GEO_ALL or b == 'Point':
                continue
        for c in inits:
            if c.raw.get('anyInit'):
                fname = c.raw['anyInit']['name']
                ft = dict(rec_fields(t)).get(fname)
                if ft is None:
                    continue
                v = self.init_value(c.kids[0], ft, field=(n, fname)) if c.kids else self.default(ft, zero=False)
                self.write(loc.fld(fname), v)
                done.add(fname)
            elif c.raw.get('delegatingInit') or (c.kids and c.raw.get('baseInit') is None):
                v = self.rv(c.kids[0])
                self.write(loc, v)
                return
            elif c.raw.get('baseInit') is not None and c.kids:
                bt = parse_type(c.raw['baseInit'].get('desugaredQualType') or c.raw['baseInit']['qualType'])
                if bt.kind == 'rec' and bt.name in REC_FIELDS and rec_fields(bt):
                    v = self.rv(c.kids[0])
                    if isinstance(v, Rec):
                        for k, x in v.f.items():
                            self.write(loc.fld(k), x)
                            done.add(k)
        for (_, name, ft, init) in self.field_inits(n):
            if name not in done:
                v = self.init_value(init, ft) if init is not None else self.default(ft, zero=False)
                self.write(loc.fld(name), v)

    def init_value(self, node, t, field=None):
        if node is None:
            return self.default(t)
        if node.kind == 'CXXDefaultInitExpr':
            if node.kids:
                return self.init_value(node.kids[0], t)
            if field is not None:
                for (_, name, ft, init) in self.field_inits(field[0]):
                    if name == field[1]:
                        return self.init_value(init, ft) if init is not None else self.default(ft)
        if node.kind == 'ImplicitValueInitExpr':
            return self.default(t)
        return self.coerce(self.rv(node), t)

    def coerce(self, v, t):
        """value of static type t from an already converted initialiser"""
        if isinstance(v, IL):
            return self.M.from_init_list(self, v, t)
        if isinstance(v, Sc) and t.kind in ('int', 'real', 'bool') and v.t.kind != t.kind:
            return self.conv(v, t)
        if isinstance(v, Sc) and t.kind == 'int' and v.t != t:
            return self.conv(v, t)
        if t.kind == 'opt' and not isinstance(v, Opt):
            return Opt(t, z3.BoolVal(True), self.coerce(v, t.e))
        if t.kind == 'rec' and isinstance(v, Rec) and v.t != t and t.name == 'pair':
            return Rec(t, {'first': self.coerce(v.f['first'], t.args[0]), 'second': self.coerce(v.f['second'], t.args[1])})
        return v

    # ------------------------------------------------------------ scalar conversions and operators
    def conv(self, v, t):
        if not isinstance(v, Sc):
            return v
        k, z = v.t.kind, v.z
        if t.kind == 'int':
            if k == 'int':
                if t == v.t:
                    return v
                if z3.is_int_value(z):
                    x = z.as_long() % (1 << t.bits)
                    if t.signed and x >= 1 << (t.bits - 1):
                        x -= 1 << t.bits
                    return Sc(t, z3.IntVal(x))
                if not t.signed and v.t.signed:
                    return Sc(t, z3.If(z >= 0, z, z + (1 << t.bits)))
                if not t.signed and not v.t.signed and t.bits >= v.t.bits:
                    return Sc(t, z)
                if t.signed and v.t.signed and t.bits >= v.t.bits:
                    return Sc(t, z)
                if t.signed and not v.t.signed:
                    if t.bits > v.t.bits:
                        return Sc(t, z)
                    if t.bits == v.t.bits:
                        return Sc(t, z3.If(z < (1 << (t.bits - 1)), z, z - (1 << t.bits)))
                    # narrowing size_t -> int: exact modulo 2^bits for values produced by wrap-around
                    h = 1 << v.t.bits
                    return Sc(t, z3.If(z < (1 << (v.t.bits - 1)), z, z - h))
                self.assumptions.add('narrowing integer conversions keep the value (no value exceeds the narrower type)')
                return Sc(t, z)
            if k == 'bool':
                return Sc(t, z3.If(z, z3.IntVal(1), z3.IntVal(0)))
            if k == 'real':
                i = z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))
                if not t.signed:
                    self.assumptions.add('floating-point to unsigned conversions are of in-range values')
                return Sc(t, i)
        if t.kind == 'real':
            if k == 'int':
                if z3.is_int_value(z):
                    return Sc(t, z3.RealVal(z.as_long()))
                return Sc(t, z3.ToReal(z))
            if k == 'bool':
                return Sc(t, z3.If(z, z3.RealVal(1), z3.RealVal(0)))
            return Sc(t, z)
        if t.kind == 'bool':
            if k in ('int', 'real', 'ptr'):
                return Sc(t, z != 0)
            return v
        return v

    def arith(self, op, a, b, node, t=None):
        if not (isinstance(a, Sc) and isinstance(b, Sc)):
            return self.M.operator(self, op, a, b, node)
        x, y = a.z, b.z
        if op in ('==', '!='):
            r = x == y
            return Sc(BOOL, r if op == '==' else z3.Not(r))
        if op in ('<', '<=', '>', '>='):
            if a.t.kind == 'bool':
                a, b = self.conv(a, INT), self.conv(b, INT)
                x, y = a.z, b.z
            if a.t.kind == 'str':
                raise Unsupported('string comparison')
            return Sc(BOOL, {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
        t = t or a.t
        if t.kind == 'bool':
            if op in ('&', '|', '^'):
                r = {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](x, y)
                return Sc(BOOL, r)
            raise Unsupported('bool arith ' + op)
        if t.kind == 'real':
            if op == '+':
                return Sc(t, x + y)
            if op == '-':
                return Sc(t, x - y)
            if op == '*':
                return Sc(t, x * y)
            if op == '/':
                return Sc(t, x / y)
            raise Unsupported('real op ' + op)
        uns = t.kind == 'int' and not t.signed
        M2 = 1 << t.bits
        ci = lambda z: z.as_long() if z3.is_int_value(z) else None
        if op == '+':
            if uns:
                if ci(x) is not None and ci(y) is not None:
                    return Sc(t, z3.IntVal((ci(x) + ci(y)) % M2))
                # exact when one side is a wrapped negative constant, e.g. size_t(-1)
                for u, v in ((x, y), (y, x)):
                    if ci(v) is not None and ci(v) >= M2 // 2:
                        k = M2 - ci(v)
                        return Sc(t, z3.If(u >= k, u - k, u - k + M2))
                s = x + y
                return Sc(t, z3.If(s < M2, s, s - M2)) if self._wrapsum(x, y) else Sc(t, s)
            return Sc(t, x + y)
        if op == '-':
            if uns:
                if ci(y) == 0:
                    return Sc(t, x)
                return Sc(t, z3.If(x >= y, x - y, x - y + M2))
            return Sc(t, x - y)
        if op == '*':
            self.assumptions.add('integer * and signed + - do not overflow')
            return Sc(t, x * y)
        if op in ('/', '%'):
            self.oblige('division by zero', y != 0, node)
            if uns:
                return Sc(t, x / y if op == '/' else x % y)
            ax, ay = z3.If(x >= 0, x, -x), z3.If(y >= 0, y, -y)
            if op == '/':
                if ci(y) is not None and ci(y) > 0:
                    return Sc(t, z3.If(x >= 0, x / y, -((-x) / y)))
                q = ax / ay
                return Sc(t, z3.If((x >= 0) == (y >= 0), q, -q))
            if ci(y) is not None and ci(y) > 0:
                return Sc(t, z3.If(x >= 0, x % y, -((-x) % y)))
            r = ax % ay
            return Sc(t, z3.If(x >= 0, r, -r))
        if op == '<<' and ci(y) is not None:
            return Sc(t, x * (1 << ci(y)))
        if op == '>>' and ci(y) is not None:
            return Sc(t, x / (1 << ci(y)))
        if op == '&':
            for u, v in ((x, y), (y, x)):
                m = ci(v)
                if m is not None and m >= 0:
                    if m == 0:
                        return Sc(t, z3.IntVal(0))
                    if m & (m - 1) == 0:
                        return Sc(t, m * ((u / m) % 2))
                    if m & (m + 1) == 0:
                        return Sc(t, u % (m + 1))
        if op in ('&', '|', '^', '<<', '>>'):
            f = z3.Function('bit_' + {'&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr'}[op], z3.IntSort(), z3.IntSort(), z3.IntSort())
            return Sc(t, f(x, y))
        raise Unsupported('operator ' + op)

    def _wrapsum(self, x, y):
        # additions wrap exactly where an operand is itself the result of a possible wrap-around
        if mentions_big(x) or mentions_big(y):
            return True
        self.assumptions.add('unsigned additions of non-wrapped operands do not exceed 2^64')
        return False

    # ------------------------------------------------------------ statements
    def exec_body(self, n):
        for c in n.kids:
            self.ex(c)

    def ex(self, n):
        if n is None:
            return
        k = n.kind
        m = getattr(self, 'x_' + k, None)
        if m is not None:
            return m(n)
        # expression statement
        self.ev(n)

    def x_CompoundStmt(self, n):
        for c in n.kids:
            self.ex(c)

    def x_NullStmt(self, n):
        pass

    def x_AttributedStmt(self, n):
        self.ex(n.kids[-1])

    def x_DeclStmt(self, n):
        for c in n.kids:
            if c.kind == 'VarDecl':
                self.decl_var(c)
            elif c.kind == 'DecompositionDecl':
                self.decl_decomp(c)
            elif c.kind in ('TypeAliasDecl', 'TypedefDecl', 'UsingDecl', 'UsingDirectiveDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'NamespaceAliasDecl'):
                pass
            else:
                raise Unsupported('declaration ' + c.kind)

    def init_of(self, c):
        for k in reversed(c.kids):
            if k is not None and not k.kind.endswith('Attr') and not k.kind.endswith('Comment'):
                return k
        return None

    def decl_var(self, c):
        qt = c.raw.get('qt') or c.t
        init = self.init_of(c) if c.raw.get('init') else None
        if c.raw.get('storageClass') == 'static' and not c.raw.get('constexpr'):
            pass
        if (c.t or '').rstrip().endswith('&') or qt.rstrip().endswith('&'):
            l = self.ev(init)
            if not isinstance(l, Loc):
                l = self.new_root(l, c.name or 'ref')
            self.frames[-1].env[c.id] = l
            return
        t = parse_type(c.t)
        if init is None:
            v = self.default(t, c, zero=False)
        else:
            v = self.rv(init)
            if t.kind not in ('opaque', 'iter', 'ptr'):
                v = self.coerce(v, t)
        self.frames[-1].env[c.id] = self.new_root(v, c.name or 'v')

    def decl_decomp(self, c):
        binds = [b for b in c.kids if b is not None and b.kind == 'BindingDecl']
        init = [b for b in c.kids if b is not None and b.kind != 'BindingDecl'][-1]
        l = self.ev(init)
        isref = (c.raw.get('qt') or c.t).rstrip().endswith('&')
        if not isinstance(l, Loc):
            l = self.new_root(l, 'decomp')
        elif not isref:
            l = self.new_root(self.read(l), 'decomp')
        self.bind_decomp(binds, l)

    def bind_decomp(self, binds, l):
        v = self.read(l)
        if not isinstance(v, Rec):
            raise Unsupported('structured binding of %r' % (v,))
        for b, f in zip(binds, v.f):
            self.frames[-1].env[b.id] = l.fld(f)

    def x_ReturnStmt(self, n):
        if not n.kids or n.kids[0] is None:
            raise ReturnX(None)
        v = self.ev(n.kids[0])
        raise ReturnX(v)

    def x_BreakStmt(self, n):
        raise BreakX()

    def x_ContinueStmt(self, n):
        raise ContinueX()

    def x_IfStmt(self, n):
        kids = list(n.kids)
        if n.raw.get('hasInit'):
            self.ex(kids.pop(0))
        if n.raw.get('hasVar'):
            self.ex(kids.pop(0))
        c = self.cond(kids[0])
        if self.choice([c, z3.Not(c)]) == 0:
            self.ex(kids[1])
        elif n.raw.get('hasElse') and len(kids) > 2:
            self.ex(kids[2])

    def x_SwitchStmt(self, n):
        kids = list(n.kids)
        if n.raw.get('hasInit'):
            self.ex(kids.pop(0))
        v = self.rv(kids[0])
        body = kids[1]
        items = []      # (label value or 'default' or None, stmt)

        def flat(s):
            if s.kind == 'CaseStmt':
                items.append(('case', self.rv(s.kids[0]).z))
                flat(s.kids[-1])
            elif s.kind == 'DefaultStmt':
                items.append(('default', None))
                flat(s.kids[-1])
            else:
                items.append(('stmt', s))
        for s in body.kids:
            flat(s)
        labels = [(i, x[1]) for i, x in enumerate(items) if x[0] == 'case']
        dfl = [i for i, x in enumerate(items) if x[0] == 'default']
        conds = [v.z == l for _, l in labels] + [z3.And([v.z != l for _, l in labels] or [z3.BoolVal(True)])]
        k = self.choice(conds)
        start = labels[k][0] if k < len(labels) else (dfl[0] if dfl else None)
        if start is None:
            return
        try:
            for it in items[start:]:
                if it[0] == 'stmt':
                    self.ex(it[1])
        except BreakX:
            pass

    def x_CXXTryStmt(self, n):
        try:
            self.ex(n.kids[0])
        except ThrowX as x:
            for h in n.kids[1:]:
                var = h.kids[0] if len(h.kids) > 1 else None
                ht = parse_type(var.t) if var is not None else None
                hn = (ht.name or '').split('::')[-1] if ht else None
                if ht is None or hn == x.typ or hn in EXC_BASES.get(x.typ, ['exception']):
                    if var is not None:
                        self.frames[-1].env[var.id] = self.new_root(Opq(ht, self.fresh('exc', OpqSort)), 'exc')
                    self.ex(h.kids[-1])
                    return
            raise

    def cond(self, n):
        v = self.rv(n)
        v = self.conv(v, BOOL) if isinstance(v, Sc) else self.M.to_bool(self, v)
        return v.z

    # loops ---------------------------------------------------------------
    def x_ForStmt(self, n):
        init, _, cond, inc, body = n.kids
        if init is not None:
            self.ex(init)
        self.run_loop(n, (lambda: self.cond(cond)) if cond is not None else (lambda: z3.BoolVal(True)),
                      lambda: self.ex(body), (lambda: self.ev(inc)) if inc is not None else (lambda: None), cnode=cond)

    def x_WhileStmt(self, n):
        kids = [k for k in n.kids]
        cond, body = kids[-2], kids[-1]
        self.run_loop(n, lambda: self.cond(cond), lambda: self.ex(body), lambda: None, cnode=cond)

    def x_DoStmt(self, n):
        body, cond = n.kids
        # do S while (c)  ==  first := true; while (first || c) { first := false; S }
        first = self.new_root(Sc(BOOL, z3.BoolVal(True)), 'dofirst')

        def c():
            f = self.read(first).z
            if z3.is_true(f):
                return f
            return z3.Or(f, self.cond(cond))

        def b():
            self.write(first, Sc(BOOL, z3.BoolVal(False)))
            self.ex(body)
        self.run_loop(n, c, b, lambda: None, cnode=None)

    def x_CXXForRangeStmt(self, n):
        init, rng, beg, end, cond, inc, var, body = n.kids
        if init is not None:
            self.ex(init)
        rdecl = rng.kids[0]
        rinit = self.init_of(rdecl)
        l = self.ev(rinit)
        if not isinstance(l, Loc):
            if isinstance(l, IL):
                l = self.M.il_to_vec(self, l)
            l = self.new_root(l, 'range')
        isconst = 'const' in (rdecl.raw.get('qt') or rdecl.t).split('<')[0] or (rdecl.raw.get('qt') or '').startswith('const ')
        vdecl = var.kids[0]

        def bind(elemloc):
            isref = (vdecl.raw.get('qt') or '').rstrip().endswith('&') or (vdecl.t or '').rstrip().endswith('&')
            loc = elemloc if isref else self.new_root(self.read(elemloc), vdecl.name or 'x')
            if vdecl.kind == 'DecompositionDecl':
                self.bind_decomp([b for b in vdecl.kids if b is not None and b.kind == 'BindingDecl'], loc)
            else:
                self.frames[-1].env[vdecl.id] = loc
        self.iterate(n, l, bind, lambda: self.ex(body), const=isconst, tnode=rdecl)

    def iterate(self, n, l, bind, run, const=True, tnode=None):
        """for every element of the container at l: bind(element location); run()"""
        v = self.read(l)
        ix = self.new_root(Sc(INT, z3.IntVal(0)), 'idx#')
        # methods begin()/end() of f2c wrappers around a vector
        hops = 0
        while isinstance(v, Rec) and v.t.name not in GEO_ALL:
            u = self.M.unwrap_container(self, v, l)
            if u is None:
                raise Unsupported('range over ' + str(v.t))
            l = u
            v = self.read(l)
        if isinstance(v, Rec):   # geometry collection
            geo = v.t.name
            ref = v.f['data_'].z
            kind = 'pts' if geo in GEO_PTS else 'kids'
            hl = Loc(('H', kind, ref))

            def size():
                return self.read(hl).n

            def c():
                return self.read(ix).z < size()

            def b():
                i = self.read(ix).z
                if kind == 'pts':
                    if const:
                        bind(self.new_root(self.read(hl.idx(i)), 'pt'))
                        run()
                    else:
                        tmp = self.new_root(self.read(hl.idx(i)), 'pt')
                        bind(tmp)
                        run()
                        before, after = self.read(hl.idx(i)), self.read(tmp)
                        if not all(before.f[q].z.eq(after.f[q].z) for q in 'xyz'):
                            far = z3.Or([z3.Or(before.f[q].z - after.f[q].z >= z3.RealVal('1e-7'),
                                               after.f[q].z - before.f[q].z >= z3.RealVal('1e-7')) for q in 'xyz'])
                            nv = Rec(POINT, {q: Sc(REAL, z3.If(far, after.f[q].z, before.f[q].z)) for q in 'xyz'})
                            self.write(hl.idx(i), nv)
                else:
                    cref = pack(self.read(hl.idx(i)))
                    g = GEO_KIDS[geo]
                    bind(self.new_root(Rec(T('rec', g), {'data_': Sc(T('ptr', g), cref)}), 'kid'))
                    run()
            self.assume(size() >= 0)
            self.run_loop(n, c, b, lambda: self._inc(ix), idx=ix, cont=hl)
            return
        if isinstance(v, Map):
            ks = sort_of(v.t.args[0])
            tg = '%s_%s' % (n.id, re.sub(r'\W', '_', str(ks)))
            enum = z3.Function('MapEnum_' + tg, v.dom.sort(), z3.ArraySort(z3.IntSort(), ks))(v.dom)
            pos = z3.Function('MapPos_' + tg, v.dom.sort(), z3.ArraySort(ks, z3.IntSort()))(v.dom)
            i = z3.Int('me_i')
            k = z3.Const('me_k', ks)
            self.assume(v.n >= 0)
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.n), z3.And(v.dom[enum[i]], pos[enum[i]] == i)), patterns=[enum[i]]))
            self.assume(z3.ForAll([k], z3.Implies(v.dom[k], z3.And(0 <= pos[k], pos[k] < v.n, enum[pos[k]] == k)), patterns=[v.dom[k], pos[k]]))
            self.used_models.add('unordered_map iteration: every key exactly once, arbitrary order')
            kt, vt = v.t.args

            def b():
                kk = enum[self.read(ix).z]
                pr = self.new_root(Rec(T('rec', 'pair', (kt, vt)), {'first': unpack(kt, kk), 'second': self.read(l.key(kk))}), 'entry')
                before = self.read(pr.fld('second'))
                bind(pr)
                run()
                after = self.read(pr.fld('second'))
                if after is not before and not (isinstance(after, Sc) and after.z.eq(before.z)):
                    if not const and vt.kind != 'bool':
                        self.write(l.key(kk), after)
            self.run_loop(n, lambda: self.read(ix).z < v.n, b, lambda: self._inc(ix), idx=ix, cont=l, visit=(v, ix, pos))
            return
        if isinstance(v, IL):
            if self.has_jump(n.kids[-1]):
                raise Unsupported('break or continue in a loop over an initialiser list')
            for e in v.vs:      # a fixed number of elements: all of them in turn
                bind(self.new_root(e, 'elem'))
                run()
            return
        if isinstance(v, Vec):
            def b():
                bind(l.idx(self.read(ix).z))
                run()
            n0 = v.n
            self.run_loop(n, lambda: self.read(ix).z < n0, b, lambda: self._inc(ix), idx=ix, cont=l)
            return
        raise Unsupported('range over %r' % (v,))

    def has_jump(self, n):
        if n is None:
            return False
        if n.kind in ('BreakStmt', 'ContinueStmt'):
            return True
        return any(self.has_jump(k) for k in n.kids)

    def _inc(self, l):
        v = self.read(l)
        self.write(l, Sc(v.t, v.z + 1))

    # loop rule -------------------------------------------------------------
    def run_loop(self, node, cond, body, inc, idx=None, cont=None, cnode=None, visit=None):
        self.loopstack.append((node, visit, None))
        saved = getattr(self, 'loop_bound_now', None)
        self.loop_bound_now, self.loop_bound = getattr(self, 'loop_bound', None), None
        try:
            return self._run_loop(node, cond, body, inc, idx, cont, cnode)
        finally:
            self.loop_bound_now = saved
            self.loopstack.pop()

    def _run_loop(self, node, cond, body, inc, idx=None, cont=None, cnode=None):
        # small constant loops are unrolled completely (exact)
        if self.try_unroll(cond, body, inc, cnode):
            return
        key = (node.id, tuple(self.ctxkey), self.nestkey, tuple(self.dec[:self.pos]), len(self.frames))
        L = self.loopcache.get(key)
        if L is None:
            L = self.analyse_loop(node, cond, body, inc, idx, cont, cnode)
            self.loopcache[key] = L
        self.loopstack[-1] = self.loopstack[-1][:2] + (L['LI'],)
        head0 = self.st.copy()
        self.havoc(L['mods'])
        for nm, f in L['invs']:
            self.assume(f(self.st))
        self.loop_pure(L['mods'], L['invs'], head0)
        c = cond()
        if self.choice([z3.Not(c), c]) == 0:
            return
        try:
            body()
        except BreakX:
            return
        except ContinueX:
            pass
        inc()
        raise PathEnd()

    def try_unroll(self, cond, body, inc, cnode):
        """loop whose trip count is a compile-time constant <= 8: executed iteration by iteration"""
        if cnode is None or cnode.kind != 'BinaryOperator':
            return False
        k = 0
        # probe on a copy
        c = z3.simplify(cond())
        if not (z3.is_true(c) or z3.is_false(c)):
            return False
        lits = self._const_bound(cnode)
        if not lits:
            return False
        while z3.is_true(c):
            k += 1
            if k > 9:
                return False if k == 0 else (_ for _ in ()).throw(Unsupported('constant loop too long'))
            try:
                body()
            except BreakX:
                return True
            except ContinueX:
                pass
            inc()
            c = z3.simplify(cond())
            if not (z3.is_true(c) or z3.is_false(c)):
                raise Unsupported('constant-bound loop with symbolic condition')
        return True

    def _const_bound(self, cnode):
        def strip(x):
            while x is not None and x.kind in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr') and x.kids:
                x = x.kids[0]
            return x
        l, r = strip(cnode.kids[0]), strip(cnode.kids[1])
        return r is not None and r.kind == 'IntegerLiteral' and int(r.raw.get('value', '99')) <= 8 or \
            (r is not None and r.kind == 'UnaryOperator')

    def diff(self, a, b, path=()):
        """paths at which values a (before) and b (after) differ"""
        if a is b:
            return set()
        if isinstance(a, Rec) and isinstance(b, Rec):
            out = set()
            for f in a.f:
                out |= self.diff(a.f[f], b.f[f], path + (f,))
            return out
        if isinstance(a, Vec) and isinstance(b, Vec):
            out = set()
            if not a.arr.eq(b.arr):
                out.add(path + ('#arr',))
            if not a.n.eq(b.n):
                out.add(path + ('#n',))
            return out
        if isinstance(a, Map) and isinstance(b, Map):
            return set() if a.dom.eq(b.dom) and a.val.eq(b.val) and a.n.eq(b.n) else {path + ('#map',)}
        if isinstance(a, Opt) and isinstance(b, Opt):
            out = set()
            if not a.has.eq(b.has):
                out.add(path + ('#opt',))
            elif not pack(a).eq(pack(b)):
                out.add(path + ('#opt',))
            return out
        if isinstance(a, It) and isinstance(b, It):
            return set() if a.i.eq(b.i) and a.loc.root == b.loc.root else {path + ('#it',)}
        if isinstance(a, Sc) and isinstance(b, Sc):
            return set() if a.z.eq(b.z) else {path}
        if isinstance(a, Opq) and isinstance(b, Opq):
            return set() if (a.z is b.z or (a.z is not None and b.z is not None and a.z.eq(b.z))) else {path}
        return {path}

    def havoc(self, mods):
        for (root, path) in sorted(mods, key=str):
            if root == 'alloc':
                a = self.st.alloc
                self.st.alloc = self.fresh('alloc', z3.IntSort())
                self.assume(self.st.alloc >= a)
            elif root[0] == 'HEAP':
                self.st.roots = ()
                if root[1] == 'kids':
                    self.st.pure = False
                self.st.heap[root[1]] = self.fresh('heap_' + root[1], self.st.heap[root[1]].sort())
            elif root in self.st.vars:
                self.st.vars[root] = self.havoc_v(self.st.vars[root], path, root)

    def havoc_v(self, v, path, root):
        if not path:
            if isinstance(v, Opq):
                return Opq(v.t, self.fresh('h', OpqSort))
            if isinstance(v, (Lam, It, LocPtr)):
                if isinstance(v, It):
                    return It(v.loc, self.fresh('h_it', z3.IntSort()), v.rev, v.key)
                raise Unsupported('loop modifies %r' % (v,))
            return self.fresh_v('h_' + str(root[1]), v.t)
        p, rest = path[0], path[1:]
        if p == '#arr':
            nv = Vec(v.t, self.fresh('h_arr', v.arr.sort()), v.n)
            self.assume_wf(nv)
            return nv
        if p == '#n':
            nv = Vec(v.t, v.arr, self.fresh('h_n', z3.IntSort()))
            self.assume(z3.And(nv.n >= 0, nv.n < (1 << 31) - 1))
            return nv
        if p in ('#map', '#opt'):
            return self.fresh_v('h_' + p[1:], v.t)
        if p == '#it':
            return It(v.loc, self.fresh('h_it', z3.IntSort()), v.rev, v.key)
        f = dict(v.f)
        f[p] = self.havoc_v(v.f[p], rest, root)
        return Rec(v.t, f)

    def analyse_loop(self, node, cond, body, inc, idx, cont, cnode):
        self.quiet += 1
        cnt = self.cnt
        try:
            return self._analyse_loop(node, cond, body, inc, idx, cont, cnode)
        finally:
            self.quiet -= 1
            self.cnt = cnt     # the same names on the first and on every later pass over this loop

    def _one_iter(self, cond, body, inc):
        c = cond()
        self.choice([c])
        try:
            body()
        except ContinueX:
            pass
        inc()

    def _analyse_loop(self, node, cond, body, inc, idx, cont, cnode):
        entry = self.st.copy()
        mods = self._loop_mods(entry, cond, body, inc)
        if self.modphase:
            return {'LI': None, 'mods': mods, 'invs': [], 'dropped': []}
        self.st = entry.copy()
        drop = self._directions(LoopInfo(self, node, entry, mods, idx, cont, cond, cnode))
        return self._loop_invs(node, entry, mods, cond, body, inc, idx, cont, cnode, drop)

    def loop_pure(self, mods, invs, head0):
        if any(r != 'alloc' and r[0] == 'HEAP' and r[1] == 'kids' for r, p in mods):
            self.st.pure = head0.pure and any(nm == 'heap kids keeps objects older than the call' for nm, f in invs)

    def _directions(self, LI):
        """names of candidates that one arbitrary iteration already contradicts (a filter of guesses only)"""
        head, ends = self.lastiter
        drop = set()
        for nm, f, _ in LI.counters():
            try:
                up = [self.qf_check(st.pc, f(st) >= f(head), 200) for st in ends]
                dn = [self.qf_check(st.pc, f(st) <= f(head), 200) for st in ends]
            except (Unsupported, KeyError):
                continue
            if all(x == 'unsat' for x in up) and 'sat' in dn:
                drop.add(nm + ' <= entry')
            elif all(x == 'unsat' for x in dn) and 'sat' in up:
                drop.add(nm + ' >= entry')
        return drop

    def _loop_mods(self, entry, cond, body, inc):
        self.modphase += 1
        try:
            return self._loop_mods1(entry, cond, body, inc)
        finally:
            self.modphase -= 1

    def _loop_mods1(self, entry, cond, body, inc):
        mods = set()
        cnt = self.cnt
        for _ in range(12):
            new = set()
            self.st = entry.copy()
            self.cnt = cnt
            self.havoc(mods)
            head = self.st.copy()

            def end(st, out):
                if out[0] in ('break', 'return', 'throw'):
                    return
                for r, v in head.vars.items():
                    if r in st.vars and st.vars[r] is not v:
                        for p in self.diff(v, st.vars[r]):
                            new.add((r, p))
                for h in head.heap:
                    if not st.heap[h].eq(head.heap[h]):
                        new.add((('HEAP', h), ()))
                if not st.alloc.eq(head.alloc):
                    new.add(('alloc', ()))
            last = []

            def end3(st, out):
                end(st, out)
                if out[0] in ('normal', 'continue'):
                    last.append(st)
            self.ctxkey.append(('mods', frozenset(mods)))
            try:
                self.explore(lambda: self._one_iter(cond, body, inc), end3)
            finally:
                self.ctxkey.pop()
            if new <= mods:
                self.lastiter = (head, last)
                break
            mods |= new
        else:
            raise Unsupported('modified set of loop does not converge')
        return mods

    def _loop_invs(self, node, entry, mods, cond, body, inc, idx, cont, cnode, drop=()):
        # drop field-level mods subsumed by whole-value mods
        self.st = entry.copy()
        LI = LoopInfo(self, node, entry, mods, idx, cont, cond, cnode)
        LI.drop = drop
        self.loopstack[-1] = self.loopstack[-1][:2] + (LI,)
        # guesses that an earlier visit of the same loop found not to be kept are not tried again (a filter of guesses only)
        memo = self.dropmemo.setdefault(id(node), set()) if SCALE[0] <= 1 else set()
        cands, seen, key = [], {}, {}
        for nm, f in LI.auto():
            if nm in drop:
                continue
            seen[nm] = seen.get(nm, 0) + 1
            if (nm, seen[nm]) not in memo:
                cands.append((nm, f))
                key[id(f)] = (nm, seen[nm])
        nauto = set(id(f) for _, f in cands)
        hms = lambda f: 800 if id(f) in nauto else getattr(self.spec, 'houdini_ms', 5000)
        if self.spec is not None and self.spec.invariants is not None:
            for inv in self.spec.invariants:
                try:
                    cands += inv(LI) or []
                except (KeyError, IndexError):
                    pass
        # initiation
        kept = []
        base = list(entry.pc)
        for nm, f in cands:
            try:
                g = f(entry)
            except Unsupported:
                continue
            if z3.is_true(z3.simplify(g)) or self.check(base, g, timeout=hms(f), alt=hms(f)) == 'unsat':
                kept.append((nm, f))
        # consecution
        rnd = 0
        cnt = self.cnt
        while True:
            rnd += 1
            self.st = entry.copy()
            self.cnt = cnt
            self.havoc(mods)
            for nm, f in kept:
                self.assume(f(self.st))
            self.loop_pure(mods, kept, entry)
            ends = []

            def end2(st, out):
                if out[0] in ('normal', 'continue'):
                    ends.append(st)
            self.ctxkey.append(('invs', frozenset(id(f) for _, f in kept)))
            try:
                self.explore(lambda: self._one_iter(cond, body, inc), end2)
            finally:
                self.ctxkey.pop()
            bad = set()
            for st in ends:
                rest = [(i, nm, f) for i, (nm, f) in enumerate(kept) if i not in bad]
                if not rest:
                    break
                goals = [f(st) for _, _, f in rest]
                if os.environ.get('F2CV_DUMPALL'):
                    for (i, nm, f), g in zip(rest, goals):
                        self.dump('try_' + nm, st.pc, g)
                if len(goals) > 1 and rnd > 1:
                    if self.check(st.pc, z3.And(goals), timeout=self.houdini_timeout) == 'unsat':
                        continue
                for (i, nm, f), g in zip(rest, goals):
                    if TRACE:
                        print('inv', self.where(node), rnd, nm, flush=True)
                    r = None
                    if id(f) in nauto and not has_quant(g):
                        r = self.qf_check(st.pc, g)
                        if r == 'unsat':
                            continue
                        if r == 'sat' and (nm.endswith(('parity', '<= entry')) or ' tracks ' in nm):
                            bad.add(i)
                            continue
                    if self.check(st.pc, g, timeout=350 if id(f) in nauto and r == 'sat' else hms(f), alt=hms(f) if id(f) not in nauto or has_quant(g) else 0) != 'unsat':
                        bad.add(i)
                        self.dump('inv_' + nm, st.pc, g)
            if not bad:
                self.houdini_obls += len(kept) * (1 + len(ends))
                break
            memo.update(key[id(kept[i][1])] for i in bad if id(kept[i][1]) in key)
            kept = [x for i, x in enumerate(kept) if i not in bad]
            if rnd > 30:
                kept = []
        self.st = entry
        info = {'LI': LI, 'mods': mods, 'invs': kept, 'dropped': [nm for nm, _ in cands if nm not in [k for k, _ in kept]]}
        self.loopinfo.append((self.where(node), [nm for nm, _ in kept], info['dropped']))
        return info

    # ------------------------------------------------------------ expressions
    def rv(self, n):
        r = self.ev(n)
        if isinstance(r, Loc):
            return self.read(r)
        return r

    def lv(self, n):
        r = self.ev(n)
        if isinstance(r, Loc):
            return r
        return self.new_root(r, 'tmp')

    def ev(self, n):
        m = getattr(self, 'e_' + n.kind, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (n.kind, self.where(n)))
        return m(n)

    def _pass(self, n):
        return self.ev(n.kids[0])

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = _pass

    def e_MaterializeTemporaryExpr(self, n):
        return self.lv(n.kids[0])

    def e_FullExpr(self, n):
        return self.ev(n.kids[0])

    def e_IntegerLiteral(self, n):
        return Sc(parse_type(n.t), z3.IntVal(int(n.raw['value'])))

    def e_CharacterLiteral(self, n):
        return Sc(CHAR, z3.IntVal(int(n.raw['value'])))

    def e_CXXBoolLiteralExpr(self, n):
        return Sc(BOOL, z3.BoolVal(bool(n.raw['value'])))

    def e_FloatingLiteral(self, n):
        v = n.raw['value']
        f = float(v)
        import math
        if abs(f - math.pi) < 1e-14:
            return Sc(REAL, self.pi())
        return Sc(REAL, z3.RealVal(str(Fraction(v) if 'e' not in v.lower() else Fraction(v))))

    def pi(self):
        self.axiom('pi', [PI > z3.RealVal('3.14159265'), PI < z3.RealVal('3.14159266')])
        return PI

    def e_StringLiteral(self, n):
        v = n.raw.get('value', '')
        return Sc(STR, z3.Const('str:' + (v[1:-1] if len(v) >= 2 and v[0] == v[-1] == '"' else v), StrSort))

    def e_CXXNullPtrLiteralExpr(self, n):
        return Sc(T('ptr', 'null'), z3.IntVal(0))

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, n):
        return LocPtr(self.frames[-1].this)

    def e_DeclRefExpr(self, n):
        rid = n.ref
        env = self.frames[-1].env
        if rid in env:
            return env[rid]
        k = n.refd['kind']
        if k == 'EnumConstantDecl':
            return self.enum_const(n)
        if k == 'VarDecl':
            d = n.tu.decls.get(rid)
            nm = n.refd.get('name')
            if d is not None and d.kids:
                init = self.init_of(d)
                if init is not None:
                    self.frames.append(Frame(None, env={}))
                    try:
                        v = self.coerce(self.rv(init), parse_type(d.t))
                    finally:
                        self.frames.pop()
                    return v
            return self.M.global_var(self, nm, n)
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return Opq(T('opaque', 'fnref'), None)
        raise Unsupported('reference to %s %s at %s' % (k, n.refd.get('name'), self.where(n)))

    def enum_const(self, n):
        d = n.tu.decls.get(n.ref)
        if d is None:
            # constant of an external enum: one integer per name
            return Sc(INT, z3.Int('enum_' + n.refd['name']))
        return Sc(INT, z3.IntVal(self.enum_value(d)))

    def enum_value(self, d):
        en = d.raw.get('parent')
        v = -1
        for c in en.kids:
            if c is None or c.kind != 'EnumConstantDecl':
                continue
            v += 1
            if c.kids:
                def val(x):
                    if x is None:
                        return None
                    if 'value' in x.raw:
                        return int(x.raw['value'])
                    if x.kind == 'UnaryOperator' and x.op == '-':
                        return -val(x.kids[0])
                    return val(x.kids[0]) if x.kids else None
                r = val(c.kids[0])
                if r is not None:
                    v = r
            if c is d or c.id == d.id:
                return v
        raise Unsupported('enum value')

    def e_ImplicitCastExpr(self, n):
        ck = n.raw.get('castKind')
        c = n.kids[0]
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion',
                  'UserDefinedConversion', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'BitCast', 'Dynamic'):
            return self.ev(c)
        if ck == 'LValueToRValue':
            return self.rv(c)
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralToBoolean',
                  'FloatingToBoolean', 'PointerToBoolean', 'BooleanToSignedIntegral'):
            return self.conv(self.rv(c), parse_type(n.t))
        if ck == 'NullToPointer':
            return Sc(T('ptr', 'null'), z3.IntVal(0))
        if ck == 'ToVoid':
            self.ev(c)
            return Void()
        raise Unsupported('cast %s at %s' % (ck, self.where(n)))

    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_CXXDynamicCastExpr = e_ImplicitCastExpr

    def e_UnaryOperator(self, n):
        op = n.op
        c = n.kids[0]
        if op in ('++', '--'):
            l = self.lv(c)
            v = self.read(l)
            if isinstance(v, It):
                d = 1 if op == '++' else -1
                self.write(l, It(v.loc, v.i + (d if not v.rev else -d), v.rev, v.key))
            else:
                self.write(l, self.arith('+' if op == '++' else '-', v, self.const(v.t, 1), n))
            return v if n.raw.get('isPostfix') else l
        if op == '*':
            v = self.rv(c)
            return self.deref(v, n)
        if op == '&':
            return LocPtr(self.lv(c))
        v = self.rv(c)
        if op == '!':
            z = (self.conv(v, BOOL) if isinstance(v, Sc) else self.M.to_bool(self, v)).z
            return Sc(BOOL, z3.Not(z))
        if op == '-':
            if v.t.kind == 'real':
                return Sc(v.t, -v.z)
            if z3.is_int_value(v.z):
                return self.conv(Sc(LONG, z3.IntVal(-v.z.as_long())), v.t) if not v.t.signed else Sc(v.t, z3.IntVal(-v.z.as_long()))
            return Sc(v.t, -v.z) if v.t.signed else self.arith('-', self.const(v.t, 0), v, n)
        if op == '+':
            return v
        raise Unsupported('unary ' + op)

    def deref(self, v, n):
        if isinstance(v, LocPtr):
            return v.loc
        if isinstance(v, It):
            return self.M.it_deref(self, v, n)
        if isinstance(v, Opt):
            self.oblige('optional has a value when dereferenced', v.has, n)
            return v.v
        raise Unsupported('dereference of %r' % (v,))

    def e_BinaryOperator(self, n):
        op = n.op
        a, b = n.kids
        if op == '=':
            # C++17: right operand first
            v = self.rv(b)
            l = self.lv(a)
            old = self.read(l)
            if isinstance(old, Sc) and isinstance(v, Sc):
                v = self.conv(v, old.t)
            self.write(l, v)
            return l
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op in ('&&', '||'):
            x = self.cond(a)
            xs = z3.simplify(x)
            if op == '&&':
                if z3.is_false(xs):
                    return Sc(BOOL, z3.BoolVal(False))
                if z3.is_true(xs):
                    return Sc(BOOL, self.cond(b))
                if self.pure(b):
                    return Sc(BOOL, z3.And(x, self.cond(b)))
                if self.choice([x, z3.Not(x)]) == 0:
                    return Sc(BOOL, self.cond(b))
                return Sc(BOOL, z3.BoolVal(False))
            if z3.is_true(xs):
                return Sc(BOOL, z3.BoolVal(True))
            if z3.is_false(xs):
                return Sc(BOOL, self.cond(b))
            if self.pure(b):
                return Sc(BOOL, z3.Or(x, self.cond(b)))
            if self.choice([x, z3.Not(x)]) == 0:
                return Sc(BOOL, z3.BoolVal(True))
            return Sc(BOOL, self.cond(b))
        x, y = self.rv(a), self.rv(b)
        return self.arith(op, x, y, n)

    def pure(self, n):
        """syntactically free of calls, indexing and division: evaluating it can neither fail nor have effects"""
        if n is None:
            return True
        if n.kind in ('DeclRefExpr', 'IntegerLiteral', 'FloatingLiteral', 'CXXBoolLiteralExpr', 'CXXThisExpr', 'CharacterLiteral'):
            return True
        if n.kind in ('ImplicitCastExpr', 'ParenExpr', 'MemberExpr', 'CXXStaticCastExpr'):
            return all(self.pure(k) for k in n.kids)
        if n.kind == 'BinaryOperator':
            return n.op not in ('=', '/', '%', ',') and all(self.pure(k) for k in n.kids)
        if n.kind == 'UnaryOperator':
            return n.op in ('!', '-', '+') and self.pure(n.kids[0])
        return False

    def e_CompoundAssignOperator(self, n):
        v = self.rv(n.kids[1])
        l = self.lv(n.kids[0])
        old = self.read(l)
        op = n.op[:-1]
        ct = n.raw.get('computeResultType') or {}
        t = parse_type(ct.get('desugaredQualType') or ct.get('qualType') or n.t)
        if isinstance(old, Sc):
            r = self.arith(op, self.conv(old, t), self.conv(v, t), n)
            self.write(l, self.conv(r, old.t))
        else:
            raise Unsupported('compound assignment on %r' % (old,))
        return l

    def e_ConditionalOperator(self, n):
        c = self.cond(n.kids[0])
        if self.pure(n.kids[1]) and self.pure(n.kids[2]):
            a, b = self.rv(n.kids[1]), self.rv(n.kids[2])
            if isinstance(a, Sc) and isinstance(b, Sc):
                return Sc(a.t, z3.If(c, a.z, b.z))
        if self.choice([c, z3.Not(c)]) == 0:
            return self.ev(n.kids[1])
        return self.ev(n.kids[2])

    def e_MemberExpr(self, n):
        base = n.kids[0]
        b = self.ev(base)
        if isinstance(b, (LocPtr,)):
            l = b.loc
        elif isinstance(b, Loc):
            v = self.read(b) if b.root in self.st.vars or b.root[0] == 'H' else None
            l = v.loc if isinstance(v, LocPtr) else b
            if isinstance(v, It):
                l = self.M.it_deref(self, v, n)
                if not isinstance(l, Loc):
                    l = self.new_root(l)
        elif isinstance(b, It):
            l = self.M.it_deref(self, b, n)
            if not isinstance(l, Loc):
                l = self.new_root(l)
        else:
            l = self.new_root(b, 'tmp')
        v = self.read(l)
        if isinstance(v, Rec) and v.t.name == 'Point' and n.name == 'data_':
            return LocPtr(l)
        if isinstance(v, Opt) and n.raw.get('isArrow'):
            self.oblige('optional has a value when dereferenced', v.has, n)
            l = l.optv()
            v = v.v
        d = n.tu.decls.get(n.ref)
        if d is not None and d.kind == 'VarDecl':   # static data member
            init = self.init_of(d)
            if init is not None:
                return self.coerce(self.rv(init), parse_type(d.t))
        if isinstance(v, Rec) and n.name in v.f:
            return l.fld(n.name)
        raise Unsupported('member %s of %r at %s' % (n.name, v, self.where(n)))

    def e_ArraySubscriptExpr(self, n):
        raise Unsupported('array subscript')

    def e_CXXDefaultArgExpr(self, n):
        if n.kids:
            return self.ev(n.kids[0])
        raise Unsupported('default argument without expression')

    def e_CXXDefaultInitExpr(self, n):
        if n.kids:
            return self.ev(n.kids[0])
        raise Unsupported('default init')

    def e_InitListExpr(self, n):
        t = parse_type(n.t) if n.t else None
        if t is not None and t.kind in ('int', 'real', 'bool') and len(n.kids) == 1:
            return self.coerce(self.rv(n.kids[0]), t)
        if t is not None and t.kind in ('int', 'real', 'bool') and not n.kids:
            return self.default(t)
        if t is not None and t.kind == 'rec' and len(n.kids) == 1 and n.kids[0].t and parse_type(n.kids[0].t) == t:
            return self.rv(n.kids[0])       # x{y} of one type: a copy
        if t is not None and t.kind == 'rec' and t.name in REC_FIELDS:
            f = {}
            fs = rec_fields(t)
            nr = self.recnodes.get(t.name)
            for (nm, ft), k in zip(fs, n.kids):
                f[nm] = self.init_value(k, ft, field=(nr, nm) if nr is not None else None)
            for nm, ft in fs[len(n.kids):]:
                f[nm] = self.default(ft)
            return Rec(t, f)
        return IL([self.rv(k) for k in n.kids])

    def e_CXXStdInitializerListExpr(self, n):
        return self.ev(n.kids[0])

    def e_ImplicitValueInitExpr(self, n):
        return self.default(parse_type(n.t))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXConstructExpr(self, n):
        t = parse_type(n.t)
        args = []
        for k in n.kids:
            if k.kind == 'CXXDefaultArgExpr':
                args.append(None)
            else:
                args.append(self.ev(k))
        ct = (n.raw.get('ctorType') or {}).get('qualType', '')
        if t.kind == 'rec' and t.name != 'pair':
            if None in args:
                f = self.find_ctor(t, ct)
                args = self.fill_defaults(f, args, n)
            if len(args) == 1 and isinstance(args[0], IL) and args[0].vs is not None and t.name not in GEO_ALL:
                pass
            return self.construct(t, ct, args, n)
        args = [a for a in args if a is not None]
        return self.M.construct_std(self, t, args, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def fill_defaults(self, f, args, n):
        if f is None:
            raise Unsupported('default argument of unknown function at %s' % self.where(n))
        decls = [f]
        m = f.raw.get('mangledName')
        for tu in self.prog.tus.values():
            decls += [g for g in tu.funcs if g.raw.get('mangledName') == m]
        out = []
        for i, a in enumerate(args):
            if a is not None:
                out.append(a)
                continue
            v = None
            for g in decls:
                ps = [p for p in g.kids if p is not None and p.kind == 'ParmVarDecl']
                if i < len(ps) and ps[i].raw.get('init') and ps[i].kids:
                    self.frames.append(Frame(None, this=self.frames[-1].this if self.frames else None, env={}))
                    v = self.coerce(self.rv(self.init_of(ps[i])), parse_type(ps[i].t))
                    self.frames.pop()
                    break
            if v is None:
                raise Unsupported('default argument not found at %s' % self.where(n))
            out.append(v)
        return out

    def e_LambdaExpr(self, n):
        rec = n.kids[0]
        op = None
        for c in rec.kids:
            if c is not None and c.kind == 'CXXMethodDecl' and c.name == 'operator()':
                op = c
            if c is not None and c.kind == 'FunctionTemplateDecl' and c.name == 'operator()':
                insts = [k for k in c.kids if k is not None and k.kind == 'CXXMethodDecl' and fe.has_body(k)]
                op = insts[-1] if insts else None
        if op is None:
            raise Unsupported('lambda without a body')
        env = dict(self.frames[-1].env)
        fields = [c for c in rec.kids if c is not None and c.kind == 'FieldDecl']
        caps = n.kids[1:1 + len(fields)]
        for f, c in zip(fields, caps):
            x = c
            while x is not None and x.kind not in ('DeclRefExpr', 'CXXThisExpr') and x.kids:
                x = x.kids[0]
            if x is not None and x.kind == 'DeclRefExpr' and not (f.raw.get('qt') or '').rstrip().endswith('&') and x.ref in env:
                env[x.ref] = self.new_root(self.read(env[x.ref]), 'cap')
        return Lam(op, None, env, self.frames[-1].this, n)

    def call_lam(self, lam, args, node):
        """args: list of Loc / V"""
        if isinstance(lam, Opq):
            raise Unsupported('call through a function object at %s' % self.where(node))
        if not isinstance(lam, Lam):
            raise Unsupported('call of %r' % (lam,))
        op = lam.params
        fr = Frame(op, this=lam.this, env=dict(lam.env))
        return self.run_fn(op, fr, args, node)

    def e_CXXThrowExpr(self, n):
        if not n.kids:
            raise ThrowX('rethrow', n)
        t = parse_type(n.kids[0].t)
        raise ThrowX((t.name or t.kind).split('::')[-1], n)

    def e_CXXNewExpr(self, n):
        raise Unsupported('new at %s' % self.where(n))

    def e_CXXDeleteExpr(self, n):
        return Void()

    def e_UnaryExprOrTypeTraitExpr(self, n):
        return Sc(SIZE, self.fresh('sizeof', z3.IntSort()))

    # ------------------------------------------------------------ calls
    def callee_of(self, n):
        x = n
        while x is not None and x.kind in ('ImplicitCastExpr', 'ParenExpr') and x.kids:
            x = x.kids[0]
        return x

    def fdecl(self, tu, rid):
        d = tu.decls.get(rid)
        if d is None:
            return None
        if d.kind not in fe.FUNC_KINDS:
            return None
        if not d.raw.get('mangledName') and 'twin' not in d.raw:
            # printed a second time under its template: same name and type, the complete entry carries the mangled name
            tw = [g for g in tu.funcs if g.name == d.name and g.raw.get('qt') == d.raw.get('qt') and g.raw.get('mangledName')]
            d.raw['twin'] = tw[0] if len(set(g.raw['mangledName'] for g in tw)) == 1 else None
        return d.raw.get('twin') or d

    def defn(self, d):
        m = d.raw.get('mangledName')
        f = self.prog.defs.get(m)
        if f is None and not self.prog.loaded_all:
            self.prog.load_all()
            self.init_records()
            f = self.prog.defs.get(m)
        return f

    def eval_args(self, nodes, f=None):
        args = []
        for k in nodes:
            if k.kind == 'CXXDefaultArgExpr' and not k.kids:
                args.append(None)
            else:
                args.append(self.ev(k))
        if None in args:
            if f is None:
                while args and args[-1] is None:
                    args.pop()
            else:
                args = self.fill_defaults(f, args, nodes[0] if nodes else None)
        return args

    def e_CallExpr(self, n):
        c = self.callee_of(n.kids[0])
        if c.kind == 'DeclRefExpr' and c.refd and c.refd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            d = self.fdecl(c.tu, c.ref)
            if d is not None:
                args = self.eval_args(n.kids[1:], d)
                return self.call(d, None, args, n)
            return self.M.std_call(self, c.refd['name'], n.kids[1:], n)
        if c.kind == 'MemberExpr':
            return self.e_CXXMemberCallExpr(n)
        if c.kind == 'CXXPseudoDestructorExpr':
            return Void()
        raise Unsupported('call at %s' % self.where(n))

    def obj_of(self, base, n):
        """location of the object a member function is called on"""
        b = self.ev(base)
        if isinstance(b, LocPtr):
            return b.loc
        if isinstance(b, Loc):
            v = self.read(b)
            if isinstance(v, LocPtr):
                return v.loc
            return b
        return self.new_root(b, 'tmp')

    def e_CXXMemberCallExpr(self, n):
        m = self.callee_of(n.kids[0])
        if m.kind != 'MemberExpr':
            raise Unsupported('member call through pointer')
        base = m.kids[0]
        d = self.fdecl(m.tu, m.ref)
        if d is not None:
            obj = self.obj_of(base, n)
            v = self.read(obj)
            if isinstance(v, It) or (isinstance(v, Opt)):
                l = self.M.it_deref(self, v, n) if isinstance(v, It) else obj.optv()
                if isinstance(v, Opt):
                    self.oblige('optional has a value when dereferenced', v.has, n)
                obj = l if isinstance(l, Loc) else self.new_root(l)
                v = self.read(obj)
            if isinstance(v, Rec) and v.t.name in GEO_KIDS and m.name in ('begin', 'end', 'cbegin', 'cend') and len(n.kids) == 1:
                self.assumptions.add('an iterator over the members of a geometry visits them in order of their index')
                hl = self.M.hloc(v.f['data_'])
                nk = self.read(hl).n
                self.assume(nk >= 0)
                return GIt(hl, z3.IntVal(0) if 'begin' in m.name else nk, v.t.name)
            d = self.devirt(d, v, m, base)
            args = self.eval_args(n.kids[1:], d)
            return self.call(d, obj, args, n)
        return self.M.std_method(self, m.name, base, n.kids[1:], n, m)

    def devirt(self, d, v, m, base):
        """the body a virtual call reaches: the override of the object's class; when the object may be of a class derived from that
        one (it came in by reference) and such a class overrides the function, only a contract can stand for all of them"""
        if d.kind != 'CXXMethodDecl' or not isinstance(v, Rec) or v.t.kind != 'rec' or v.t.name in GEO_ALL or v.t.name == 'Point':
            return d
        H = self.hierarchy()
        c = (d.raw.get('cls') or '').split('::')[-1]
        sig = self.sig_of(d)
        if not H.virtual(c, sig):
            return d
        t = v.t.name
        up = [x for x in H.up(t)]
        for x in up:
            g = H.methods.get((x, sig))
            if g is not None:
                d = self.fdecl(g.tu, g.id) or g
                break
        if any((x, sig) in H.methods for x in H.down(t) if x != t):
            con = self.contract_for(d)
            if con is None or con.inline:
                raise Unsupported('virtual call of %s at %s: the object may be of a derived class and there is no contract for all overrides' % (d.raw.get('qn'), self.where(m)))
        return d

    def sig_of(self, d):
        return (d.name,) + tuple(p.t for p in d.kids if p is not None and p.kind == 'ParmVarDecl')

    def hierarchy(self):
        h = getattr(self.prog, 'hier', None)
        if h is None or h.n != len(self.prog.tus):
            h = self.prog.hier = Hierarchy(self)
        return h

    def e_CXXOperatorCallExpr(self, n):
        c = self.callee_of(n.kids[0])
        name = c.refd['name']
        d = self.fdecl(c.tu, c.ref)
        argn = n.kids[1:]
        if d is not None and d.raw.get('parent') is not None and d.raw['parent'].kind == 'CXXRecordDecl' and \
                d.name == 'operator()' and not d.raw.get('cls'):
            d = None
        if d is not None and name == 'operator()' and self.prog.defs.get(d.raw.get('mangledName')) is None:
            d = None
        if name == 'operator=' and d is not None and (d.raw.get('explicitlyDefaulted') or d.raw.get('isImplicit') or self._defaulted(d)):
            v = self.rv(argn[1])
            l = self.lv(argn[0])
            if isinstance(v, IL):
                v = self.M.from_init_list(self, v, self.read(l).t)
            self.write(l, v)
            return l
        if d is not None:
            if d.kind == 'CXXMethodDecl' and d.raw.get('storageClass') != 'static':
                if name == 'operator=' and parse_type(d.raw.get('qt', '').split('(')[0]).name == 'Point':
                    v = self.rv(argn[1])
                    l = self.lv(argn[0])
                    self.write(l, v)
                    return l
                obj = self.obj_of(argn[0], n)
                args = self.eval_args(argn[1:], d)
                return self.call(d, obj, args, n)
            args = self.eval_args(argn, d)
            return self.call(d, None, args, n)
        return self.M.std_operator(self, name, argn, n)

    def _defaulted(self, d):
        m = d.raw.get('mangledName')
        for tu in self.prog.tus.values():
            for f in tu.funcs:
                if f.raw.get('mangledName') == m and (f.raw.get('explicitlyDefaulted') or f.raw.get('isImplicit')):
                    return True
        return False

    def contract_for(self, f):
        qn = f.raw.get('qn')
        cs = self.contracts.get(qn)
        if not cs:
            return None
        for c in cs:
            if c.matches(f):
                return c
        return None

    def call(self, d, obj, args, n):
        qn = d.raw.get('qn') or d.name
        h = self.M.f2c_builtin(self, d, qn, obj, args, n)
        if h is not NotImplemented:
            return h
        con = self.contract_for(d)
        if con is not None and not con.inline:
            f = self.defn(d) or d
            return self.call_contract(con, f, obj, args, n)
        f = self.defn(d)
        if f is None:
            return self.M.f2c_external(self, d, qn, obj, args, n)
        self.inlined.add(qn)
        return self.inline(f, obj, args, n)

    def inline(self, f, obj, args, n):
        fr = Frame(f, this=obj)
        return self.run_fn(f, fr, args, n)

    def run_fn(self, f, fr, args, n):
        self.depth += 1
        if self.depth > 14:
            raise Unsupported('call depth (recursion?) at %s' % self.where(n))
        ps = [p for p in f.kids if p is not None and p.kind == 'ParmVarDecl']
        for p, a in zip(ps, args):
            isref = (p.raw.get('qt') or p.t).rstrip().endswith('&') or p.t.rstrip().endswith('&')
            if isref:
                if not isinstance(a, Loc):
                    if isinstance(a, IL):
                        a = self.M.from_init_list(self, a, parse_type(p.t))
                    a = self.new_root(a, p.name or 'arg')
                fr.env[p.id] = a
            else:
                v = self.read(a) if isinstance(a, Loc) else a
                t = parse_type(p.t)
                v = self.coerce(v, t) if t.kind not in ('opaque', 'iter', 'ptr') else v
                fr.env[p.id] = self.new_root(v, p.name or 'arg')
        self.frames.append(fr)
        ret = None
        try:
            if f.kind == 'CXXConstructorDecl':
                self.run_ctor_inits(f, fr.this)
            for c in f.kids:
                if c is not None and c.kind in ('CompoundStmt', 'CXXTryStmt'):
                    self.ex(c)
        except ReturnX as r:
            ret = r.v
        finally:
            self.frames.pop()
        self.depth -= 1
        rt = (f.raw.get('qt') or '')
        rts = ret_type(f)
        if rts is None or rts == 'void' or ret is None:
            return Void()
        if rts.rstrip().endswith('&'):
            return ret
        v = self.read(ret) if isinstance(ret, Loc) else ret
        t = parse_type(rts)
        if t.kind not in ('opaque', 'iter', 'ptr'):
            v = self.coerce(v, t)
        return v

    # contracts at call sites ----------------------------------------------
    def call_contract(self, con, f, obj, args, n):
        self.used_contracts.add(con.name)
        ps = [p for p in f.kids if p is not None and p.kind == 'ParmVarDecl']
        locs = []
        for p, a in zip(ps, args):
            if not isinstance(a, Loc):
                t = parse_type(p.t)
                if t.kind not in ('opaque', 'iter', 'ptr'):
                    a = self.coerce(a, t)
                a = self.new_root(a, p.name or 'arg')
            elif not (p.raw.get('qt') or p.t).rstrip().endswith('&'):
                a = self.new_root(self.coerce(self.read(a), parse_type(p.t)), p.name or 'arg')
            locs.append(a)
        pre = self.st.copy()
        C = CallCtx(self, con, f, obj, locs, pre)
        for nm, g in con.requires(C) or []:
            self.oblige('precondition of %s: %s' % (con.short, nm), g, n, kind='precondition')
        # exceptional exits
        thr = con.throws(C) if con.throws else []
        if thr:
            conds = [c for _, c in thr]
            k = self.choice(conds + [z3.And([z3.Not(c) for c in conds])])
            if k < len(thr):
                raise ThrowX(thr[k][0], n)
        mods = con.modifies(C) or []
        if con.alloc:
            # the call may create geometries: older ones keep their contents unless they are listed in modifies
            a = self.st.alloc
            self.st.alloc = self.fresh('alloc', z3.IntSort())
            self.assume(self.st.alloc >= a)
            x = z3.Int('ca_x')
            h0 = dict(self.st.heap)
            for k in ('pts', 'kids'):
                if k not in mods:
                    h = self.st.heap[k]
                    h1 = self.st.heap[k] = self.fresh('heap_' + k, h.sort())
                    self.assume(z3.ForAll([x], z3.Implies(x < a, h1[x] == h[x]), patterns=[h1[x]]))
                    H = unpack(PTS if k == 'pts' else REFS, h1[x])
                    self.assume(z3.ForAll([x], z3.And(H.n >= 0, H.n < (1 << 31) - 1), patterns=[h1[x]]))
            if 'pts' not in mods and 'kids' not in mods:
                from . import geo
                geo.frame(self, a, h0['kids'], h0['pts'], self.st.heap['kids'], self.st.heap['pts'])
        for l in mods:
            if isinstance(l, str):
                if l == 'alloc':
                    a = self.st.alloc
                    self.st.alloc = self.fresh('alloc', z3.IntSort())
                    self.assume(self.st.alloc >= a)
                else:
                    self.st.roots = ()
                    if l == 'kids':
                        self.st.pure = False
                    self.st.heap[l] = self.fresh('heap_' + l, self.st.heap[l].sort())
            else:
                old = self.read(l)
                self.write(l, self.fresh_v('m', old.t))
        rts = ret_type(f)
        C.post = self.st
        rloc = None
        if rts is None or rts == 'void':
            C.res = Void()
        elif con.ret is not None:
            rloc = con.ret(C)
            C.res = self.read(rloc)
        else:
            C.res = self.fresh_v('ret_' + (f.name or ''), parse_type(rts))
        chk = con.key not in self.chk_contracts and not self.quiet
        ok0 = chk and self.check(self.st.pc, timeout=400) != 'unsat'
        for nm, g in con.ensures(C) or []:
            self.assume(g() if callable(g) else g)
        C.post = self.st.copy()
        if chk:
            self.chk_contracts.add(con.key)
            if ok0 and self.check(self.st.pc, timeout=400) == 'unsat':
                raise Unsupported('the contract of %s cannot be met at %s' % (con.short, self.where(n)))
        self.st.log = self.st.log + ((con.name, C),)
        return C.res if rloc is None else rloc


def ret_type(f):
    if f.kind in ('CXXConstructorDecl', 'CXXDestructorDecl'):
        return None
    qt = f.raw.get('qt') or ''
    t = f.t or qt
    # "R (args) quals"
    d = 0
    for i, ch in enumerate(qt):
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif ch == '(' and d == 0:
            r = qt[:i].strip()
            if r == 'auto':
                j = qt.rfind('->')
                return qt[j + 2:].strip() if j >= 0 else 'auto'
            return r
    return qt


def parse_type_of_class(f):
    cls = f.raw.get('cls')
    if cls:
        return T('rec', cls.split('::')[-1])
    return T('rec', f.name)


class CallCtx(object):
    """what a contract sees: pre-state, post-state, arguments, result"""

    def __init__(self, eng, con, f, obj, locs, pre):
        self.E, self.con, self.f, self.obj, self.locs, self.pre = eng, con, f, obj, locs, pre
        self.post = None
        self.res = None

    def _read(self, st, loc):
        s = self.E.st
        self.E.st = st
        try:
            return self.E.read(loc)
        finally:
            self.E.st = s

    def arg(self, i):
        return self._read(self.pre, self.locs[i])

    def arg_post(self, i):
        return self._read(self.post, self.locs[i])

    def calls(self, name):
        """ghost: the calls made through the named contract on the path that ended here"""
        return [c for n, c in self.post.log if n == name]

    def this(self):
        return self._read(self.pre, self.obj)

    def this_post(self):
        return self._read(self.post, self.obj)

    def heap(self, k):
        return self.pre.heap[k]

    def heap_post(self, k):
        return self.post.heap[k]


class LoopInfo(object):
    """view of a loop offered to invariant templates: roles instead of names"""

    def __init__(self, E, node, entry, mods, idx, cont, cond, cnode):
        self.E, self.node, self.entry, self.mods, self.idx, self.cont, self.cond, self.cnode = E, node, entry, mods, idx, cont, cond, cnode
        self.spec = E.spec
        self.outer = [x[2] for x in E.loopstack[:-1] if x[2] is not None]    # enclosing loops, outermost first
        self.visit = E.loopstack[-1][1]     # (map, index location, position of each key) of a loop over a map
        self.bound = getattr(E, 'loop_bound_now', None)     # (index location, end) of a library algorithm
        self.fnentry = E.entry      # CallCtx of the function under verification

    def at(self, st, loc):
        s = self.E.st
        self.E.st = st
        try:
            return self.E.read(loc)
        finally:
            self.E.st = s

    def _walk(self, v, loc, out, depth=0):
        out.append((loc, v))
        if isinstance(v, Rec) and v.t.name != 'Point' and depth < 3:
            for f, x in v.f.items():
                self._walk(x, loc.fld(f), out, depth + 1)

    def places(self, pred):
        """all (loc, value at entry) among live variables satisfying pred(value)"""
        out = []
        for r, v in self.entry.vars.items():
            tmp = []
            if v is not None:
                self._walk(v, Loc(r), tmp)
            out += [(l, x) for l, x in tmp if pred(x)]
        # reachable vectors behind references
        return out

    def modified(self, loc):
        path = tuple(a for k, a in loc.path)
        for (r, p) in self.mods:
            if r == loc.root:
                q = tuple(x for x in p if not str(x).startswith('#'))
                if q[:len(path)] == path or path[:len(q)] == q:
                    return True
        return False

    def ints(self):
        return [(l, v) for l, v in self.places(lambda x: isinstance(x, Sc) and x.t.kind == 'int') if self.modified(l)]

    def reals(self):
        return [(l, v) for l, v in self.places(lambda x: isinstance(x, Sc) and x.t.kind == 'real') if self.modified(l)]

    def vecs(self, elem=None, mod=None):
        return [(l, v) for l, v in self.places(lambda x: isinstance(x, Vec) and (elem is None or x.t.e.kind == elem or x.t.e.name == elem))
                if mod is None or self.modified(l) == mod]

    def maps(self, mod=None):
        return [(l, v) for l, v in self.places(lambda x: isinstance(x, Map)) if mod is None or self.modified(l) == mod]

    def iters(self):
        return [(l, v) for l, v in self.places(lambda x: isinstance(x, It)) if self.modified(l)]

    def z(self, st, loc):
        v = self.at(st, loc)
        return v.i if isinstance(v, It) else v.z

    def counters(self):
        """modified integer variables and iterators, as (name, function state -> Int term, entry term)"""
        out = []
        for l, v in self.ints():
            out.append((str(l.root[1]), (lambda st, l=l: self.z(st, l)), v.z))
        for l, v in self.iters():
            out.append((str(l.root[1]), (lambda st, l=l: self.z(st, l)), v.i))
        return out

    def auto(self):
        E = self.E
        out = []
        for nm, f, z0 in self.counters():
            out.append(('%s >= entry' % nm, lambda st, f=f, z0=z0: f(st) >= z0))
            out.append(('%s <= entry' % nm, lambda st, f=f, z0=z0: f(st) <= z0))
            out.append(('%s >= 0' % nm, lambda st, f=f: f(st) >= 0))
            if self.idx is None:
                out.append(('%s parity' % nm, lambda st, f=f, z0=z0: (f(st) - z0) % 2 == 0))
        for nm, f in self.cond_bounds():
            out.append((nm, f))
        if self.bound is not None:
            out.append(('index within the range', lambda st: self.z(st, self.bound[0]) <= self.bound[1]))
        if self.idx is not None:
            n0 = self.cont_size(self.entry)
            if n0 is not None:
                out.append(('index <= size', lambda st: self.z(st, self.idx) <= n0))
        cs = self.counters()
        for l, v in self.vecs(mod=True):
            out.append(('len %s unchanged' % (l.root[1],), lambda st, l=l, v=v: self.at(st, l).n == v.n))
            out.append(('len %s grows' % (l.root[1],), lambda st, l=l, v=v: self.at(st, l).n >= v.n))
            for nm, f, z0 in cs:
                out.append(('len %s tracks %s' % (l.root[1], nm),
                            lambda st, l=l, v=v, f=f, z0=z0: self.at(st, l).n - v.n == f(st) - z0))
        for i in range(len(cs)):
            for j in range(i + 1, len(cs)):
                if len(cs) <= 5:
                    out.append(('%s-%s constant' % (cs[i][0], cs[j][0]), lambda st, a=cs[i], b=cs[j]: a[1](st) - b[1](st) == a[2] - b[2]))
                    out.append(('%s+%s constant' % (cs[i][0], cs[j][0]), lambda st, a=cs[i], b=cs[j]: a[1](st) + b[1](st) == a[2] + b[2]))
        # heap: objects that existed before the loop keep their contents
        hs = [r[1] for r, p in self.mods if r != 'alloc' and r[0] == 'HEAP']
        if hs and ('cont2', False) in E._axkeys and 'kids' in self.entry.heap:
            from . import geo
            f2 = z3.Function('Cont2', sort_of(REFS), geo.HP, sort_of(geo.CONT2))
            f3 = z3.Function('Cont3', sort_of(REFS), geo.HK, geo.HP, sort_of(geo.CONT3))
            for nm, s0, a0 in [('loop', self.entry, self.entry.alloc)] + ([('call', E.entry.pre, E.entry.pre.alloc)] if E.entry is not None else []):
                x = z3.Int('fm_x')
                for f, g in ((f2, lambda st: ()), (f3, lambda st: (st.heap['kids'],))):
                    out.append(('contents of objects older than the %s' % nm, lambda st, f=f, g=g, s0=s0, a0=a0: z3.ForAll([x], z3.Implies(
                        x < a0, f(st.heap['kids'][x], *g(st), st.heap['pts']) == f(s0.heap['kids'][x], *g(s0), s0.heap['pts'])),
                        patterns=[f(st.heap['kids'][x], *g(st), st.heap['pts'])])))
        for (r, p) in self.mods:
            if r != 'alloc' and r[0] == 'HEAP':
                k = r[1]
                h0, a0 = self.entry.heap[k], self.entry.alloc

                def keep(st, k=k, h0=h0, a0=a0):
                    x = z3.Int('hk_r')
                    return z3.ForAll([x], z3.Implies(x < a0, st.heap[k][x] == h0[x]), patterns=[st.heap[k][x]])
                out.append(('heap %s keeps objects older than the loop' % k, keep))
                if self.E.entry is not None:
                    h1, a1 = self.E.entry.pre.heap[k], self.E.entry.pre.alloc

                    def keep1(st, k=k, h1=h1, a1=a1):
                        x = z3.Int('hk_r')
                        return z3.ForAll([x], z3.Implies(x < a1, st.heap[k][x] == h1[x]), patterns=[st.heap[k][x]])
                    out.append(('heap %s keeps objects older than the call' % k, keep1))
        return out

    def cond_names(self):
        """names of the variables in the loop test"""
        out = set()

        def walk(n):
            if n is None:
                return
            if n.kind == 'DeclRefExpr' and n.refd:
                out.add(n.refd.get('name'))
            for k in n.kids:
                walk(k)
        walk(self.cnode)
        return out

    def cont_size(self, st):
        if self.cont is None:
            return None
        v = self.at(st, self.cont)
        return v.n if isinstance(v, (Vec, Map)) else None

    def cond_bounds(self):
        """from a loop test  l < r : l <= r, or l still at its entry value"""
        out = []
        c = self.cnode
        tests = []

        def coll(c):
            while c is not None and c.kind in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups') and c.kids:
                c = c.kids[0]
            if c is None:
                return
            if c.kind == 'BinaryOperator' and c.op == '&&':
                coll(c.kids[0])
                coll(c.kids[1])
            elif c.kind == 'BinaryOperator' and c.op in ('<', '<=', '>', '>=', '!='):
                tests.append(c)
            elif c.kind == 'CXXOperatorCallExpr':
                tests.append(c)
        coll(c)
        for c in tests:
            if c.kind == 'CXXOperatorCallExpr':
                a, b = c.kids[1], c.kids[2]
                op = c.kids[0]
                x = op
                while x.kids:
                    x = x.kids[0]
                opn = (x.refd or {}).get('name', '')
                if opn not in ('operator<', 'operator!='):
                    continue
                opn = opn[8:]
            else:
                a, b = c.kids
                opn = c.op

            def val(st, nd):
                E = self.E
                s = E.st
                E.st = st.copy()
                sv = (E.dec, E.pos, E.work, E.cnt)
                E.work = []
                E.quiet += 1
                try:
                    v = E.rv(nd)
                    return v.i if isinstance(v, It) else v.z
                except (PathEnd, ThrowX, ReturnX):
                    raise Unsupported('bound')
                finally:
                    E.quiet -= 1
                    E.st = s
                    E.dec, E.pos, E.work, E.cnt = sv
            try:
                l0, r0 = val(self.entry, a), val(self.entry, b)
            except Unsupported:
                continue
            if not (z3.is_arith(l0) and z3.is_arith(r0)):
                continue
            sl = 1 if opn in ('<=', '>=') else 0
            if opn in ('<', '<=', '!='):
                out.append(('bound <=', lambda st, a=a, b=b, l0=l0: z3.Or(val(st, a) <= val(st, b) + sl, val(st, a) == l0)))
            if opn in ('<', '<='):
                out.append(('bound <=+1', lambda st, a=a, b=b, l0=l0: z3.Or(val(st, a) <= val(st, b) + 1 + sl, val(st, a) == l0)))
            if opn in ('>', '>=', '!='):
                out.append(('bound >=', lambda st, a=a, b=b, l0=l0: z3.Or(val(st, a) >= val(st, b) - sl, val(st, a) == l0)))
        return out
