"""Contracts: machine-checked specifications attached to functions of /repo by qualified name.

A contract is a set of Python functions over a call context C (pre-state, post-state, arguments, result) that
return named z3 formulas.  The same object is used in both directions: a caller is checked against it, and the
body found in /repo's current source is verified against it."""

REG = {}
ALL = []


class Contract(object):
    """name      qualified name in /repo
    sig       substring (or list of substrings) of the function type, to select an overload
    requires  C -> [(label, formula over the pre-state)]
    throws    C -> [(exception type, formula over the pre-state)]: exactly when the call exits by that exception
    modifies  C -> [location | 'pts' | 'kids']: everything else the caller can see keeps its value (frame)
    ensures   C -> [(label, formula over pre-state, post-state and result)]
    invariants  [LoopInfo -> [(label, state -> formula)]]: candidate loop invariants, each one proved or dropped
    alloc     the function may create geometry objects (older ones are unchanged unless listed in modifies)
    ret       C -> the location a returned reference designates (checked against the body, used at calls)
    props     the properties this contract carries
    trusted   not verified here (listed as an assumption)
    bounded   reason why the body is not within the verifier's reach: only the replay driver checks it (bounded, never counted as proved)
    virtual   contract of a virtual function: overrides are verified against it"""

    def __init__(self, name, sig=None, requires=None, throws=None, modifies=None, ensures=None, invariants=None,
                 result=None, alloc=False, props=(), trusted=None, inline=False, label=None, maythrow=(), assume=None,
                 file=None, unroll=None, aux=False, inst=None, notsig=None, bounded=None, houdini_ms=5000, budget=240, ret=None):
        self.name, self.sig = name, [sig] if isinstance(sig, str) else sig
        self.short = label or '::'.join(name.split('::')[-2:])
        self.requires = requires or (lambda C: [])
        self.throws = throws
        self.modifies = modifies or (lambda C: [])
        self.ensures = ensures or (lambda C: [])
        self.invariants = invariants
        self.result = result
        self.alloc = alloc
        self.props = list(props)
        self.trusted = trusted
        self.inline = inline
        self.maythrow = maythrow
        self.assume = assume
        self.file = file
        self.aux = aux
        self.inst = inst
        self.notsig = notsig
        self.bounded = bounded
        self.houdini_ms = houdini_ms
        self.budget = budget
        self.ret = ret
        REG.setdefault(name, []).append(self)
        ALL.append(self)

    @property
    def key(self):
        return self.name + (' ' + '/'.join(self.sig) if self.sig else '') + (' [%s]' % self.inst if self.inst else '')

    def matches(self, f):
        if self.inst is not None:
            cs = f.raw.get('mangledName') or ''
            if self.inst not in cs:
                return False
        qt = f.raw.get('qt') or ''
        if self.notsig and self.notsig in qt:
            return False
        if not self.sig:
            return True
        return all(s in qt for s in self.sig)

    def find(self, prog):
        return [f for f in prog.find(self.name) if self.matches(f)]


def by_property(pid):
    return [c for c in ALL if pid in c.props]
