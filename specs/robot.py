"""Robot: settings are validated, kept as set, and independent of each other."""
import z3
from f2cv.contract import Contract
from f2cv.values import *
from f2cv.sp import *

RO = 'f2c::types::Robot::'
P_ = ['C17']
RV = z3.RealVal
REALS = ('width_', 'cov_width_', 'cruise_speed_', 'max_icc_', 'linear_curv_change_')




def ab(x):
    return If(x < 0, -x, x)


def z(v, k):
    return v.f[k].z


def ctor(C):
    w, c, k, d = [C.arg(i).z for i in range(4)]
    t = C.this_post()
    return [('the width is the given one', z(t, 'width_') == w),
            ('the covered width is the given one, or the width when it is zero', z(t, 'cov_width_') == If(c == 0, w, c)),
            ('the largest curvature is the given one', z(t, 'max_icc_') == k),
            ('the largest change of curvature is the given one', z(t, 'linear_curv_change_') == d),
            ('no turning velocity of its own', Not(t.f['turn_vel_'].has)),
            ('the cruise velocity is one', z(t, 'cruise_speed_') == 1)]


Contract(RO + 'Robot', sig='(double, double, double, double)', props=P_, inline=True, modifies=lambda C: [C.obj],
         throws=lambda C: [('out_of_range', Or(C.arg(0).z <= 0, C.arg(1).z < 0))], ensures=ctor)


def keep(C, *changed):
    a, b = C.this(), C.this_post()
    out = [z(a, k) == z(b, k) for k in REALS if k not in changed]
    if 'name_' not in changed:
        out.append(veq(a.f['name_'], b.f['name_']))
    if 'turn_vel_' not in changed:
        out.append(veq(a.f['turn_vel_'], b.f['turn_vel_']))
    return [('every other setting stays', And(out))]


def getter(name, f, lab):
    Contract(RO + name, props=P_, inline=True, ensures=lambda C: [(lab, f(C))])


def setter(name, fld, f, lab):
    Contract(RO + name, props=P_, inline=True, modifies=lambda C: [C.obj], ensures=lambda C: [(lab, f(C))] + keep(C, fld))


getter('getName', lambda C: veq(C.res, C.this().f['name_']), 'the name')
getter('getWidth', lambda C: C.res.z == z(C.this(), 'width_'), 'the width')
getter('getCovWidth', lambda C: C.res.z == z(C.this(), 'cov_width_'), 'the covered width')
getter('getCruiseVel', lambda C: C.res.z == z(C.this(), 'cruise_speed_'), 'the cruise velocity')
getter('getTurnVel', lambda C: C.res.z == If(C.this().f['turn_vel_'].has, C.this().f['turn_vel_'].v.z, z(C.this(), 'cruise_speed_')), 'the turning velocity, the cruise velocity when there is none')
getter('getMaxCurv', lambda C: C.res.z == z(C.this(), 'max_icc_'), 'the largest curvature')
getter('getMaxDiffCurv', lambda C: C.res.z == z(C.this(), 'linear_curv_change_'), 'the largest change of curvature')
# the regularisation of the sources (1e-7) is part of the relation: radius and curvature are inverse up to 1e-7 of curvature / of radius
getter('getMinTurningRadius', lambda C: (lambda k, r: Implies(k >= 0, And(r > 0, r * k <= 1, r * (k + RV('1/1000000')) >= 1)))(z(C.this(), 'max_icc_'), C.res.z), 'the inverse of the largest curvature, finite for none')
setter('setName', 'name_', lambda C: veq(C.this_post().f['name_'], C.arg(0)), 'the name is the given one')
setter('setWidth', 'width_', lambda C: z(C.this_post(), 'width_') == C.arg(0).z, 'the width is the given one')
setter('setCovWidth', 'cov_width_', lambda C: z(C.this_post(), 'cov_width_') == C.arg(0).z, 'the covered width is the given one')
setter('setCruiseVel', 'cruise_speed_', lambda C: z(C.this_post(), 'cruise_speed_') == C.arg(0).z, 'the velocity is the given one')
setter('setTurnVel', 'turn_vel_', lambda C: And(C.this_post().f['turn_vel_'].has, C.this_post().f['turn_vel_'].v.z == C.arg(0).z), 'the turning velocity is the given one')
setter('setMaxCurv', 'max_icc_', lambda C: z(C.this_post(), 'max_icc_') == ab(C.arg(0).z), 'the curvature is the given one without sign')
setter('setMaxDiffCurv', 'linear_curv_change_', lambda C: z(C.this_post(), 'linear_curv_change_') == ab(C.arg(0).z), 'the change of curvature is the given one without sign')
setter('setMinTurningRadius', 'max_icc_', lambda C: (lambda k, r: And(k > 0, k * r <= 1, k * (r + RV('1/1000000')) >= 1))(z(C.this_post(), 'max_icc_'), ab(C.arg(0).z)), 'the curvature is the inverse of the radius without sign, finite for none')
