"""Contracts: curve length in octrope.c (exact real arithmetic)."""
from common import *
from c_meas import *
from c_meas import len_defs, len_inv, Tot, Run, wf_vt
from c_vec import NONL
CONTRACTS = {}


def C(name, args, **kw):
    kw.setdefault('opts', {}).update(NONL, absmul=True)
    CONTRACTS[name] = Contract(name, args, **kw)


def glob(c, name):
    g = c.eng.global_ptr(None, name)
    return PtrView(c.old, g, g.T)


C('octrope_curvelength', ['L'],
  requires=lambda c: wf_vt(c.L), defs=len_defs,
  ensures=lambda c: [('total length', c.ret == Tot(c.L.nc))],
  modifies=lambda c: [Obj(glob(c, 'octrope_error_num')), Obj(glob(c, 'octrope_error_str'))], inv=len_inv)


def se_pre(c):
    L, S = c.L, c.S
    return wf_vt(L) + [S.valid(), c.se.valid(2)] + apart(c.se, S, L, L.cp) + \
        [FA(0, L.nc, lambda i: L.cp[i].vt.obj != c.se.obj, pats=[lambda i: L.cp[i].vt.obj])] + \
        [0 <= S.component[k] for k in (0, 1)] + [S.component[k] < L.nc for k in (0, 1)] + \
        [0 <= S.lead_vert[k] for k in (0, 1)] + [S.lead_vert[k] < L.cp[S.component[k]].nv for k in (0, 1)]


def se_at(c, k, mem_se):
    L, S = c.L, c.S
    a, b = V(pt(L, S.component[k], S.lead_vert[k] + 1)), V(pt(L, S.component[k], S.lead_vert[k] + 2))
    w = add(mul(1 - S.position[k], a), mul(S.position[k], b))
    return z3.And([p == q for p, q in zip(V(mem_se[k]), w)])


C('octrope_strut_ends', ['L', 'S', 'se'], requires=se_pre,
  modifies=lambda c: [Obj(glob(c, 'octrope_error_num')), Obj(glob(c, 'octrope_error_str')), Rng(c.se, 0, 2)],
  ensures=lambda c: [('end %d on its edge at its position' % k, se_at(c, k, c.se_)) for k in (0, 1)],
  inv=lambda L: [('end %d < %s' % (k, n), Imp(x > k, se_at(L.c, k, L.c.arg('se', L.cur)))) for n, x in L.ints for k in (0, 1)], opts={'unroll': 3})


# ---- thickness and ropelength, from the searches for struts and radii (assumed here, checked by the bounded part)
Short = z3.Real('ShortestStrut')
Rad = z3.Real('LeastRadius')
MAXD = z3.RealVal(2 ** 1024 - 2 ** 971)


def errs(c):
    return [Obj(glob(c, 'octrope_error_num')), Obj(glob(c, 'octrope_error_str'))]


def opt(c, *nms):
    return [Or(getattr(c, n).null, getattr(c, n).valid()) for n in nms]


def off(c, *nms):
    """the results do not lie in the curve, nor in each other"""
    ps = [getattr(c, n) for n in nms]
    return apart(*ps, c.L, c.L.cp) + [FA(0, c.L.nc, lambda i: z3.And([c.L.cp[i].vt.obj != p.obj for p in ps]), pats=[lambda i: c.L.cp[i].vt.obj])]


C('octrope_minrad', ['L', 'cutoff', 'epsilon', 'min_rad_locs', 'mr_size', 'num_min_rad_locs'], assumed=True,
  requires=lambda c: wf_vt(c.L) + opt(c, 'num_min_rad_locs'),
  modifies=lambda c: errs(c) + [Obj(c.min_rad_locs), Ref(c.num_min_rad_locs.elem(0))],
  ensures=lambda c: [('least radius', z3.And(c.ret == Rad, Rad >= 0))])
C('octrope_struts', ['L', 'cutoff', 'epsilon', 'strutlist', 'sl_size', 'shortest', 'mem', 'memsize'], assumed=True,
  requires=lambda c: wf_vt(c.L) + [c.cutoff >= 0, c.epsilon >= 0, Or(c.strutlist.nonnull, c.sl_size == 0)] + opt(c, 'shortest'),
  modifies=lambda c: errs(c) + [Obj(c.strutlist), Ref(c.shortest.elem(0)), Obj(c.mem)],
  ensures=lambda c: [('number', c.ret >= 0), ('shortest', Imp(z3.And(c.shortest.nonnull, Or(c.cutoff == 0, c.ret > 0, c.cutoff == MAXD)), z3.And(c.shortest_[0] == Short, Short >= 0)))])
ROUT = ['ropelength', 'thickness_ret', 'curve_len_ret', 'min_rad_ret', 'min_strut_ret']
RALL = ROUT + ['min_rad_locs', 'num_min_rad_locs', 'strutlist', 'num_strut_ret', 'mem']


def thick(c):
    return z3.If(c.stiff == 0, Short / 2, z3.If(Short / 2 < Rad / c.stiff, Short / 2, Rad / c.stiff))


def out(c, n, v):
    return Imp(getattr(c, n).nonnull, getattr(c, n + '_')[0] == v)


C('octrope', ['L', 'ropelength', 'thickness_ret', 'curve_len_ret', 'min_rad_ret', 'min_strut_ret', 'mr_cutoff', 'mr_epsilon', 'min_rad_locs', 'mr_size', 'num_min_rad_locs',
              'strut_cutoff', 'strut_epsilon', 'strutlist', 'sl_size', 'num_strut_ret', 'mem', 'memsize', 'stiff'],
  requires=lambda c: wf_vt(c.L) + [c.stiff >= 0, c.strut_cutoff >= 0, c.strut_epsilon >= 0, Or(c.strutlist.nonnull, c.sl_size == 0)] + opt(c, *ROUT, 'num_min_rad_locs', 'num_strut_ret') + off(c, *RALL) +
  [getattr(c, n).obj != g.obj for n in ('num_min_rad_locs', 'num_strut_ret') for g in (glob(c, 'octrope_error_num'), glob(c, 'octrope_error_str'))],
  defs=len_defs,
  modifies=lambda c: errs(c) + [Ref(getattr(c, n).elem(0)) for n in ROUT + ['num_min_rad_locs', 'num_strut_ret']] + [Obj(c.min_rad_locs), Obj(c.strutlist), Obj(c.mem)],
  ensures=lambda c: [('thickness', out(c, 'thickness_ret', thick(c))), ('length', out(c, 'curve_len_ret', Tot(c.L.nc))),
                     ('ropelength', Imp(c.ropelength.nonnull, z3.If(thick(c) == 0, c.ropelength_[0] == MAXD, c.ropelength_[0] == Tot(c.L.nc) / thick(c)))),
                     ('least radius', out(c, 'min_rad_ret', z3.If(c.stiff == 0, MAXD, Rad))),
                     ('no places without stiffness', Imp(z3.And(c.num_min_rad_locs.nonnull, c.stiff == 0), c.num_min_rad_locs_[0] == 0)),
                     ('shortest strut', Imp(c.strut_cutoff == 0, out(c, 'min_strut_ret', Short)))])
for nm, res in (('octrope_thickness', lambda c: c.ret == thick(c)), ('octrope_ropelength', lambda c: z3.If(thick(c) == 0, c.ret == MAXD, c.ret == Tot(c.L.nc) / thick(c)))):
    C(nm, ['L', 'mem', 'memsize', 'stiff'], requires=lambda c: wf_vt(c.L) + [c.stiff >= 0] + off(c, 'mem'), defs=len_defs, modifies=lambda c: errs(c) + [Obj(c.mem)], ensures=(lambda f: lambda c: [('value', f(c))])(res))
C('octrope_poca', ['L', 'mem', 'memsize'], requires=lambda c: wf_vt(c.L) + off(c, 'mem'), modifies=lambda c: errs(c) + [Obj(c.mem)], ensures=lambda c: [('shortest strut', c.ret == Short)])
C('octrope_minradval', ['L'], requires=lambda c: wf_vt(c.L), modifies=errs, ensures=lambda c: [('least radius', c.ret == Rad)])
