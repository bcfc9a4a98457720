"""audit.c"""
from common import *

@proof('audit:rolemap_has', 'audit.c', ['rolemap_has', 'check_rolemap'])
def rolemap_has(mk):
    """a role map covers a role iff one of its roles is the role or an ancestor"""
    e = mk()
    fd, v, st = e.start('rolemap_has')
    res = e.runfn(fd, v, st)
    rm, r = v
    s0 = St()
    G = e.rtc(e.harr(s0, ('role', 'parent')))
    h = e.off(s0, 'rolemap', 'rq', rm)
    L = e.qlen(s0, h, 'rrefq')
    j = z3.Int('j')
    el = e.qat(s0, h, j, 'rrefq')
    ex = z3.Exists([j], z3.And(j >= 0, j < L, G(r, z3.Select(e.harr(s0, ('rref', 'role')), el))), patterns=[el])
    for val, s in res:
        e.oblige(s, e.tobool(val) == z3.And(rm != 0, ex), 'result iff a role of the map is the role or an ancestor')
