"""Registry of compilation units and contracts."""
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QVC_REPO', '/repo')
UNITS = {}
CONTRACTS = []

class Unit:
    def __init__(s, name, srcs, cfg='generic', flags=(), libs=(), opt='-O1', layout=None, natlibs=None, omit=('qdp_strnlen.cc',)):
        s.omit = omit
        s.name = name
        s.srcs = [srcs] if isinstance(srcs, str) else list(srcs)
        s.cfg = cfg; s.flags = list(flags); s.opt = opt
        s.natlibs = natlibs      # further /repo/lib files linked only into the native build
    def __repr__(s): return s.name

def unit(name, srcs, **kw):
    if name not in UNITS: UNITS[name] = Unit(name, srcs, **kw)
    return UNITS[name]

class Contract:
    def __init__(s, prop, unit, name, fn, **kw):
        s.prop = prop; s.unit = unit; s.name = name; s.fn = fn
        s.opts = kw

def contract(prop, unit, name, **kw):
    def deco(fn):
        CONTRACTS.append(Contract(prop, unit, name, fn, **kw))
        return fn
    return deco
