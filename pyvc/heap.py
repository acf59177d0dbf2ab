"""heap values: objects, classes, functions, lists with symbolic parts (ropes)"""
import z3
from .core import *

LS = z3.DeclareSort('L')                       # abstract list segments
fLen = z3.Function('llen', LS, z3.IntSort())
fTake = z3.Function('take', LS, z3.IntSort(), LS)
fDrop = z3.Function('drop', LS, z3.IntSort(), LS)
fNthA = z3.Function('ntha', LS, z3.IntSort(), z3.StringSort())
fNthB = z3.Function('nthb', LS, z3.IntSort(), z3.StringSort())
fNthI = z3.Function('nthi', LS, z3.IntSort(), z3.IntSort())


class Obj(object):
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def __repr__(self):
        return '<Obj %s>' % (cls_name(self.cls),)


class Cls(object):
    def __init__(self, name, bases, ns, qual):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.qual = qual

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in (b.mro() if isinstance(b, Cls) else list(b.__mro__)):
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def __repr__(self):
        return '<Cls %s>' % self.name


class MCls(object):
    """class of modelled external objects; methods: name -> python fn(interp, self, *args)"""
    def __init__(self, name, methods=None, real=None):
        self.name = name
        self.methods = methods or {}
        self.real = real

    def __repr__(self):
        return '<MCls %s>' % self.name


def cls_name(c):
    if isinstance(c, (Cls, MCls)):
        return c.name
    return getattr(c, '__name__', str(c))


class Func(object):
    def __init__(self, node, module, qual, closure, defaults, kwdefaults, is_gen):
        self.node = node
        self.module = module
        self.qual = qual
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.is_gen = is_gen
        self.attrs = {}
        self.owner = None

    def __repr__(self):
        return '<Func %s>' % self.qual


class Bound(object):
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class Ext(object):
    """external callable with a model: fn(interp, args, kwargs)"""
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<Ext %s>' % self.name


class PropV(object):
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class StaticV(object):
    def __init__(self, f):
        self.f = f


class ClassMV(object):
    def __init__(self, f):
        self.f = f


class CtxFunc(object):
    """function decorated with contextmanager"""
    def __init__(self, f):
        self.f = f


class SuperV(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class ModV(object):
    def __init__(self, name, ns=None, real=None):
        self.name = name
        self.ns = ns if ns is not None else {}
        self.real = real


class GenV(object):
    """running generator of interpreted code"""
    def __init__(self, it, frame):
        self.it = it
        self.frame = frame
        self.done = False


class Atom(object):
    """symbolic part of a list; ek: 'pair' | 'str' | 'bytes' | 'int'"""
    __slots__ = ('t', 'ek', 'base', 'lo')

    def __init__(self, t, ek, base=None, lo=None):
        self.t = t
        self.ek = ek

    def __repr__(self):
        return 'Atom(%s)' % self.t


class VList(object):
    """list; segs: ('e', value) elements and Atoms"""
    def __init__(self, segs=()):
        self.segs = list(segs)

    @classmethod
    def of(cls, items):
        return cls([('e', x) for x in items])

    def concrete(self):
        return all(isinstance(s, tuple) for s in self.segs)

    def items(self):
        return [s[1] for s in self.segs]

    def __repr__(self):
        return 'VList(%r)' % (self.segs,)


class VDict(object):
    """dict with concrete keys in insertion order; or symbolic: .pairs rope (items only)"""
    def __init__(self, d=None, pairs=None):
        self.d = d if d is not None else {}
        self.pairs = pairs

    def __repr__(self):
        return 'VDict(%r,%r)' % (self.d, self.pairs)


class VSet(object):
    def __init__(self, items):
        self.items = list(items)


class RangeV(object):
    def __init__(self, a, b, step):
        self.a, self.b, self.step = a, b, step


class IterV(object):
    """explicit iterator over a concrete list of values"""
    def __init__(self, items):
        self.items = list(items)
        self.i = 0


class PyRaise(Exception):
    """exception raised by the interpreted program"""
    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return 'PyRaise(%r)' % (self.value,)


class Hom(object):
    """list homomorphism: UF on atoms, comb on parts"""
    def __init__(self, name, sort, unit, comb, elem, keysorts=()):
        self.name = name
        self.sort = sort
        self.unit = unit
        self.comb = comb
        self.elem = elem           # elem(value, *keys) -> term
        self.keysorts = keysorts
        self.f = z3.Function('h_' + name, LS, *(list(keysorts) + [sort]))
