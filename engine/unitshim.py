"""astropy.units / astropy.constants as seen by code under symbolic execution."""
import types, inspect, functools
import numpy as _np
from fractions import Fraction
import astropy.units as RU
import astropy.constants as RC
from . import terms as T
from .terms import Sym, Unsupported
from .npshim import exact

_special = {"deg": T.PI / 180, "arcmin": T.PI / 10800, "arcsec": T.PI / 648000, "hourangle": T.PI / 12}


class Unit:
    _is_shim_unit = True

    def __init__(self, scale, dims, name=""):
        self.scale, self.dims, self.name = scale, {k: v for k, v in dims.items() if v}, name

    def is_equivalent(self, o):
        return self.dims == as_unit(o).dims

    def __mul__(self, o):
        if isinstance(o, Unit):
            d = dict(self.dims)
            for k, v in o.dims.items():
                d[k] = d.get(k, 0) + v
            return Unit(self.scale * o.scale, d, self.name + " " + o.name)
        if isinstance(o, Quantity):
            return Quantity(o.value, self * o.unit)
        return Quantity(o, self)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        if isinstance(o, (Unit, Quantity)):
            return self * o ** -1
        return Quantity(T.ONE / exact(o), self)

    def __rtruediv__(self, o):
        return Quantity(o, self ** -1)

    def __pow__(self, n):
        n = Fraction(n) if not isinstance(n, Sym) else n.args[0]
        return Unit(self.scale ** T.const(n), {k: v * n for k, v in self.dims.items()}, "(%s)**%s" % (self.name, n))

    def to(self, o, value=1):
        o = as_unit(o)
        if o.dims != self.dims:
            raise RU.UnitConversionError("not convertible")
        return exact(value) * self.scale / o.scale

    def __eq__(self, o):
        try:
            o = as_unit(o)
        except Exception:
            return False
        return self.dims == o.dims and (self.scale is o.scale or bool(exact(self.scale) == o.scale))

    def __hash__(self):
        return hash(tuple(sorted(self.dims.items())))

    @property
    def si(self):
        return Unit(T.ONE, self.dims, "SI")

    @property
    def physical_type(self):
        raise Unsupported("physical_type")

    def __repr__(self):
        return "Unit(%s)" % self.name

    __str__ = __repr__

    def to_string(self, *a):
        return self.name


def as_unit(o):
    if isinstance(o, Unit):
        return o
    if isinstance(o, str):
        return conv(RU.Unit(o))
    if isinstance(o, RU.UnitBase):
        return conv(o)
    if isinstance(o, Quantity):
        return Unit(o.unit.scale * exact(o.value), o.unit.dims, "q")
    if o is None or o == 1:
        return Unit(T.ONE, {}, "")
    raise Unsupported("unit %r" % (o,))


@functools.lru_cache(None)
def conv(ru):
    name = str(ru)
    if name in _special:
        return Unit(_special[name], {"rad": Fraction(1)}, name)
    d = ru.si if hasattr(ru, "si") else ru
    d = ru.decompose(bases=RU.si.bases)
    return Unit(T.const(T.simplest(d.scale)), {b.name: Fraction(p) for b, p in zip(d.bases, d.powers)}, name)


ONE_UNIT = Unit(T.ONE, {}, "")


class Quantity:
    _is_shim_quantity = True
    __array_priority__ = 10000
    __array_ufunc__ = None

    def __init__(self, value, unit=None, **kw):
        if isinstance(value, Quantity):
            if unit is None:
                unit = value.unit
                value = value.value
            else:
                value = value.to(unit).value
        unit = as_unit(unit) if unit is not None else ONE_UNIT
        if isinstance(value, (list, tuple)):
            value = _np.array([exact(v) for v in value], dtype=object)
        self.value = exact(value)
        self.unit = unit

    def _si(self):
        return self.value * self.unit.scale

    def to(self, unit, equivalencies=None):
        unit = as_unit(unit)
        if unit.dims != self.unit.dims:
            if equivalencies:
                raise Unsupported("equivalencies")
            raise RU.UnitConversionError("'%s' and '%s' are not convertible" % (self.unit, unit))
        if unit.scale is self.unit.scale:
            return Quantity(self.value, unit)
        return Quantity(self.value * (self.unit.scale / unit.scale), unit)

    def to_value(self, unit=None, equivalencies=None):
        return self.value if unit is None else self.to(unit, equivalencies).value

    @property
    def si(self):
        return self.to(Unit(T.ONE, self.unit.dims, "SI"))

    def decompose(self, *a, **k):
        if a or k:
            raise Unsupported("decompose arguments")
        return self.si

    def angle_value(self):
        if self.unit.dims == {"rad": Fraction(1)}:
            return self._si()
        if not self.unit.dims:
            return self._si()
        raise RU.UnitTypeError("trigonometric function of a non-angle")

    def dimensionless_value(self):
        if self.unit.dims:
            raise RU.UnitTypeError("dimensionless quantity required")
        return self._si()

    def elementwise(self, f, v):
        if isinstance(v, _np.ndarray):
            v = _np.frompyfunc(f, 1, 1)(v)
        else:
            v = f(v)
        return Quantity(v, ONE_UNIT)

    def _other(self, o):
        if isinstance(o, Quantity):
            return o
        if isinstance(o, Unit):
            return Quantity(T.ONE, o)
        if isinstance(o, (RU.UnitBase,)):
            return Quantity(T.ONE, conv(o))
        if isinstance(o, RU.Quantity):
            return Quantity(o.value, conv(o.unit))
        if T.lift(o) is not None or isinstance(o, _np.ndarray):
            return Quantity(o, ONE_UNIT)
        return None

    def __mul__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        return Quantity(self.value * o.value, self.unit * o.unit)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        return Quantity(self.value / o.value, self.unit / o.unit)

    def __rtruediv__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        return Quantity(o.value / self.value, o.unit / self.unit)

    def __pow__(self, n):
        if isinstance(n, Quantity):
            n = n.dimensionless_value()
        ns = exact(n)
        if ns.op != "const":
            if self.unit.dims:
                raise Unsupported("symbolic power of a quantity")
            return Quantity(self._si() ** ns, ONE_UNIT)
        return Quantity(self.value ** ns, self.unit ** ns.args[0])

    def _conv(self, o):
        o2 = self._other(o)
        if o2 is None:
            raise TypeError("unsupported operand")
        if o2.unit.dims != self.unit.dims:
            if not isinstance(o, Quantity) and exact(o) is T.ZERO:
                return T.ZERO
            raise RU.UnitConversionError("incompatible units")
        return o2.to(self.unit).value

    def __add__(self, o):
        return Quantity(self.value + self._conv(o), self.unit)

    __radd__ = __add__

    def __sub__(self, o):
        return Quantity(self.value - self._conv(o), self.unit)

    def __rsub__(self, o):
        return Quantity(self._conv(o) - self.value, self.unit)

    def __neg__(self):
        return Quantity(-self.value, self.unit)

    def __pos__(self):
        return self

    def __abs__(self):
        return Quantity(abs(self.value), self.unit)

    def __lt__(self, o):
        return self.value < self._conv(o)

    def __le__(self, o):
        return self.value <= self._conv(o)

    def __gt__(self, o):
        return self.value > self._conv(o)

    def __ge__(self, o):
        return self.value >= self._conv(o)

    def __eq__(self, o):
        try:
            return self.value == self._conv(o)
        except (TypeError, RU.UnitConversionError):
            return False

    def __ne__(self, o):
        try:
            return self.value != self._conv(o)
        except (TypeError, RU.UnitConversionError):
            return True

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return True

    def __float__(self):
        return float(self.dimensionless_value())

    def __int__(self):
        return int(self.dimensionless_value())

    def __iter__(self):
        return (Quantity(v, self.unit) for v in self.value)

    def __len__(self):
        return len(self.value)

    def __getitem__(self, i):
        return Quantity(self.value[i], self.unit)

    @property
    def shape(self):
        return _np.shape(self.value)

    @property
    def isscalar(self):
        return not isinstance(self.value, _np.ndarray)

    def copy(self):
        return Quantity(self.value, self.unit)

    def item(self):
        return self.value

    def sqrt(self):
        return self ** Fraction(1, 2)

    def sin(self):
        return self.elementwise(lambda x: T.fn("sin", x), self.angle_value())

    def cos(self):
        return self.elementwise(lambda x: T.fn("cos", x), self.angle_value())

    def __repr__(self):
        return "<Quantity %r %s>" % (self.value, self.unit)

    def __str__(self):
        return "%s %s" % (self.value, self.unit)

    def __format__(self, spec):
        return str(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def quantity_input(func=None, strict_dimensionless=False, **units):
    if func is None:
        return lambda f: quantity_input(f, strict_dimensionless, **units)
    sig = inspect.signature(func)

    @functools.wraps(func)
    def wrapper(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        for p in sig.parameters.values():
            if p.name not in b.arguments:
                continue
            arg = b.arguments[p.name]
            if p.name in units:
                target = units[p.name]
            else:
                target = p.annotation
            if target is inspect.Parameter.empty or isinstance(target, type):
                continue
            if arg is None and p.default is None:
                continue
            targets = target if isinstance(target, (list, tuple)) else [target]
            if None in targets and arg is None:
                continue
            targets = [as_unit(t) for t in targets if t is not None]
            if not isinstance(arg, Quantity):
                if isinstance(arg, RU.Quantity):
                    arg = Quantity(arg.value, conv(arg.unit))
                    b.arguments[p.name] = arg
                elif any(not t.dims for t in targets) and (T.lift(arg) is not None):
                    # astropy lets plain numbers pass for dimensionless arguments
                    continue
                else:
                    raise TypeError("Argument '%s' to function '%s' has no 'unit' attribute" % (p.name, func.__name__))
            if not any(t.dims == arg.unit.dims for t in targets):
                raise RU.UnitsError("Argument '%s' to function '%s' must be in units convertible to '%s'." % (p.name, func.__name__, targets))
        return func(*b.args, **b.kwargs)
    return wrapper


class _QMod(types.ModuleType):
    Quantity = Quantity


class Units(types.ModuleType):
    Quantity = Quantity
    quantity_input = staticmethod(quantity_input)
    UnitsError = RU.UnitsError
    UnitConversionError = RU.UnitConversionError
    UnitTypeError = RU.UnitTypeError
    quantity = _QMod("astropy.units.quantity")
    one = ONE_UNIT
    dimensionless_unscaled = ONE_UNIT
    UnitBase = Unit

    @staticmethod
    def Unit(x, *a, **k):
        return as_unit(x)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        r = getattr(RU, n)
        if isinstance(r, RU.UnitBase):
            return conv(r)
        raise Unsupported("astropy.units." + n)


C, G, EPS0 = T.var("c"), T.var("G"), T.var("eps0")
CONST_VALUES = {"c": RC.c.value, "G": RC.G.value, "eps0": RC.eps0.value}


class Const(Quantity):
    def __init__(self, value, unit, name="", uncertainty=0):
        Quantity.__init__(self, value, unit)
        self.name = name
        self.uncertainty = uncertainty


class Constants(types.ModuleType):
    c = Const(C, conv(RU.m / RU.s), "c")
    G = Const(G, conv(RU.m ** 3 / RU.kg / RU.s ** 2), "G")
    eps0 = Const(EPS0, conv(RC.eps0.unit), "eps0")

    @staticmethod
    def Constant(abbrev, name, value, unit, uncertainty, reference=None, system=None):
        return Const(value, as_unit(unit), name, uncertainty)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        r = getattr(RC, n)
        if isinstance(r, RU.Quantity):
            return Const(r.value, conv(r.unit), n)
        raise Unsupported("astropy.constants." + n)


def make():
    u = Units("astropy.units")
    k = Constants("astropy.constants")
    a = types.ModuleType("astropy")
    a.units, a.constants = u, k
    return {"astropy": a, "astropy.units": u, "astropy.constants": k, "astropy.units.quantity": u.quantity}
