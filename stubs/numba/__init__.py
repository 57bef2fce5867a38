"""Pure-Python stand-in for numba, used because numba cannot be installed here.

Jitted functions run as ordinary Python.  "JIT emulation": while a function that
was decorated with njit/jit is on the call stack, functions that have a
registered `numba.extending.overload` are dispatched to the overload's
implementation, the way numba would at compile time.  Outside jitted code the
plain Python definition runs.  So a check can exercise both code paths.

The stand-in is deliberately permissive about typing: it does not decide whether
numba would be able to compile anything.
"""

import contextlib as _contextlib
import functools as _functools
import sys as _sys
import types as _pytypes

__version__ = "0.0-verif-stub"
IS_VERIF_STUB = True

_jit_depth = 0


def _jit_active():
  return _jit_depth > 0


def _wrap_jit(fn):
  @_functools.wraps(fn)
  def wrapper(*args, **kwargs):
    global _jit_depth
    _jit_depth += 1
    try:
      return fn(*args, **kwargs)
    finally:
      _jit_depth -= 1

  wrapper.py_func = fn
  wrapper.signatures = []
  return wrapper


def _is_plain_function(x):
  return isinstance(x, (_pytypes.FunctionType, _pytypes.BuiltinFunctionType, _pytypes.MethodType))


def jit(*args, **kwargs):
  if len(args) == 1 and not kwargs and _is_plain_function(args[0]):
    return _wrap_jit(args[0])
  if args and _is_plain_function(args[0]):
    return _wrap_jit(args[0])
  return _wrap_jit


njit = jit
vectorize = jit
generated_jit = jit


@_contextlib.contextmanager
def objmode(*args, **kwargs):
  global _jit_depth
  saved = _jit_depth
  _jit_depth = 0
  try:
    yield
  finally:
    _jit_depth = saved


def prange(*args):
  return range(*args)


class _Permissive:
  """An object standing for some numba type; any attribute or call works."""

  def __init__(self, name="?"):
    self._name = name

  def __getattr__(self, name):
    if name.startswith("__") and name.endswith("__"):
      raise AttributeError(name)
    return _Permissive(f"{self._name}.{name}")

  def __call__(self, *args, **kwargs):
    # Used both as constructors/casts (numba.int64(3)) and as decorators.
    if len(args) == 1 and not kwargs:
      x = args[0]
      if isinstance(x, (int, float)) and not isinstance(x, bool):
        if "int" in self._name:
          return int(x)
        if "float" in self._name:
          return float(x)
      if _is_plain_function(x):
        return x
    return _Permissive(f"{self._name}(...)")

  def __getitem__(self, item):
    return _Permissive(f"{self._name}[...]")

  def __repr__(self):
    return f"<numba-stub {self._name}>"

  def __hash__(self):
    return hash(self._name)

  def __eq__(self, other):
    return isinstance(other, _Permissive) and self._name == other._name


class _StubModule(_pytypes.ModuleType):

  def __getattr__(self, name):
    if name.startswith("__") and name.endswith("__"):
      raise AttributeError(name)
    value = _Permissive(f"{self.__name__}.{name}")
    setattr(self, name, value)
    return value


def _submodule(name):
  module = _StubModule(f"numba.{name}")
  _sys.modules[f"numba.{name}"] = module
  module.__path__ = []
  return module


# ---- types -------------------------------------------------------------
types = _submodule("types")


class Type:

  def __init__(self, name="?", **kwargs):
    self.name = name
    for k, v in kwargs.items():
      setattr(self, k, v)

  def __repr__(self):
    return f"<numba-stub type {self.name}>"

  def __hash__(self):
    return hash(self.name)

  def __eq__(self, other):
    return isinstance(other, Type) and self.name == other.name

  def __call__(self, *args, **kwargs):
    if len(args) == 1:
      return args[0]
    return self


class _Subtype(Type):
  pass


types.Type = Type
for _n in (
    "EnumMember", "IntEnumMember", "Literal", "TypeRef", "NumberClass",
    "Optional", "ListType", "DictType", "BaseTuple", "Omitted", "NoneType",
):
  setattr(types, _n, type(_n, (Type,), {}))

int64 = Type("int64")
int32 = Type("int32")
intp = Type("intp")
float64 = Type("float64")
float32 = Type("float32")
boolean = Type("bool")
void = Type("void")
types.int64, types.int32, types.intp = int64, int32, intp
types.float64, types.float32, types.boolean = float64, float32, boolean
types.unicode_type = Type("unicode_type")
types.none = Type("none")


def typeof(value, *unused):
  registered = extending.typeof_impl._registry.get(type(value))
  if registered is not None:
    return registered(value, None)
  return Type(f"typeof({type(value).__qualname__})")


def optional(t):
  return Type(f"optional({getattr(t, 'name', t)})")


# ---- typed containers ---------------------------------------------------
typed = _submodule("typed")


class List(list):
  """numba.typed.List stand-in."""

  @classmethod
  def empty_list(cls, item_type=None, allocated=0):
    result = cls()
    result._item_type = item_type
    return result

  @property
  def _numba_type_(self):
    return Type("ListType", item_type=getattr(self, "_item_type", None))

  def copy(self):
    result = type(self)(self)
    if hasattr(self, "_item_type"):
      result._item_type = self._item_type
    return result

  def __getitem__(self, item):
    # numba's typed.List returns typed.List when sliced.
    if isinstance(item, slice):
      return type(self)(list.__getitem__(self, item))
    return list.__getitem__(self, item)


class Dict(dict):
  """numba.typed.Dict stand-in (insertion ordered, as numba's is)."""

  @classmethod
  def empty(cls, key_type=None, value_type=None, n_keys=0):
    return cls()

  def copy(self):
    return type(self)(self)


typed.List = List
typed.Dict = Dict

# ---- extending -----------------------------------------------------------
extending = _submodule("extending")


def _overload(fn, *unused_args, **unused_kwargs):
  """Registers an overload, used while jitted code is on the call stack."""

  def decorator(factory):

    @_functools.wraps(fn)
    def dispatcher(*args, **kwargs):
      if _jit_active():
        impl = factory(*args, **kwargs)
        if impl is not None:
          return impl(*args, **kwargs)
      return fn(*args, **kwargs)

    if _is_plain_function(fn) and hasattr(fn, "__globals__"):
      if fn.__globals__.get(fn.__name__) is fn:
        fn.__globals__[fn.__name__] = dispatcher
    return factory

  return decorator


def _register_jitable(*args, **kwargs):
  if args and _is_plain_function(args[0]):
    return args[0]
  return lambda fn: fn


class _TypeofImpl:

  def __init__(self):
    self._registry = {}

  def register(self, cls):
    def decorator(fn):
      self._registry[cls] = fn
      return fn

    return decorator


def _passthrough_decorator(*unused_args, **unused_kwargs):
  if len(unused_args) == 1 and not unused_kwargs and _is_plain_function(unused_args[0]):
    return unused_args[0]
  return lambda fn: fn


extending.overload = _overload
extending.register_jitable = _register_jitable
extending.typeof_impl = _TypeofImpl()
extending.overload_method = lambda *a, **k: (lambda fn: fn)
extending.overload_attribute = lambda *a, **k: (lambda fn: fn)
extending.intrinsic = _passthrough_decorator

# ---- core, config, misc -------------------------------------------------
core = _submodule("core")
core.extending = extending
_sys.modules["numba.core.extending"] = extending
core.types = types
_sys.modules["numba.core.types"] = types
core.errors = _submodule("core.errors")
core.errors.TypingError = type("TypingError", (Exception,), {})
core.errors.NumbaError = type("NumbaError", (Exception,), {})
core.errors.NumbaWarning = type("NumbaWarning", (Warning,), {})
core.errors.NumbaTypeSafetyWarning = type("NumbaTypeSafetyWarning", (Warning,), {})
core.errors.NumbaExperimentalFeatureWarning = type("NumbaExperimentalFeatureWarning", (Warning,), {})
core.utils = _submodule("core.utils")
config = _submodule("config")
core.config = config
experimental = _submodule("experimental")
experimental.jitclass = _passthrough_decorator
errors = core.errors
literal_unroll = lambda x: x


def __getattr__(name):
  if name.startswith("__") and name.endswith("__"):
    raise AttributeError(name)
  return _Permissive(f"numba.{name}")
