"""typed, freezable configurations with the behaviour of lsst.pex.config"""
import copy


class FieldValidationError(ValueError):
    def __init__(self, field, config, msg):
        self.fieldType = type(field)
        self.fieldName = getattr(field, 'name', None)
        super().__init__('Field %r failed validation: %s' % (
            getattr(field, 'name', field), msg))


class _Typed(object):
    """what Class[T] gives: the class with its dtype bound"""
    def __init__(self, cls, dtype):
        self.cls, self.dtype = cls, dtype

    def __call__(self, *a, **kw):
        if self.cls._wants_dtype:
            kw.setdefault('dtype', self.dtype)
        return self.cls(*a, **kw)


class Field(object):
    _wants_dtype = True
    supported = (str, bool, float, int, complex, bytes)

    def __class_getitem__(cls, dtype):
        return _Typed(cls, dtype)

    def __init__(self, doc, dtype=None, default=None, check=None,
                 optional=False, deprecated=None):
        if dtype not in self.supported and self._wants_dtype:
            raise ValueError('Unsupported Field dtype %s' % (dtype,))
        self.doc, self.dtype, self.default = doc, dtype, default
        self.check, self.optional = check, optional

    def __set_name__(self, owner, name):
        self.name = name

    def cast(self, v):
        if self.dtype is float and isinstance(v, int) and not isinstance(
                v, bool):
            return float(v)
        return v

    def check_value(self, inst, v):
        if v is None:
            return
        if type(v) is not self.dtype:
            raise FieldValidationError(
                self, inst, 'Value %r is of incorrect type %s. Expected %s' % (
                    v, type(v).__name__, self.dtype.__name__))
        if self.check is not None and not self.check(v):
            raise FieldValidationError(self, inst, 'Value %r is not valid' % v)

    def init(self, inst):
        inst._storage[self.name] = copy.deepcopy(self.default)

    def __get__(self, inst, owner=None):
        if inst is None:
            return self
        return inst._storage[self.name]

    def __set__(self, inst, v):
        if inst._frozen:
            raise FieldValidationError(
                self, inst, 'Cannot modify a frozen Config')
        v = self.cast(v)
        self.check_value(inst, v)
        inst._storage[self.name] = v

    def validate(self, inst):
        v = self.__get__(inst)
        if not self.optional and v is None:
            raise FieldValidationError(
                self, inst, 'Required value cannot be None')
        self.check_value(inst, v)

    def to(self, inst):
        return self.__get__(inst)

    def freeze(self, inst):
        pass


class ChoiceField(Field):
    def __init__(self, doc, dtype=None, allowed=None, default=None,
                 optional=False, deprecated=None):
        self.allowed = dict(allowed)
        super().__init__(doc, dtype=dtype, default=default,
                         optional=optional)

    def check_value(self, inst, v):
        super().check_value(inst, v)
        if v is None and self.optional:
            return
        if v is not None and v not in self.allowed:
            raise FieldValidationError(
                self, inst, 'Value %r is not allowed' % (v,))


class List(object):
    """the elements of a ListField"""
    def __init__(self, config, field, value):
        self._config, self._field, self._list = config, field, []
        if isinstance(value, str):
            raise FieldValidationError(field, config, 'not a sequence')
        try:
            for x in value:
                self._list.append(self._one(x))
        except TypeError:
            raise FieldValidationError(
                field, config, 'Value %r is not a sequence' % (value,))

    def _one(self, x):
        f = self._field
        if f.dtype is float and type(x) is int:
            x = float(x)
        if type(x) is not f.dtype and x is not None:
            raise FieldValidationError(
                f, self._config, 'Item %r is of incorrect type' % (x,))
        return x

    def _mod(self):
        if self._config._frozen:
            raise FieldValidationError(
                self._field, self._config, 'Cannot modify a frozen Config')

    def __len__(self):
        return len(self._list)

    def __getitem__(self, i):
        return self._list[i]

    def __setitem__(self, i, v):
        self._mod()
        self._list[i] = self._one(v)

    def __delitem__(self, i):
        self._mod()
        del self._list[i]

    def insert(self, i, v):
        self._mod()
        self._list.insert(i, self._one(v))

    def append(self, v):
        self.insert(len(self._list), v)

    def __iter__(self):
        return iter(self._list)

    def __contains__(self, x):
        return x in self._list

    def __eq__(self, o):
        try:
            return list(self) == list(o)
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return repr(self._list)


class ListField(Field):
    def check_value(self, inst, v):
        pass

    def init(self, inst):
        inst._storage[self.name] = None if self.default is None else List(
            inst, self, self.default)

    def __set__(self, inst, v):
        if inst._frozen:
            raise FieldValidationError(
                self, inst, 'Cannot modify a frozen Config')
        inst._storage[self.name] = None if v is None else List(inst, self, v)

    def to(self, inst):
        v = self.__get__(inst)
        return None if v is None else list(v)


class ConfigField(Field):
    _wants_dtype = True

    def __init__(self, doc, dtype=None, default=None, check=None,
                 deprecated=None):
        self.doc, self.dtype, self.default = doc, dtype, default
        self.optional, self.check = False, check

    def init(self, inst):
        inst._storage[self.name] = (self.default or self.dtype)()

    def __set__(self, inst, v):
        if inst._frozen:
            raise FieldValidationError(
                self, inst, 'Cannot modify a frozen Config')
        if v is not self.dtype and type(v) is not self.dtype:
            raise FieldValidationError(
                self, inst, 'Value %r is of incorrect type' % (v,))
        if v is self.dtype:
            v = v()
        inst._storage[self.name].update(**v._items())

    def validate(self, inst):
        self.__get__(inst).validate()

    def to(self, inst):
        return self.__get__(inst).toDict()

    def freeze(self, inst):
        self.__get__(inst).freeze()


class ConfigurableInstance(object):
    """a configuration together with the class it configures"""
    def __init__(self, config, field):
        d = self.__dict__
        d['_config'], d['_field'] = config, field
        d['_target'] = field.target
        d['_ConfigClass'] = field.ConfigClass
        d['_value'] = field.ConfigClass()

    target = property(lambda s: s._target)
    ConfigClass = property(lambda s: s._ConfigClass)
    value = property(lambda s: s._value)

    def apply(self, *a, **kw):
        return self.target(*a, config=self.value, **kw)

    def retarget(self, target, ConfigClass=None):
        if self._config._frozen:
            raise FieldValidationError(
                self._field, self._config, 'Cannot modify a frozen Config')
        d = self.__dict__
        d['_target'] = target
        d['_ConfigClass'] = ConfigClass or target.ConfigClass
        d['_value'] = d['_ConfigClass']()

    def __getattr__(self, name):
        return getattr(self.__dict__['_value'], name)

    def __setattr__(self, name, v):
        if self._config._frozen:
            raise FieldValidationError(
                self._field, self._config, 'Cannot modify a frozen Config')
        setattr(self._value, name, v)


class ConfigurableField(Field):
    _wants_dtype = False

    def __init__(self, doc, target=None, ConfigClass=None, default=None,
                 check=None, deprecated=None, dtype=None):
        if ConfigClass is None:
            ConfigClass = target.ConfigClass
        self.doc, self.target, self.ConfigClass = doc, target, ConfigClass
        self.optional = False

    def init(self, inst):
        inst._storage[self.name] = ConfigurableInstance(inst, self)

    def __set__(self, inst, v):
        if inst._frozen:
            raise FieldValidationError(
                self, inst, 'Cannot modify a frozen Config')
        old = inst._storage[self.name]
        if isinstance(v, ConfigurableInstance):
            old.retarget(v.target, v.ConfigClass)
            old._value.update(**v._value._items())
        elif type(v) is old._ConfigClass:
            old._value.update(**v._items())
        elif v is old._ConfigClass:
            old._value.update(**v()._items())
        else:
            raise FieldValidationError(
                self, inst, 'Value %r is of incorrect type' % (v,))

    def validate(self, inst):
        inst._storage[self.name]._value.validate()

    def to(self, inst):
        return inst._storage[self.name]._value.toDict()

    def freeze(self, inst):
        inst._storage[self.name]._value.freeze()


class _Meta(type):
    def __init__(cls, name, bases, d):
        super().__init__(name, bases, d)
        f = {}
        for b in reversed(cls.__mro__):
            for k, v in b.__dict__.items():
                if isinstance(v, Field):
                    f[k] = v
        cls._fields = f


class Config(metaclass=_Meta):
    def __init__(self, **kw):
        object.__setattr__(self, '_frozen', False)
        object.__setattr__(self, '_storage', {})
        for f in self._fields.values():
            f.init(self)
        self.setDefaults()
        self.update(**kw)

    def __setattr__(self, name, v):
        if name in self._fields:
            self._fields[name].__set__(self, v)
        elif hasattr(getattr(type(self), name, None), '__set__'):
            object.__setattr__(self, name, v)
        elif name in type(self).__dict__ or name.startswith('_'):
            self.__dict__[name] = v
        else:
            raise AttributeError('%s has no attribute %s' % (
                type(self).__name__, name))

    def setDefaults(self):
        pass

    def validate(self):
        for f in self._fields.values():
            f.validate(self)

    def freeze(self):
        self._frozen = True
        for f in self._fields.values():
            f.freeze(self)

    def update(self, **kw):
        for k, v in kw.items():
            if k not in self._fields:
                raise KeyError('No field of name %s exists' % k)
            self._fields[k].__set__(self, v)

    def _items(self):
        return dict(self._storage)

    def items(self):
        return self._storage.items()

    def keys(self):
        return self._storage.keys()

    def toDict(self):
        return {k: f.to(self) for k, f in self._fields.items()}

    def __eq__(self, o):
        return type(self) is type(o) and self.toDict() == o.toDict()

    __hash__ = object.__hash__

    def __reduce__(self):
        return (_rebuild, (type(self), self._items(), self._frozen))


def _rebuild(cls, items, frozen):
    c = cls()
    c.update(**items)
    if frozen:
        c.freeze()
    return c
