import logging

_root = logging.getLogger('lsst')
_root.addHandler(logging.NullHandler())
_root.propagate = False


class TaskError(Exception):
    pass


class Struct(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def getDict(self):
        return dict(self.__dict__)


class _Log(object):
    """the stack's logger still has the old method names"""
    def __init__(self, name):
        self._l = logging.getLogger('lsst.' + name)

    def warn(self, *a, **kw):
        self._l.warning(*a, **kw)

    def __getattr__(self, n):
        return getattr(self._l, n)


class Task(object):
    ConfigClass = None
    _DefaultName = None

    def __init__(self, config=None, name=None, parentTask=None, log=None,
                 **kw):
        if config is None:
            config = self.ConfigClass()
            config.validate()
        self.config = config
        self._name = name or self._DefaultName
        self._parentTask = parentTask
        self.log = log or _Log(str(self._name))
        self.metadata = {}

    def makeSubtask(self, name, **kw):
        field = getattr(self.config, name, None)
        if field is None:
            raise KeyError("%s's config does not have field %s" % (
                self._name, name))
        setattr(self, name, field.apply(name=name, parentTask=self, **kw))

    def getName(self):
        return self._name
