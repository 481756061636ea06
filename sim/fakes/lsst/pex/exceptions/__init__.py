"""the part of lsst.pex.exceptions metadetect uses, with the real hierarchy"""
import builtins


class Exception(builtins.Exception):
    def __str__(self):
        return ', '.join(str(a) for a in self.args)


class LogicError(Exception):
    pass


class NotFoundError(Exception, builtins.LookupError):
    pass


class RuntimeError(Exception, builtins.RuntimeError):
    pass


class RangeError(RuntimeError):
    pass


class DomainError(LogicError):
    pass


class InvalidParameterError(LogicError):
    pass


class LengthError(LogicError):
    pass


class OutOfRangeError(LogicError):
    pass
