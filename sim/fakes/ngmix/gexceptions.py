class NGmixBaseException(Exception):
    def __init__(self, value=''):
        super().__init__(value)
        self.value = value

    def __str__(self):
        return repr(self.value)


class GMixRangeError(NGmixBaseException):
    pass


class GMixFatalError(NGmixBaseException):
    pass


class GMixMaxIterEM(NGmixBaseException):
    pass


class PSFFluxFailure(NGmixBaseException):
    pass


class BootPSFFailure(NGmixBaseException):
    pass


class BootGalFailure(NGmixBaseException):
    pass


class FFTRangeError(NGmixBaseException):
    pass
