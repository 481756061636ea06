"""Stub of ngmix for the simulation: same interface and failure behaviour as
far as metadetect uses it, simplified numerics, every fit a fault point"""
__version__ = '2.3.0'

from . import flags, gexceptions, shape, moments, priors, joint_prior  # noqa
from . import jacobian, observation, gmix, guessers, runners  # noqa
from . import gaussmom, prepsfmom, ksigmamom, admom, fitting  # noqa
from . import bootstrap, metacal, medsreaders  # noqa
from .gexceptions import (  # noqa
    GMixRangeError, GMixFatalError, GMixMaxIterEM, BootPSFFailure,
    BootGalFailure, PSFFluxFailure,
)
from .jacobian import Jacobian, DiagonalJacobian, UnitJacobian  # noqa
from .observation import Observation, ObsList, MultiBandObsList  # noqa
from .gmix import GMix, GMixModel  # noqa
