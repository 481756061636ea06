"""stub of the meds package: only the part metadetect/detect.py uses"""
from . import util  # noqa
