from .metacal import (  # noqa
    get_all_metacal, METACAL_MINIMAL_TYPES, METACAL_TYPES, DEFAULT_STEP,
)
