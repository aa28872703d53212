"""Registry of scenarios (one function = one symbolic query family)"""

import os

REG = {}
KNOWN_LIMITS = {}


class Scenario(object):

    def __init__(self, prop, fn, tier, weight, kw):
        self.prop = prop
        self.name = fn.__name__
        self.fn = fn
        self.tier = tier
        self.weight = weight
        self.kw = kw


def scenario(prop, tier='quick', weight=1, **kw):
    """Register fn(ctx) as a scenario of a property"""
    def deco(fn):
        REG.setdefault(prop, {})[fn.__name__] = Scenario(
            prop, fn, tier, weight, kw)
        return fn
    return deco


def attempt(fn, *args, **kwargs):
    """(True, result) or (False, exception)"""
    try:
        return True, fn(*args, **kwargs)
    except Exception as err:                # noqa
        return False, err


if os.environ.get('SYMX_TB'):
    import traceback

    _plain = attempt

    def attempt(fn, *args, **kwargs):       # noqa
        try:
            return True, fn(*args, **kwargs)
        except Exception as err:            # noqa
            traceback.print_exc()
            return False, err
