"""Specification tables and helpers shared by the checks (written from the documentation of the schemes,
independently of the code)."""
import replay
from expr import *
from harness import *

DEG = {'2SPLIT2_MODAL': 1, '2SPLIT1A': 1, '2SPLIT1B': 1, '2SPLIT2A': 1, '2SPLIT2B': 1, '2SPLIT2S': 1, '2SPLIT3A': 3, '2SPLIT3B': 3, '2SPLIT3S': 2,
       '2SPLIT4A': 4, '2SPLIT4B': 2, '2SPLIT5A': 15, '2SPLIT5B': 15, '2SPLIT6A': 12, '2SPLIT6B': 6, '2SPLIT7A': 105, '2SPLIT7B': 105, '2SPLIT8A': 24, '2SPLIT8B': 12,
       '4SPLIT4A': 4, '4SPLIT4B': 2}
SLOW = ['BO', 'CF4_2', 'CF4_3', 'CF5_3', 'CF6_4', 'ES4', 'TES4']
UPS = {'4SPLIT4A': 2, '4SPLIT4B': 2, 'CF4_2': 2, 'CF4_3': 3, 'CF5_3': 3, 'ES4': 3, 'TES4': 3, 'CF6_4': 4}
ORDER = {'4SPLIT4A': 4, '4SPLIT4B': 4, 'CF4_2': 4, 'CF4_3': 4, 'ES4': 4, 'TES4': 4, 'CF5_3': 5, 'CF6_4': 6}
ALL = list(DEG) + SLOW
MDEG = {'2SPLIT3A': 6, '2SPLIT3B': 6, '2SPLIT4A': 8, '2SPLIT4B': 4, '2SPLIT6B': 12, '4SPLIT4A': 8, '4SPLIT4B': 4, '4SPLIT6B': 12, 'FTES4_4A': 8, 'FTES4_4B': 8, 'FTES4_suzuki': 14}
MUPS = {'4SPLIT4A': 2, '4SPLIT4B': 2, '4SPLIT6B': 2, 'CF4_2': 2}


def ups(n):
    return UPS.get(n, 1)


_en = {}


def enum(fam):
    """name (without prefix) -> value for the discretization enumerations of the tree under test"""
    if fam not in _en:
        h, t = {'akns': ('fnft__akns_discretization_t.h', 'fnft__akns_discretization_t'), 'nse': ('fnft_nse_discretization_t.h', 'fnft_nse_discretization_t'),
                'kdv': ('fnft_kdv_discretization_t.h', 'fnft_kdv_discretization_t'), 'manakov': ('fnft_manakov_discretization_t.h', 'fnft_manakov_discretization_t')}[fam]
        pre = t[:-1]
        _en[fam] = {k[len(pre):]: v for k, v in replay.enum_values(h, t).items()}
    return _en[fam]


def cpairs(name, k, impl, spec):
    """obligation items for one complex output"""
    spec = C.of(spec)
    return [((name, k, 're'), impl.re, spec.re), ((name, k, 'im'), impl.im, spec.im)]
