"""Attribute sorts of the repository's classes as the simulation relies on them.

The sorts state the documented parameter ranges; they are the (assumed) precondition "the model was declared
within the documented ranges", and where an attribute is written by the code under contract the contract that
writes it re-establishes what the sort says.
"""
from pydv.registry import SCHEMA
from pydv.sorts import *

APPLIANCE = {
    "user": OwnerS("User"),
    "name": StrS(),
    "number": IntS(1),
    "power": ArrS((None,), "f", 0, None, 1),
    "_Appliance__constant_power": BoolS(),
    "num_windows": EnumS(1, 2, 3),
    "func_time": IntS(0, 1440),
    "time_fraction_random_variability": RealS(0, 1),
    "func_cycle": IntS(1, 1440),
    "fixed": EnumS("yes", "no"),
    "fixed_cycle": IntS(0, 3),
    "continuous_duty_cycle": IntS(0, 1),
    "occasional_use": RealS(0, 1),
    "flat": EnumS("yes", "no"),
    "thermal_p_var": RealS(0, 1),
    "pref_index": IntS(0, 3),
    "wd_we_type": IntS(0, 2),
    "random_var_w": RealS(0, 1),
    "window_1": PairS(0, 1440),
    "window_2": PairS(0, 1440),
    "window_3": PairS(0, 1440),
    "random_var_1": IntS(0, 1440),
    "random_var_2": IntS(0, 1440),
    "random_var_3": IntS(0, 1440),
    "daily_use": ArrS((1440,)),
    "free_spots": ListS(SliceS()),
    "current_duty_cycle_id": IntS(0, 3),
}
for i in (1, 2, 3):
    APPLIANCE.update(
        {
            f"p_{i}1": RealS(0),
            f"p_{i}2": RealS(0),
            f"t_{i}1": IntS(0, 1440),
            f"t_{i}2": IntS(0, 1440),
            f"r_c{i}": RealS(0, 1),
            f"cw{i}1": PairS(0, 1440),
            f"cw{i}2": PairS(0, 1440),
            f"random_cycle{i}": ArrS((None,), "f"),
        }
    )
SCHEMA["Appliance"] = APPLIANCE
SCHEMA["User"] = {
    "user_name": StrS(),
    "num_users": IntS(0),
    "user_preference": IntS(0, 3),
    "rand_daily_pref": IntS(0, 3),
    "load": ArrS((1440,)),
    "App_list": ObjListS("Appliance"),
    "usecase": OwnerS("UseCase"),
}

SCHEMA["UseCase"] = {
    "users": ObjListS("User"),
    "peak_time_range": AffineS(1),
    "days": DateIndexS(1),
    "_date_start": DateS(),
    "_date_end": DateS(),
    "name": StrS(),
    "parallel_processing": BoolS(),
    "_peak_enlarge": RealS(0),
    "_UseCase__num_days": IntS(1),
    "_UseCase__datetimeindex": DateIndexS(1, 1),
    "appliances": ObjListS("Appliance"),
}


def windows_ok(S, a):
    """each declared window ends no earlier than it starts and its random range is at most its length"""
    out = []
    for i in (1, 2, 3):
        w, rv = getattr(a, f"window_{i}"), getattr(a, f"random_var_{i}")
        out.append(S.le(S.at(w, 0), S.at(w, 1)))
        out.append(S.le(rv, S.sub(S.at(w, 1), S.at(w, 0))))
    return S.And(*out)



# attributes of a use case that need not be known before it is initialised (and are not read)
UNREAD = {k: AnyS() for k in ("peak_time_range", "days", "_date_start", "_date_end", "_UseCase__num_days", "_UseCase__datetimeindex", "appliances")}
