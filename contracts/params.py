"""calibration parameters as documented in ramp/core/constants.py"""


def calibration(S):
    return S.R("0.5"), S.R("0.5"), S.R("0.5")  # s_peak, mu_peak, op_factor
