"""P04 implicit simplex decision"""
from vp.checks import p03

RULE = p03.RULE + '; the reference simulates the desired step and the whole backup window'
ASSUMPTIONS = p03.ASSUMPTIONS
REQUIRE = {'switch': 150, 'pass': 150, 'violation_only_last_point': 5, 'violation_only_first_point': 5, 'violation_only_on_backup_trajectory': 5,
           'switch_near_boundary': 60, 'pass_near_boundary': 60, 'switch_after_latch': 15, 'pass_after_latch': 15, 'switch_very_near': 10, 'pass_very_near': 10, 'long_window': 30, 'late_binding': 12}


def cases(tier, seed):
    return p03.cases(tier, seed, 'isimplex')


def run_case(case, obs):
    p03.run_case(case, obs, 'isimplex')
