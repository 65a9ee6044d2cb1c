"""C08: temperature from daily mean and range"""
import c07
from c07 import site, times  # noqa: F401


def scenarios(tier, rng):
    return c07.scenarios(tier, rng, ['sine_mean', 'mean_course_mean'])
