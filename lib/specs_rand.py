"""Generators for C32: random choices (the oracle is engine.Observer.chose and check.distributions)."""
from engine import Case
from gen import *
from check_base import Spec
from specs_core import case, dice
from specs_fish import fish_dice, fish_args
from specs_fp import fixp_dice, toys_dice

def c32(rng, i):
    x = rng.random()
    if x < .4: return dice(rng)
    if x < .55: return fish_dice(rng, *fish_args(rng, rng.random() < .4))
    if x < .75: return fixp_dice(rng)
    return toys_dice(rng)

SPECS = {
    "C32": Spec("C32", c32, "Programs made of random choices run on the ASan+UBSan build. Each choice observed is checked for membership "
                "and counted; at the end no outcome may have occurred less than half as often as expected, counted by itself, "
                "as the first choice of an IP, relative to the IP's choice before and relative to another IP's choice of the "
                "same rank, nor may these counts or those of pairs of choices of one IP fail a chi-squared test by 7.5 standard "
                "deviations. Non-trivial: at least 5 choices observed; distinct by program.", 3000, 40000,
                lambda c, v: sum(v.obs.chosen.values()) >= 10, tq=20, tt=300),
}
