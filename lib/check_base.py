import engine

class Spec:
    def __init__(self, prop, generate, rule, quick, thorough, nontrivial=None, judge=None, variant="asan", tq=34, tt=840,
                 steps=300, assumptions=(), extra_run=None, min_steps=0, also=()):
        self.also = tuple(also)         # further build variants: a case tagged with one of them runs on it
        self.prop = prop; self.generate = generate; self.rule = rule; self.quick = 3 * quick; self.thorough = 2 * thorough
        self.nontrivial = nontrivial; self.judge = judge or engine.judge; self.variant = variant
        self.tq = tq; self.tt = tt; self.assumptions = list(assumptions)
        self.extra_run = extra_run      # callable(ctx) -> None, for deciding work beyond generated programs
