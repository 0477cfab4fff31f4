"""Whole-source rules that complement the contexts (filled in per property)."""


class LintReport:
    def __init__(self):
        self.violations, self.inconclusive, self.rules, self.sites = [], [], [], 0


RULES = {}


def run(prop):
    rep = LintReport()
    for rule in RULES.get(prop, ()):
        rule(rep)
    return rep
