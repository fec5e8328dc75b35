"""Obligations and their outcome."""
PROVED, VIOLATED, UNDECIDED = "proved", "violated", "undecided"


class Ob:
    """one obligation: a rule applied to a construct of the analysed source"""

    def __init__(self, rule, construct, status, detail="", where=""):
        self.rule, self.construct, self.status, self.detail, self.where = rule, construct, status, detail, where

    def key(self):
        return f"{self.rule} {self.construct}"

    def as_dict(self):
        d = {"rule": self.rule, "construct": self.construct, "status": self.status}
        if self.where:
            d["where"] = self.where
        if self.detail:
            d["detail"] = self.detail
        return d

    def __repr__(self):
        return f"{self.status}: {self.rule}: {self.construct} {self.where} {self.detail}"


def proved(rule, construct, detail="", where=""):
    return Ob(rule, construct, PROVED, detail, where)


def violated(rule, construct, detail="", where=""):
    return Ob(rule, construct, VIOLATED, detail, where)


def undecided(rule, construct, detail="", where=""):
    return Ob(rule, construct, UNDECIDED, detail, where)
