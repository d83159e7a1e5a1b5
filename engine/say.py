"""What a check says about one obligation: broken, not understood, or neither; each text once."""
from front import loc


class Say:
    def __init__(self, R, f, what, rule):
        self.R, self.f, self.what, self.rule, self.ok, self.n = R, f, what, rule, True, set()

    def bad(self, text):
        self.ok = False
        if text not in self.n:
            self.n.add(text)
            self.R.violate(loc(self.f), self.rule, '%s: %s: %s' % (self.f['q'][:90], self.what, text),
                           '%s|%s|%s' % (self.f['b'], self.what, text[:60]))

    def unk(self, text):
        if self.ok is True:
            self.ok = None
        if text not in self.n:
            self.n.add(text)
            self.R.undecided(loc(self.f), '%s: %s: %s' % (self.f['q'][:90], self.what, text))
