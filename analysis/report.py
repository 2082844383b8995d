class Report:
    """what one property's rules established on this run"""

    def __init__(self, prop):
        self.prop = prop
        self.ob = 0            # obligations evaluated
        self.dis = 0           # obligations discharged
        self.und = {}          # reason -> count
        self.viol = {}         # key -> detail
        self.samples = []
        self.analysed = {}     # what was looked at: name -> count
        self.assumptions = []
        self.explanation = ''

    def ok(self, cond, key, detail='', sample=None):
        """one obligation"""
        self.ob += 1
        if cond:
            self.dis += 1
            if sample and len(self.samples) < 8 and sample not in self.samples:
                self.samples.append(sample)
        else:
            self.viol.setdefault(key, detail)
        return cond

    def undecided(self, why):
        self.und[why] = self.und.get(why, 0) + 1

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n


class Reports(dict):
    def __missing__(self, k):
        r = self[k] = Report(k)
        return r
