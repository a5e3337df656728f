"""Common skeleton of the differential whole-run checks: for each scenario the real program is run twice, on an input and on a
transformed input, and every observable of every output must be related as the property demands."""
from mc import *
from runner import Check, Res
import obs


class DiffCheck(Check):
    level = "exploration"
    batch = 30
    hooks = ("out",)
    variant = "fast"
    must_complete = True      # the transformed run must complete when the reference does

    def base(self, sc):
        """(cache key, Job) of the reference run"""
        raise NotImplementedError

    def other(self, sc):
        raise NotImplementedError

    def judge(self, sc, A, B, r):
        raise NotImplementedError

    def evaluate(self, scs):
        return pmap(self._batch, scs, self.batch, (self.variant,))

    def _batch(self, scs):
        base, keys, oth = {}, [], []
        for sc in scs:
            k, j = self.base(sc)
            keys.append(k)
            if k not in base:
                base[k] = j
            oth.append(self.other(sc))
        run_jobs(list(base.values()) + oth, variant=self.variant)
        res = []
        cache = (None, None)
        for sc, k, c in zip(scs, keys, oth):
            r = Res(); res.append(r)
            b = base[k]
            if not b.ok():
                r.note = "reference run does not complete for " + str(k)
            elif not c.ok():
                if self.must_complete:
                    r.bad("transformed run does not complete: %s; %s" % (c.status(), c.log(160).replace("\n", " ")))
            else:
                if cache[0] != k:
                    cache = (k, b.snaps("out"))
                A, B = cache[1], c.snaps("out")
                if len(A) != len(B):
                    r.bad("%d outputs instead of %d" % (len(B), len(A)))
                else:
                    r.states += len(A) + len(B); r.trans += len(A) + len(B) - 2
                    self.judge(sc, A, B, r)
            c.clean()
        for b in base.values():
            b.clean()
        return res


def report(r, step, d, n=4):
    d.sort(key=lambda x: -x[1])
    r.bad("output %d: %d quantities differ, e.g. %s" % (step, len(d), "; ".join("%s %s" % (x[0], x[2]) for x in d[:n])))
