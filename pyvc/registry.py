class Contract(object):
    def __init__(self, fn, params, cases, symbolic, note, finding, thorough,
                 small, targets, concrete):
        self.fn, self.params, self.cases = fn, params, cases
        self.symbolic, self.note, self.finding = symbolic, note, finding
        self.thorough, self.small = thorough, small
        self.targets = targets
        self.concrete = concrete
        self.name = fn.__name__


class Prop(object):
    def __init__(self, pid, assumptions=()):
        self.pid = pid
        self.contracts = []
        self.assumptions = list(assumptions)

    def contract(self, params=None, cases=60, symbolic=True, note="",
                 finding=None, thorough=None, small=4, targets=(),
                 concrete=True):
        """symbolic=False: outside the verifier's reach, bounded stand-in"""
        def dec(fn):
            self.contracts.append(Contract(
                fn, params or [{}], cases, symbolic, note, finding,
                thorough or cases * 20, small, list(targets), concrete))
            return fn
        return dec
