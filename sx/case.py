"""One bounded harness instance"""


class Case:
    def __init__(self, id, fn, limits=None, **params):
        self.id = id
        self.fn = fn
        self.params = params
        self.limits = limits or {}
