"""A measured change: the k-th comparison with a tiny threshold reports
`no change`, earlier ones report `still changing`."""


class ConvFloat(float):
    state = None

    @classmethod
    def make(cls, v, state):
        o = cls(v)
        o.state = state
        return o

    def _ask(self, t):
        """None: an ordinary comparison; True: still changing"""
        if not (0 < t < 1e-3) or self > 1e300:
            return None
        self.state[0] += 1
        return self.state[0] < self.state[1]

    def __gt__(self, t):
        r = self._ask(t) if t < 1e-3 else None
        return float.__gt__(self, t) if r is None else r

    def __ge__(self, t):
        r = self._ask(t) if t < 1e-3 else None
        return float.__ge__(self, t) if r is None else r

    def __lt__(self, t):
        r = self._ask(t) if t < 1e-3 else None
        return float.__lt__(self, t) if r is None else not r

    def __le__(self, t):
        r = self._ask(t) if t < 1e-3 else None
        return float.__le__(self, t) if r is None else not r

    __hash__ = float.__hash__
