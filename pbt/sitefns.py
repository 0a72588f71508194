"""Importable callables for SiteEnergyModel references ("sitefns:delta")."""


def delta(event=None, simulation_state=None, changes=None, external_occupation=None, runtime=None, scale=1.0,
          shift=0.0):
    """A value that depends on the announced changes and on the whole external occupation."""
    total = shift
    for c in changes:
        total += scale * (3.0 * float(c.new_value) - 2.0 * float(c.old_value)) * (1 + c.external_site % 4)
    total += 0.01 * sum((k % 5) * float(x) for k, x in enumerate(external_occupation))
    if runtime is not None:
        total *= runtime.factor
    return total


class Runtime:
    def __init__(self, factor):
        self.factor = factor
        self.calls = []


def make_runtime(factor=1.0):
    return Runtime(factor)


MADE = []


def counted_runtime(factor=1.0):
    MADE.append(Runtime(factor))
    return MADE[-1]


def applied(runtime=None, external_occupation=None, changes=None, event=None, simulation_state=None, tag=None):
    if runtime is not None:
        runtime.calls.append((tag, [(c.external_site, c.old_value, c.new_value) for c in changes],
                              list(external_occupation)))


def occupied(state, step, time):
    """A property callback: how many sites are in state 0."""
    return sum(1 for x in state.occupations if int(x) == 0)


HANDLERS = {}


def cb0(state, step, time):
    return HANDLERS[0](state, step, time)


def cb1(state, step, time):
    return HANDLERS[1](state, step, time)


class group:
    """Callbacks referenced by a dotted attribute path."""

    @staticmethod
    def cb2(state, step, time):
        return HANDLERS[2](state, step, time)


def cb3(state, step, time):
    return HANDLERS[3](state, step, time)


REFS = ["sitefns:cb0", "sitefns.cb1", "sitefns:group.cb2", "sitefns:cb3"]
