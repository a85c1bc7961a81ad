"""Drive the package through its public entry points."""
import elli

PROPAGATORS = {
    "expm": lambda: elli.PropagatorExpm(),
    "scipy": lambda: elli.PropagatorExpm(backend="scipy"),
    "torch": lambda: elli.PropagatorExpm(backend="torch"),
    "eig": lambda: elli.PropagatorEig(),
}


def evaluate(case, structure, lbda, theta, solver="4x4", prop=None, route=None, vector=None):
    """Evaluate by one of the equivalent routes a user has."""
    kw = {}
    cls = {"4x4": elli.Solver4x4, "2x2": elli.Solver2x2}[solver]
    if prop is not None and solver == "4x4":
        kw["propagator"] = PROPAGATORS[prop]()
    if route is None:
        route = int(case.rng.integers(4))
    case.event("evaluations by " + (solver if not prop else f"{solver}/{prop}"))
    if vector is not None and route in (0,):
        route = 1
    if route == 0:
        if solver == "4x4" and not kw:
            return structure.evaluate(lbda, theta)
        return structure.evaluate(lbda, theta, solver=cls, **kw)
    if route == 1:
        return elli.Experiment(structure, lbda, theta, vector).evaluate(cls, **kw)
    if route == 2:
        e = elli.Experiment(structure, 633, 12, vector)
        e.set_theta(theta)
        e.set_lbda(lbda)
        return e.evaluate(solver=cls, **kw)
    return cls(elli.Experiment(structure, lbda, theta, vector), **kw).calculate()
