"""Builds small simulations of the real code from generated configuration texts."""

import contextlib
import io
import os

SECTIONS = {
    "equations": "General", "depth_approx": "General",
    "desired_device": "System",
    "grid_type": "Grid", "discretization": "Grid", "lambda0": "Grid", "phi0": "Grid", "alpha0": "Grid",
    "ztop": "Grid", "x0": "Grid", "x1": "Grid", "z0": "Grid", "z1": "Grid",
    "case_number": "Test_case", "bubble_theta": "Test_case", "bubble_rad": "Test_case",
}


def schema_sections():
    import json
    from .env import REPO

    with open(os.path.join(REPO, "config", "config-format.json")) as f:
        d = json.load(f)
    return {fld["name"]: sec["name"] for sec in d["sections"] for fld in sec["fields"]}


def text(**opts):
    """Configuration text from option values."""
    where = schema_sections()
    secs = {}
    for k, v in opts.items():
        secs.setdefault(where[k], []).append(f"{k} = {v}")
    return "\n".join(f"[{s}]\n" + "\n".join(lines) + "\n" for s, lines in secs.items())


def options(case=6, nel=4, ns=3, nev=2, integrator="tvdrk3", dt=100.0, t_end=None, lambda0=0.0, phi0=0.0, alpha0=0.0,
            ztop=10000.0, tolerance=1e-9, depth="shallow", cart=False, nelx=4, nelz=3, domain=(0.0, 1000.0, 0.0, 1500.0),
            output_dir=None, **more):
    o = {}
    if cart:
        o.update(equations="euler", grid_type="cartesian2d", x0=domain[0], x1=domain[1], z0=domain[2], z1=domain[3],
                 bubble_theta=303.15, bubble_rad=250.0, num_elements_horizontal=nelx, num_elements_vertical=nelz)
    elif case <= 10:
        o.update(equations="shallow_water", grid_type="cubed_sphere", lambda0=lambda0, phi0=phi0, alpha0=alpha0,
                 num_elements_horizontal=nel)
    else:
        o.update(equations="euler", depth_approx=depth, grid_type="cubed_sphere", lambda0=lambda0, phi0=phi0,
                 alpha0=alpha0, ztop=ztop, num_elements_horizontal=nel, num_elements_vertical=nev)
    o.update(case_number=case, num_solpts=ns, dt=dt, t_end=dt * 1000 if t_end is None else t_end,
             time_integrator=integrator, tolerance=tolerance)
    if output_dir is not None:
        o["output_dir"] = output_dir
    o.update({k: v for k, v in more.items() if not k.startswith("_")})
    return o


def config_text(**kw):
    return text(**options(**kw))


_schema = None


def schema():
    global _schema
    if _schema is None:
        from common import ConfigurationSchema, readfile
        from .env import REPO

        with open(os.path.join(REPO, "config", "config-format.json")) as f:
            _schema = ConfigurationSchema(f.read())
    return _schema


def config(**kw):
    from common import Configuration

    return Configuration(config_text(**kw), schema())


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def make(comm=None, **kw):
    from simulation.simulation import Simulation
    from mpi4py import MPI

    return quiet(Simulation, config(**kw), comm or MPI.COMM_WORLD)
