"""C04: a checkpoint is the exact state, and a restarted run continues exactly where the original one went."""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one checkpoint written by a real run and reloaded (array compared bit by bit with the state recorded by the "
    "monitor at that step, configuration option by option), one restarted run whose every later state is compared with the "
    "uninterrupted run, on the same or another number of processes, or one save/load of a random array (dtype, shape, memory "
    "order, special values). Non-trivial: the state differs from the initial state, or the array has more than one value."
)

CFGS = [
    dict(case=5, nel=4, ns=3, dt=300.0, integrator="tvdrk3"),
    dict(case=6, nel=4, ns=4, dt=200.0, integrator="euler1", lambda0=0.3, phi0=-0.2, alpha0=0.4),
    dict(case=6, nel=4, ns=3, dt=300.0, integrator="ros2", tolerance=1e-11),
    dict(case=5, nel=4, ns=3, dt=300.0, integrator="srerk3", tolerance=1e-11),
    dict(case=2, nel=4, ns=3, dt=300.0, integrator="epi2", tolerance=1e-11),
    dict(case=31, nel=4, ns=2, nev=2, dt=1.0, integrator="tvdrk3"),
    dict(case=21, nel=4, ns=2, nev=3, dt=0.5, integrator="tvdrk3"),
]
CART = [
    dict(cart=True, case=2, nelx=4, nelz=3, ns=3, dt=0.1, integrator="tvdrk3"),
    dict(cart=True, case=2, nelx=3, nelz=5, ns=4, dt=0.05, integrator="euler1"),
    dict(cart=True, case=2, nelx=4, nelz=3, ns=3, dt=0.5, integrator="epi2", tolerance=1e-11),
]
EXACT = ("tvdrk3", "euler1")


def public_options(cfg):
    out = {}
    for names in cfg.sections.values():
        for n in names:
            out[n] = getattr(cfg, n)
    return out


def run_cfg(rec, spec, cfg, idx, mon):
    import numpy as np
    from vf import glob, sims
    from output.state import load_state
    from common import Configuration

    rank, size = mon.rank, mon.size
    cart = cfg.get("cart", False)
    out = os.path.join(spec["dir"], f"c{idx}")
    N, freq = cfg.get("_n", 6), cfg.get("_freq", 2)
    kw = dict(cfg, output_dir=out, save_state_freq=freq, t_end=cfg["dt"] * N)

    def whole(sim, a):
        a = np.array(a)
        return a if cart else glob.gather(mon, a, glob.q_axis(sim))

    rec.begin(("full run", cfg, size))
    ref_conf = sims.config(**kw)
    content = ref_conf.config_content
    sim = sims.make(**kw)
    states = {0: whole(sim, sim.Q)}
    while sims.quiet(sim.step):
        states[sim.step_id] = whole(sim, sim.Q)
    if sorted(states) != list(range(N + 1)):
        rec.violation("steps", f"recorded steps {sorted(states)} rather than 0..{N}")
    mon.barrier()
    names = {s: sim.output.state_file_name(s) for s in range(N + 1)}
    if rank == 0:
        if len(set(names.values())) != N + 1:
            rec.violation("file-names-collide", "two steps share a checkpoint file")
        for s in range(N + 1):
            there = os.path.exists(names[s])
            if there != (s % freq == 0):
                rec.violation("checkpoint-cadence", f"checkpoint of step {s} {'exists' if there else 'is missing'} "
                              f"(every {freq} steps requested)")
            if not there:
                continue
            arr, conf = load_state(names[s], schema=sims.schema(), device=sim.device)
            same = arr.dtype == states[s].dtype and arr.shape == states[s].shape and arr.tobytes() == states[s].tobytes()
            rec.case(f"file:{idx}:{s}:{size}", nontrivial=s > 0)
            rec.count("checkpoints_compared")
            if not same:
                rec.violation(f"checkpoint-content:{'cart' if cart else 'cube'}", f"checkpoint of step {s} is not the state at that step "
                              f"({arr.shape} {arr.dtype} / {states[s].shape} {states[s].dtype}) {cfg}")
            a, b = public_options(conf), public_options(Configuration(content, sims.schema()))
            rec.count("options_compared", len(b))
            for k in sorted(set(a) | set(b)):
                if a.get(k, None) != b.get(k, None):
                    rec.violation("checkpoint-config", f"option {k}: saved {b.get(k)!r}, loaded {a.get(k)!r}")
    mon.barrier()
    # restart
    for s in range(freq, N, freq):
        rec.begin(("restart", s, cfg, size))
        r = sims.make(**dict(kw, starting_step=s, save_state_freq=0))
        if r.starting_step != s or r.step_id != s or abs(r.t - s * cfg["dt"]) > 1e-9 * cfg["dt"] * s:
            rec.violation("restart-step", f"restarted at step {r.starting_step}/{r.step_id}, time {r.t}, expected {s}, {s * cfg['dt']}")
        g = whole(r, r.Q)
        if rank == 0 and g.tobytes() != states[s].tobytes():
            rec.violation("restart-state", f"state after restart at step {s} is not the saved one (max difference "
                          f"{np.max(np.abs(g - states[s]))}) {cfg}, {size} processes")
        k = s
        while sims.quiet(r.step):
            k += 1
            g = whole(r, r.Q)
            if rank == 0:
                rec.case(f"restart:{idx}:{s}:{k}:{size}")
                rec.count("restarted_states_compared")
                if k not in states:
                    rec.violation("restart-extra-step", f"step {k} does not exist in the uninterrupted run")
                    continue
                ref = states[k]
                if cfg["integrator"] in EXACT:
                    ok = g.tobytes() == ref.tobytes()
                else:
                    ax = tuple(i for i in range(ref.ndim) if i != (0 if cart else 1))
                    sc = np.max(np.abs(ref), axis=ax, keepdims=True)
                    i = 0 if cart else 1
                    m = sc.max() * 1e-9
                    mom = np.take(sc, [1, 2], axis=i).max()
                    sc = np.maximum(sc, min(m, mom))
                    ok = bool(np.all(np.abs(g - ref) <= 1e-8 * sc + 0 * m))
                if not ok:
                    rec.violation(f"restart-trajectory:{cfg['integrator']}", f"state at step {k} after a restart at {s} differs by "
                                  f"{np.max(np.abs(g - ref)):.3e} {cfg}, {size} processes")
        if rank == 0 and (k != N or abs(r.t - cfg["dt"] * N) > 1e-9 * cfg["dt"] * N):
            rec.violation("restart-end", f"restarted run stopped at step {k}, time {r.t}; the original one at {N}, {cfg['dt'] * N}")
    if rank == 0:
        np.savez(os.path.join(spec["dir"], f"ref_{size}_{idx}.npz"), **{str(s): v for s, v in states.items()})
    mon.barrier()


def cross(rec, spec, cfg, idx, mon):
    """Restart, on this number of processes, from the checkpoints another number of processes wrote."""
    import numpy as np
    from vf import glob, sims

    src = spec["from"]
    out = os.path.join(spec["from_dir"], f"c{idx}")
    N, freq = cfg.get("_n", 6), cfg.get("_freq", 2)
    for s in range(freq, N, freq):
        rec.begin(("restart from other process count", s, cfg, mon.size))
        r = sims.make(**dict(cfg, output_dir=out, save_state_freq=0, starting_step=s, t_end=cfg["dt"] * N))
        g = glob.gather(mon, r.Q, glob.q_axis(r))
        ref = np.load(os.path.join(spec["from_dir"], f"ref_{src}_{idx}.npz")) if mon.rank == 0 else None
        if mon.rank == 0:
            rec.case(f"cross:{idx}:{s}:{src}:{mon.size}")
            rec.count("cross_restarts")
            if r.starting_step != s or g.tobytes() != ref[str(s)].tobytes():
                rec.violation("cross-restart-state", f"restart at step {s} on {mon.size} processes from a checkpoint written by {src}: "
                              f"starting step {r.starting_step}, state differs by {np.max(np.abs(g - ref[str(s)])):.3e} ({cfg})")
        k = s
        while sims.quiet(r.step):
            k += 1
            g = glob.gather(mon, r.Q, glob.q_axis(r))
            if mon.rank == 0:
                a = ref[str(k)]
                ax = tuple(i for i in range(a.ndim) if i != 1)
                sc = np.max(np.abs(a), axis=ax, keepdims=True)
                sc[:, 1:3] = sc[:, 1:3].max()
                if sc.shape[1] == 5:
                    sc[:, 3] = np.maximum(sc[:, 3], sc[:, 1:3].max())
                rec.count("restarted_states_compared")
                if not np.all(np.abs(g - a) <= 1e-8 * sc):
                    rec.violation("cross-restart-trajectory", f"step {k} differs by {np.max(np.abs(g - a)):.3e} after a restart at {s} on "
                                  f"{mon.size} processes ({cfg})")


def roundtrip(rec, spec):
    import numpy as np
    from vf import sims
    from device import Device
    from output.state import load_state, save_state
    from common import Configuration

    rng = np.random.default_rng(spec["seed"])
    dev = Device.get_default()
    n = 400 if spec["tier"] == "thorough" else 120
    for i in range(n):
        rec.begin(("roundtrip", i))
        dt = rng.choice(["float64", "float32", "complex128", "float64", "int64"])
        shape = tuple(int(x) for x in rng.integers(1, 7, rng.integers(1, 6)))
        a = rng.normal(size=shape) * 10.0 ** rng.integers(-300, 300, shape) if dt != "float32" else rng.normal(size=shape)
        if dt == "complex128":
            a = a + 1j * rng.normal(size=shape)
        with np.errstate(all="ignore"):
            a = a.astype(dt)
        if dt != "int64":
            flat = a.reshape(-1)
            for v in (np.nan, np.inf, -np.inf, -0.0, 5e-324):
                flat[rng.integers(0, flat.size)] = v
            a = flat.reshape(shape)
        mode = rng.integers(0, 4)
        if mode == 1:
            a = np.asfortranarray(a)
        elif mode == 2:
            a = a[..., ::-1]
        elif mode == 3:
            a = a.T
        before = a.copy()
        txt = sims.config_text(case=int(rng.choice([2, 5, 6])), nel=int(rng.integers(1, 60)), ns=int(rng.integers(1, 9)),
                               dt=float(rng.uniform(1e-3, 1e4)), tolerance=10.0 ** float(rng.integers(-14, -2)),
                               integrator=str(rng.choice(["tvdrk3", "epi2", "ros2"])), output_dir=f"dir é {i}")
        if i % 3 == 0:
            txt = "\n\n; comment\n# another = 3\n" + txt.replace("\n", "\n\n", 2) + "\n   \n"
        conf = Configuration(txt, sims.schema())
        f = os.path.join(spec["out"], "rt.npy")
        save_state(a, conf, f, device=dev if i % 2 else None)
        b, conf2 = load_state(f, schema=sims.schema() if i % 2 else None, device=dev if i % 2 else None)
        rec.case(f"array:{dt}:{len(shape)}:{mode}", nontrivial=a.size > 1)
        rec.count("roundtrips")
        if b.dtype != before.dtype or b.shape != before.shape or \
                np.ascontiguousarray(b).tobytes() != np.ascontiguousarray(before).tobytes():
            rec.violation("roundtrip-array", f"{dt} {shape} mode {mode} changed by save/load")
        if a.tobytes() != before.tobytes():
            rec.violation("roundtrip-input", "saving changed the array")
        x, y = public_options(conf), public_options(conf2)
        rec.count("options_compared", len(x))
        if x != y:
            bad = [k for k in set(x) | set(y) if x.get(k) != y.get(k)]
            rec.violation("roundtrip-config", f"options changed by save/load: {[(k, x.get(k), y.get(k)) for k in bad]}")
        if conf2.config_content.strip() != conf.config_content.strip():
            rec.violation("roundtrip-config-text", "the configuration text stored with the state is not the one of the run",
                          {"saved": conf.config_content, "loaded": conf2.config_content})


def worker(rec, spec):
    from mpi4py import MPI

    mon = MPI.COMM_WORLD.Dup()
    if spec["what"] == "roundtrip":
        roundtrip(rec, spec)
    elif spec["what"] == "cart":
        for i, c in enumerate(CART):
            run_cfg(rec, spec, c, i, mon)
    elif spec["what"] == "cube":
        for i, c in enumerate(CFGS):
            if i in spec["which"]:
                run_cfg(rec, spec, c, i, mon)
    elif spec["what"] == "cross":
        for i, c in enumerate(CFGS):
            if i in spec["which"]:
                cross(rec, spec, c, i, mon)


def drive(chk):
    me = "checks/c04.py"
    d6, d24, d1 = (os.path.join(chk.scratch, d) for d in ("d6", "d24", "d1"))
    for d in (d6, d24, d1):
        os.makedirs(d)
    every = list(range(len(CFGS)))
    few = every if chk.thorough else [0, 3, 5]
    chk.run_worker(me, {"what": "roundtrip", "label": "roundtrip"}, np=1, timeout=120)
    chk.run_worker(me, {"what": "cart", "dir": d1, "label": "cart"}, np=1, timeout=120)
    chk.run_worker(me, {"what": "cube", "which": every, "dir": d6, "label": "np6"}, np=6, timeout=150)
    chk.run_worker(me, {"what": "cube", "which": few, "dir": d24, "label": "np24"}, np=24, timeout=180)
    if not chk.violations and not chk.errors:
        chk.run_worker(me, {"what": "cross", "which": few, "from": 6, "from_dir": d6, "label": "6to24"}, np=24, timeout=150)
        chk.run_worker(me, {"what": "cross", "which": few, "from": 24, "from_dir": d24, "label": "24to6"}, np=6, timeout=150)
    chk.sample(CFGS[0])
    chk.require("checkpoints_compared", 20)
    chk.require("restarted_states_compared", 40)
    chk.require("cross_restarts", 6)
    chk.require("roundtrips", 100)


if __name__ == "__main__":
    driver.main("C04", RULE, drive, worker)
