"""C05: with a missing or damaged checkpoint, all processes fall back together to a clean start."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one damaged checkpoint (truncation at an enumerated or random byte, corrupted header, other shape, other format, "
    "missing, replaced by something else) offered to a real restart on 1, 6 or 24 processes. Observed on every process: whether "
    "the start succeeds, the starting step, the bits of the starting state, and one further time step. Non-trivial: the file "
    "differs from the valid checkpoint."
)


def npy(a, version=(1, 0)):
    import io
    import numpy as np

    b = io.BytesIO()
    np.lib.format.write_array(b, a, version=version)
    return b.getvalue()


def damages(good, arr, data_start, data_end, rng, n):
    """(name, content or None, acceptable): acceptable = the file still holds the complete right array."""
    import numpy as np

    tail = good[data_end:]
    out = [("missing", None), ("empty", b"")]
    cuts = {1, 5, 6, 7, 8, 9, 10, 11, 40, data_start - 1, data_start, data_start + 1, data_start + 8, (data_start + data_end) // 2,
            data_end - 8, data_end - 1, data_end, data_end + 1, data_end + 2, len(good) - 1, len(good) - 40}
    cuts |= {int(x) for x in rng.integers(1, len(good), n)}
    for c in sorted(cuts):
        out.append((f"cut{c}", good[:c]))
    out.append(("magic", b"\x00" + good[1:]))
    out.append(("version", good[:6] + b"\x09" + good[7:]))
    out.append(("header-length", good[:8] + b"\xff\xff" + good[10:]))
    for k in range(4):
        p = int(rng.integers(10, data_start - 2))
        out.append((f"header-byte{p}", good[:p] + bytes([good[p] ^ 0x15]) + good[p + 1:]))
    out.append(("random", bytes(rng.integers(0, 256, 5000, dtype=np.uint8))))
    out.append(("text", b"this is not a state\n" * 40))
    shapes = {
        "fewer-vars": arr[tuple([slice(None)] * (1 if arr.ndim > 4 else 0) + [slice(0, -1)])],
        "flat": arr.reshape(-1),
        "scalar": np.array(3.0),
        "no-points": arr[..., :0],
        "half-last": arr[..., : max(1, arr.shape[-1] // 2)],
        "extra-axis": arr[None],
        "first-axis": arr[:-1],
        "zero-dim0": arr[:0],
        "transposed": np.ascontiguousarray(arr.T),
    }
    if arr.shape[0] == 6:
        ax = arr.ndim - 3
        shapes["odd-side"] = np.take(np.take(arr, range(arr.shape[ax] - 1), axis=ax), range(arr.shape[ax] - 1), axis=ax + 1)
        shapes["not-square"] = np.take(arr, range(arr.shape[ax] - 1), axis=ax)
        shapes["not-square-narrow"] = np.take(arr, range(arr.shape[ax + 1] - 1), axis=ax + 1)
        shapes["not-square-tall"] = np.repeat(arr, 2, axis=ax)
        shapes["double-side"] = np.repeat(np.repeat(arr, 2, axis=ax), 2, axis=ax + 1)
        shapes["seven-panels"] = np.concatenate([arr, arr[:1]])
        shapes["swapped-axes"] = np.ascontiguousarray(np.swapaxes(arr, 0, 1))
    for k, a in shapes.items():
        if a.shape != arr.shape:
            out.append((f"shape:{k}", npy(np.ascontiguousarray(a)) + tail))
    import pickle

    out.append(("pickle", pickle.dumps({"a": 1})))
    obj = npy(arr.astype(object))
    out.append(("pickled-array", obj + tail))
    out.append(("pickled-state", pickle.dumps(arr) + tail))
    out.append(("object-array", good[:data_start].replace(b"<f8", b"|O ") + good[data_start:]))
    out.append(("bad-config", good[:data_end] + b"1.0\n[[[\nnonsense\x00=\n=\n"))
    out.append(("bad-config-bytes", good[:data_end] + b"1.0\n\xff\xfe\xfa\n"))
    out.append(("other-config", good[:data_end] + b"1.0\n[General]\nequations = nothing\n"))
    return out


def worker(rec, spec):
    import numpy as np
    from mpi4py import MPI
    from vf import sims

    mon = MPI.COMM_WORLD.Dup()
    rng = np.random.default_rng(spec["seed"] * 7 + mon.size)
    for idx, cfg in enumerate(spec["configs"]):
        out = os.path.join(spec["dir"], f"{mon.size}_{idx}")
        kw = dict(cfg, output_dir=out, t_end=cfg["dt"] * 5, save_state_freq=2)
        rec.begin(("make checkpoint", cfg))
        sim = sims.make(**kw)
        init = np.array(sim.initial_Q)
        sims.quiet(sim.step)
        sims.quiet(sim.step)
        saved = np.array(sim.Q)
        path = sim.output.state_file_name(2)
        first = sims.make(**dict(cfg, output_dir=out, t_end=cfg["dt"] * 5))
        sims.quiet(first.step)
        after_init = np.array(first.Q)
        mon.barrier()
        jobs = None
        if mon.rank == 0:
            with open(path, "rb") as f:
                good = f.read()
                f.seek(0)
                arr = np.load(f)
                end = f.tell()
            jobs = damages(good, arr, end - arr.nbytes, end, rng, spec["n"])
            names = [n for n, _ in jobs]
        else:
            names = good = None
        names = mon.bcast(names)
        # damages after which the file is not a checkpoint any more (others may leave the array and a readable configuration)
        refused = mon.bcast({f"cut{end}", f"cut{end + 1}", f"cut{end + 2}", "bad-config", "bad-config-bytes", "other-config", "pickled-array", "pickled-state",
                             "pickle", "text", "random", "empty", "missing", "directory"} if mon.rank == 0 else None)
        for j, name in enumerate(names + ["directory", "valid"]):
            rec.begin((name, cfg, mon.size))
            if mon.rank == 0:
                if os.path.isdir(path):
                    os.rmdir(path)
                elif os.path.exists(path):
                    os.remove(path)
                if name == "directory":
                    os.mkdir(path)
                else:
                    content = good if name == "valid" else jobs[j][1]
                    if content is not None:
                        with open(path, "wb") as f:
                            f.write(content)
            mon.barrier()
            try:
                s = sims.make(**dict(kw, starting_step=2, save_state_freq=0))
                res = ("ok", int(s.starting_step), int(s.step_id), round(s.t / cfg["dt"], 6))
            except BaseException as e:
                s = None
                res = ("raised", type(e).__name__)
                if os.environ.get("VF_DEBUG"):
                    import traceback; traceback.print_exc()
            every = mon.allgather(res)
            rec.case(f"{idx}:{name}:{mon.size}", nontrivial=name != "valid")
            rec.count("restarts_observed")
            kind = name.split(":")[0].rstrip("0123456789")
            if any(e[0] == "raised" for e in every):
                if mon.rank == 0:
                    rec.violation(f"no-start:{kind}", f"{name}: the restart ends with an exception {sorted(set(every))} ({cfg}, "
                                  f"{mon.size} processes)")
                break
            if len(set(every)) != 1:
                if mon.rank == 0:
                    rec.violation(f"disagree:{kind}", f"{name}: processes start from different steps {sorted(set(every))} ({cfg})")
                break
            Q = np.array(s.Q)
            if res[1] == 2:
                rec.count("accepted")
                if name in refused:
                    rec.violation(f"damage-accepted:{kind}", f"{name}: the run starts from step 2 with a file that is not a complete checkpoint ({cfg})")
                if Q.shape != saved.shape or Q.tobytes() != saved.tobytes():
                    rec.violation(f"wrong-state:{kind}", f"{name}: accepted, but the starting state is not the saved one ({cfg})")
            elif res[1] == 0:
                rec.count("fell_back")
                if name == "valid":
                    rec.violation("valid-refused", f"a valid checkpoint is not used ({cfg}, {mon.size} processes)")
                if Q.shape != init.shape or Q.tobytes() != init.tobytes():
                    rec.violation(f"fallback-state:{kind}", f"{name}: the fallback state is not the initial state ({cfg})")
                if res[2] != 0 or res[3] != 0:
                    rec.violation(f"fallback-time:{kind}", f"{name}: fallback starts at {res}")
            else:
                rec.violation(f"odd-step:{kind}", f"{name}: starts from step {res[1]}")
            # the processes are still in step with each other
            if j % 3 == 0 or name == "valid":
                sims.quiet(s.step)
                rec.count("steps_after_restart")
                if res[1] == 0 and np.array(s.Q).tobytes() != after_init.tobytes():
                    rec.violation(f"fallback-run:{kind}", f"{name}: the step after the fallback differs from a clean run ({cfg})")
        mon.barrier()
    rec.sample({"damages": names[:40]})


def drive(chk):
    me = "checks/c05.py"
    sw = dict(case=6, nel=4, ns=2, dt=200.0)
    eu = dict(case=31, nel=4, ns=2, nev=2, dt=1.0)
    cart = dict(cart=True, case=2, nelx=3, nelz=3, ns=3, dt=0.1)
    n = 40 if chk.thorough else 6
    for size, cfgs, lim in ((1, [cart], 120), (6, [sw, eu], 180), (24, [sw] + ([eu] if chk.thorough else []), 240)):
        chk.run_worker(me, {"configs": cfgs, "dir": chk.scratch, "n": n, "label": f"np{size}"}, np=size, timeout=lim * (4 if chk.thorough else 1))
    chk.require("restarts_observed", 100)
    chk.require("fell_back", 80)
    chk.require("accepted", 1)


if __name__ == "__main__":
    driver.main("C05", RULE, drive, worker)
