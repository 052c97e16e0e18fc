"""C19: a configuration is accepted exactly when it satisfies its schema, and carries exactly the values written."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import driver

RULE = (
    "A case is one configuration text read against one schema (the project's own, or a random one with types, ranges, choices, defaults, "
    "lists and conditional options). The text is a valid configuration in which up to three options are removed, put outside their range, "
    "given the wrong type, or written in another notation. An independent reading of the schema file decides whether it must be accepted "
    "and with which values. Angles and schema expressions are compared with exact arithmetic. Non-trivial: at least one changed option."
)


def worker(rec, spec):
    import contextlib
    import copy
    import io
    import json
    import math
    import signal
    from fractions import Fraction
    import numpy as np
    from common import angle24 as a24
    from common import Configuration, ConfigurationSchema, ConfigValueError
    from common.eval_expr import eval_expr
    from vf import env as venv

    rng = np.random.default_rng([spec["seed"], 19])
    R = lambda *a: int(rng.integers(*a))
    pick = lambda s: s[R(len(s))]
    default_text = open(os.path.join(venv.REPO, "config", "config-format.json")).read()

    # ---- independent reading of the schema -----------------------------------------------------------------
    def base(t):
        return {"float64": "float", "lower-case-str": "str", "lc-str": "str", "case-sensitive-str": "cs-str"}.get(t, t)

    def fields(obj):
        out = []
        for s in obj.get("sections", []):
            for f in s["fields"]:
                out.append(dict(f, section=s["name"]))
        out += [dict(f) for f in obj.get("fields", [])]
        for f in out:
            f["list"] = f["type"].startswith("list-")
            f["base"] = base(f["type"][5:] if f["list"] else f["type"])
        return [f for f in out if "dependency" not in f] + [f for f in out if "dependency" in f]

    class Bad(Exception):
        pass

    TURN = 2 * math.pi

    def number(x):
        """A number of the schema, possibly written as an expression."""
        return eval(x.lower(), {"__builtins__": {}, "pi": math.pi}) if isinstance(x, str) else x  # harness-made texts only

    def convert(b, s):
        if b == "int":
            try:
                return int(s)
            except ValueError:
                raise Bad(f"{s!r} is not an integer")
        if b in ("float", "float32", "angle24"):
            try:
                v = float(s)
            except ValueError:
                raise Bad(f"{s!r} is not a number")
            if b == "angle24" and not math.isfinite(v):
                raise Bad("not an angle")
            return v if b != "float32" else np.float32(v)
        if b == "bool":
            if s not in ("0", "1"):
                raise Bad("not 0 or 1")
            return s == "1"
        return s.lower() if b == "str" else s

    def typed(b, v):
        v = number(v) if b not in ("str", "cs-str") else v
        return {"int": int, "float": float, "float32": np.float32, "angle24": float, "bool": bool, "str": lambda x: x.lower(), "cs-str": str}[b](v)

    def expected(fl, written):
        """Values of all active options; raises Bad."""
        vals = {}
        for f in fl:
            dep = f.get("dependency")
            if dep is not None and vals.get(dep["name"]) not in dep["values"]:
                continue
            s = written.get((f["section"], f["name"]))
            b = f["base"]
            if s is None:
                if "default" not in f:
                    raise Bad(f"{f['name']} missing")
                d = f["default"]
                v = [typed(b, x) for x in (d if isinstance(d, list) else [d])] if f["list"] else typed(b, d)
            elif f["list"]:
                try:
                    v = [convert(b, s)]
                except Bad:
                    try:
                        items = json.loads(s)
                    except ValueError:
                        raise Bad("not a list")
                    if not isinstance(items, list):
                        raise Bad("not a list")
                    v = [convert(b, x if isinstance(x, str) else json.dumps(x)) for x in items]
            else:
                v = convert(b, s)
            for x in v if f["list"] else [v]:
                if "selectables" in f or "selectable" in f:
                    if x not in [typed(b, y) for y in f.get("selectables", f.get("selectable"))]:
                        raise Bad(f"{f['name']} = {x} not a choice")
                if "min" in f and not x >= typed(b, f["min"]):
                    raise Bad(f"{f['name']} = {x} too small")
                if "max" in f and not x <= typed(b, f["max"]):
                    raise Bad(f"{f['name']} = {x} too large")
            vals[f["name"]] = v
        return vals

    def same(f, got, want):
        if f["list"]:
            return isinstance(got, list) and len(got) == len(want) and all(type(g) is type(w) and g == w for g, w in zip(got, want))
        if f["base"] == "angle24":
            d = math.remainder(float(got) - want, TURN)
            return -math.pi <= float(got) < math.pi and abs(d) <= TURN / 2**25 * (1 + 1e-9) + 1e-15 * abs(want)
        if f["base"] == "bool":
            return got is want or (isinstance(got, (bool, np.bool_)) and bool(got) == want)
        if f["base"] == "float32":
            return np.float32(got) == want
        if f["base"] in ("int", "float"):
            return isinstance(got, int if f["base"] == "int" else float) and (got == want or (got != got and want != want))
        return isinstance(got, str) and str(got) == want

    # ---- texts ---------------------------------------------------------------------------------------------
    def sample_value(f):
        """A valid text for this option, in varying notations."""
        b = f["base"]

        def one():
            if "selectables" in f or "selectable" in f:
                v = pick(f.get("selectables", f.get("selectable")))
                if b == "str" and R(3) == 0:
                    return v.upper()
                return str(v)
            lo = typed(b, f["min"]) if "min" in f else None
            hi = typed(b, f["max"]) if "max" in f else None
            if b == "int":
                lo_, hi_ = (lo if lo is not None else (hi if hi is not None else 0) - 50), (hi if hi is not None else (lo if lo is not None else 0) + 50)
                v = pick([int(lo_), int(hi_), R(int(lo_), int(hi_) + 1)])
                return pick([str(v), f"{v:+d}"]) if v >= 0 else str(v)
            if b in ("float", "float32"):
                lo_, hi_ = (float(lo) if lo is not None else (float(hi) if hi is not None else 0.0) - 9.0), (float(hi) if hi is not None else (float(lo) if lo is not None else 0.0) + 9.0)
                v = float(rng.uniform(lo_, hi_)) if R(3) else pick([lo_, hi_])
                if b == "float32":
                    v = float(np.clip(np.float32(v), np.float32(lo_), np.float32(hi_)))
                t = pick([repr(v), f"{v:.17e}", f"{v:.17g}", repr(v)])
                if b == "float" and lo is None and hi is None and R(5) == 0:
                    t = pick(["1e-300", "1E5", "3", "-0.0", ".5", "7.", "12345678901234567890"])
                return t
            if b == "angle24":
                return pick([repr(float(rng.uniform(-math.pi, math.pi))), repr(float(rng.uniform(-40, 40))), "0", "-3.141592653589793", "3.141592653589793"])
            if b == "bool":
                return pick(["0", "1"])
            return pick(["Results", "some/Path", "a b", "x", "UPPER_lower", "été"])

        if f["list"]:
            n = R(0, 4)
            if n == 0 and f["name"].startswith("exp_smoothe"):
                n = 1
            vals = []
            for _ in range(n):
                v = one()
                if b in ("int", "float"):
                    v = repr(int(v)) if b == "int" else repr(float(v))
                vals.append(v)
            if n == 1 and R(2):
                return vals[0]
            return "[" + ", ".join(vals) + "]"
        return one()

    def broken_value(f):
        b = f["base"]
        opts = []
        if b in ("int", "float", "float32", "angle24", "bool"):
            opts += ["abc", "", "1,5", "0x1g", "--1"]
        if b == "int":
            opts += ["1.5", "2.0", "1e3", "nan", "inf"]
        if b == "angle24":
            opts += ["nan", "inf", "-inf"]
        if b in ("int", "float") and f["list"]:
            opts += ["[1, abc]", "{}", "[1, [2]]", "[null]", "true", "[1"]
            if b == "int":
                opts += ["[1.5]", "2.5", "[2, 1.25]"]
            # one value out of range among valid ones, anywhere in the list
            out = ([typed(b, f["max"]) + 1] if "max" in f else []) + ([typed(b, f["min"]) - 1] if "min" in f else [])
            for x in out * 3:
                good = json.loads("[" + ", ".join(sample_value(dict(f, list=False)).lstrip("+") for _ in range(3)) + "]")
                good.insert(R(0, 4), x)
                opts.append(json.dumps(good))
        if "selectables" in f or "selectable" in f:
            sel = [str(x) for x in f.get("selectables", f.get("selectable"))]
            opts += ["nothing", "", sel[0] + "x", sel[0][:-1] + "_", " ".join(sel[:2]) + "?"] if b in ("str", "cs-str") else [str(max(int(float(s)) for s in sel) + 17)]
        if "min" in f and b in ("int", "float"):
            m = typed(b, f["min"])
            opts += [repr(m - 1), repr(math.nextafter(float(m), -math.inf)) if b == "float" else repr(m - 1), "-1000000000", "nan"]
        if "max" in f and b in ("int", "float"):
            m = typed(b, f["max"])
            opts += [repr(m + 1), repr(math.nextafter(float(m), math.inf)) if b == "float" else repr(m + 1), "1000000000"]
        return pick(opts) if opts else None

    def render(written):
        secs = {}
        for (s, n), v in written.items():
            secs.setdefault(s, []).append((n, v))
        keys = list(secs)
        rng.shuffle(keys)
        out = []
        for s in keys:
            items = secs[s]
            rng.shuffle(items)
            out.append(f"[{s}]")
            for n, v in items:
                n_ = n.upper() if R(12) == 0 else n
                out.append(pick([f"{n_} = {v}", f"{n_}={v}", f"{n_}: {v}", f"{n_}   =   {v}   "]))
                if R(9) == 0:
                    out.append(pick(["# a comment", "; another", ""]))
        return "\n".join(out) + "\n"

    def read(schema, text, post):
        def late(*_):
            raise TimeoutError
        signal.signal(signal.SIGALRM, late)
        signal.alarm(10)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return Configuration(text, schema, load_post_config=post)
        finally:
            signal.alarm(0)

    def judge(label, schema, fl, written, post):
        text = render(written)
        try:
            want, why = expected(fl, written), None
        except Bad as e:
            want, why = None, str(e)
        rec.begin(text[:400])
        if post and want is not None and want.get("discretization") == "fv" and want.get("num_solpts") != 1:
            want, why = None, "finite volumes need one point"
        try:
            cfg = read(schema, text, post)
        except TimeoutError:
            rec.violation(f"{label}:hang", f"reading did not end ({why}): {text!r}"[:900])
            return
        except ValueError as e:
            cfg = None
            if want is not None:
                rec.violation(f"{label}:refused", f"a valid configuration was refused: {e} -- {text!r}"[:900])
                return
        except Exception as e:
            rec.violation(f"{label}:error-kind:{type(e).__name__}", f"reading ended with {type(e).__name__}: {e} instead of an explanation ({why}) -- {text!r}"[:900])
            return
        if want is None:
            if cfg is not None:
                rec.violation(f"{label}:accepted", f"an invalid configuration was accepted ({why}) -- {text!r}"[:900])
            rec.count("refused")
            return
        rec.count("accepted")
        kinds = {f["name"]: f for f in fl}
        for n, v in want.items():
            rec.count("values_compared")
            if not hasattr(cfg, n) or not same(kinds[n], getattr(cfg, n), v):
                rec.violation(f"{label}:value:{kinds[n]['base']}", f"option {n} is {getattr(cfg, n, 'absent')!r}, expected {v!r} -- {text!r}"[:900])
        for n in kinds:
            if n not in want and getattr(cfg, n, None) not in (None, 1) and hasattr(cfg, n):
                rec.violation(f"{label}:inactive", f"option {n} is set to {getattr(cfg, n)!r} although its condition is not met -- {text!r}"[:900])
        shown = str(cfg)
        for n in want:
            if n not in shown:
                rec.violation(f"{label}:summary", f"option {n} is not in the printed configuration")
        if R(4) == 0:
            other = copy.deepcopy(cfg)
            for n, v in want.items():
                if isinstance(v, list):
                    getattr(other, n).append(99)
                else:
                    setattr(other, n, "changed")
            for n, v in want.items():
                if not same(kinds[n], getattr(cfg, n), v):
                    rec.violation(f"{label}:copy", f"changing a copy changed option {n} of the original")
            # defaults of the schema must not be shared between configurations
            for n, v in want.items():
                if isinstance(getattr(cfg, n), list):
                    getattr(cfg, n).append(77)
            again = read(schema, text, post)
            for n, v in want.items():
                if not same(kinds[n], getattr(again, n), v):
                    rec.violation(f"{label}:shared-default", f"option {n} changed for later configurations")
            rec.count("copies_checked")

    def workload(label, obj, text, n, post):
        schema = ConfigurationSchema(text)
        fl = fields(obj)
        for k in range(n):
            written = {}
            # a valid configuration, option by option
            vals = {}
            for f in fl:
                dep = f.get("dependency")
                active = dep is None or vals.get(dep["name"]) in dep["values"]
                key = (f["section"], f["name"])
                if active:
                    if "default" in f and R(2):
                        d = f["default"]
                        vals[f["name"]] = typed(f["base"], d) if not f["list"] else d
                        continue
                    s = sample_value(f)
                    if f["name"] == "discretization" and R(4):
                        s = "dg"
                    written[key] = s
                    try:
                        vals[f["name"]] = convert(f["base"], s)
                    except Bad:
                        vals[f["name"]] = None
                elif R(6) == 0 and key not in written:
                    written[key] = pick([sample_value(f), "garbage"])  # an option whose condition is not met
            if R(5) == 0:
                written[(pick(fl)["section"], "an_unknown_option")] = "17"
            kind = []
            for _ in range(pick([0, 0, 1, 1, 1, 2, 3])):
                f = pick(fl)
                key = (f["section"], f["name"])
                how = pick(["drop", "break", "break", "break"])
                if how == "drop":
                    written.pop(key, None)
                else:
                    v = broken_value(f)
                    if v is not None:
                        written[key] = v
                kind.append(f"{how}:{f['name']}")
            judge(label, schema, fl, written, post)
            rec.case(f"{label}:{','.join(sorted(kind))}", bool(kind))
        rec.sample(f"{label}: changes {kind}")

    workload("project", json.loads(default_text), default_text, spec["n_default"], True)

    # ---- random schemas ------------------------------------------------------------------------------------
    def random_schema():
        secs = [{"name": f"Section_{i}", "fields": []} for i in range(R(1, 4))]
        names = []
        for i in range(R(4, 14)):
            t = pick(["int", "float", "float64", "float32", "angle24", "bool", "case-sensitive-str", "cs-str", "lower-case-str", "lc-str", "str", "list-int", "list-float"])
            f = {"name": f"opt_{i}", "type": t}
            b = base(t[5:] if t.startswith("list-") else t)
            if b in ("int", "float") and R(2):
                lo = R(-20, 20) if b == "int" else float(np.round(rng.uniform(-20, 20), 3))
                hi = lo + R(0, 15)
                if R(2):
                    f["min"] = lo if R(3) or b == "int" else pick(["-pi", "-2*pi", "pi/4", "-Pi - 1"])
                if R(2):
                    f["max"] = hi if R(3) or b == "int" else pick(["pi*10", "8 + 2*pi", "20/3 + pi"])
                if "min" in f and "max" in f and number(f["min"]) > number(f["max"]):
                    del f["min"]
            elif b in ("int", "str", "cs-str") and R(3) == 0:
                f["selectables"] = sorted({R(-5, 30) for _ in range(4)}) if b == "int" else [["Alpha", "beta", "Gamma9"], ["a", "ab", "abc"], ["one"]][R(3)]
            if R(2):
                text = sample_value(dict(f, list=t.startswith("list-"), base=b))
                if f["type"].startswith("list-"):
                    f["default"] = json.loads(text) if text.startswith("[") else [json.loads(text.lstrip("+"))]
                elif b == "int":
                    f["default"] = int(text)
                elif b in ("float", "float32", "angle24"):
                    f["default"] = float(text)
                elif b == "bool":
                    f["default"] = text == "1"
                else:
                    f["default"] = text
            parents = [(n, v) for n, v in names]
            if parents and R(3) == 0:
                n, v = pick(parents)
                f["dependency"] = {"name": n, "values": v}
            elif "selectables" in f and not f["type"].startswith("list-") and b != "cs-str":
                names.append((f["name"], [typed(b, x) for x in f["selectables"][: R(1, 3)]]))
            elif b == "bool":
                names.append((f["name"], [bool(R(2))]))
            pick(secs)["fields"].append(f)
        secs = [s for s in secs if s["fields"]]
        if R(3) == 0:  # the other layout: one list of fields, each naming its section
            return {"version": "7.3", "fields": [dict(f, section=s["name"]) for s in secs for f in s["fields"]]}
        return {"version": "7.3", "sections": secs}

    for _ in range(spec["n_schemas"]):
        obj = random_schema()
        try:
            workload("random", obj, json.dumps(obj), 12, False)
        except Exception as e:
            if "Bad" in type(e).__name__:
                continue
            raise
        rec.count("random_schemas")

    # ---- angles --------------------------------------------------------------------------------------------
    PI2 = Fraction(math.pi) * 2
    for k in range(spec["n_angles"]):
        x = pick([
            lambda: float(rng.uniform(-math.pi, math.pi)), lambda: float(rng.uniform(-30, 30)), lambda: float(rng.uniform(-1e4, 1e4)),
            lambda: R(-60, 60) * math.pi / 12, lambda: math.nextafter(math.pi, pick([-9.0, 9.0])) * pick([1, -1]),
            lambda: (R(0, 2**24) - 2**23 + pick([0.0, 0.5, 0.49999])) * TURN / 2**24, lambda: float(10.0 ** -R(1, 300)),
        ])()
        with contextlib.redirect_stdout(io.StringIO()):
            y = float(a24.angle24(x))
            code = a24.encode(x)
            z = float(a24.angle24(y))
        d = Fraction(x) - Fraction(y)
        d -= PI2 * round(d / PI2)
        rec.count("angles")
        if not (isinstance(code, int) and 0 <= code < 2**24):
            rec.violation("angle:code", f"angle {x!r} is stored as {code!r}, not 24 bits")
        if not -math.pi <= y < math.pi:
            rec.violation("angle:range", f"angle {x!r} became {y!r}, outside [-pi, pi)")
        if abs(d) > TURN / 2**25 * (1 + 1e-6) + abs(x) * 1e-14:
            rec.violation("angle:value", f"angle {x!r} became {y!r}, off by {float(d):.3e}")
        if z != y or a24.encode(y) != code or a24.decode(code) != y:
            rec.violation("angle:stable", f"storing {x!r} twice gives {y!r} then {z!r}")

    # ---- expressions ---------------------------------------------------------------------------------------
    def expr(depth):
        if depth == 0 or R(4) == 0:
            v = pick([str(R(1, 50)), repr(round(float(rng.uniform(0.1, 20)), 3)), "pi", "PI", "Pi"])
            return v
        op = pick("+-*/")
        a, b = expr(depth - 1), expr(depth - 1)
        t = pick([f"{a}{op}{b}", f"({a}) {op} ({b})", f"{a} {op} {b}", f"-({a}){op}{b}"])
        return t
    for _ in range(spec["n_expr"]):
        t = expr(R(0, 4))
        rec.count("expressions")
        try:
            want = number(t)
        except ZeroDivisionError:
            continue
        got = eval_expr(t)
        if not (got == want or abs(got - want) <= 1e-12 * abs(want)):
            rec.violation("expression:value", f"{t!r} evaluates to {got!r}, expected {want!r}")
    marks = []
    import builtins
    builtins._vf_mark = lambda: marks.append(1)
    for t in ["_vf_mark()", "__import__('builtins')._vf_mark()", "(lambda: _vf_mark())()", "[_vf_mark() for _ in '1'][0]", "pi.real", "open('/tmp/x')",
              "1 if _vf_mark() else 2", "e", "x+1", "'a'*3", "1+'a'", "1,2", ""]:
        rec.count("expressions_refused")
        try:
            got = eval_expr(t)
        except Exception:
            got = None
        if got is not None or marks:
            rec.violation("expression:unsafe", f"{t!r} was evaluated as an expression")
        marks.clear()


def drive(chk):
    q = chk.tier == "quick"
    spec = {"n_default": 1200 if q else 12000, "n_schemas": 120 if q else 1500, "n_angles": 4000 if q else 60000, "n_expr": 1000 if q else 10000}
    chk.run_worker("checks/c19.py", spec, np=1, timeout=500, label="configuration", mpirun=False)
    chk.require("accepted", 200)
    chk.require("refused", 200)
    chk.require("random_schemas", 50)
    chk.require("copies_checked", 50)


if __name__ == "__main__":
    driver.main("C19", RULE, drive, worker)
