# -*- coding: utf-8 -*-
"""
C17: joining and flipping internal data, and problems, over all sequences of
operations up to a depth against lists and a dictionary
"""
import itertools

import numpy as np

from mc.core import Check, main, require
from mc.util import InternalData, Problems, NVARS

MAIN = ("derivs", "params", "angles")
JAC = ("derivs", "params", "angles", "jacobians")
OTHER = (
    "v_r_normal", "v_φ_normal", "ρ_normal", "v_r_taylor", "v_φ_taylor",
    "ρ_taylor",
)
# numbers of entries: main, jacobian, normal, taylor; kept as lists
SIZES = (
    (0, 0, 0, 0, True), (1, 0, 1, 1, True), (2, 1, 2, 2, True),
    (3, 0, 3, 0, True), (2, 3, 0, 0, False), (0, 2, 0, 0, True),
    (1, 1, 1, 1, False),
)


def build(tag, size):
    """Internal data and what it contains"""
    n, m, a, b, lists = SIZES[size]
    base = 1000.0 * tag
    model = {
        "main": [base + 10 * i for i in range(n)],
        "jac": [base + 500 + 10 * i for i in range(m)],
    }
    for k, name in enumerate(OTHER):
        count = a if name.endswith("normal") else b
        model[name] = [base + 100 * k + i for i in range(count)]
    problems = {}
    if size % 2:
        problems[str(base)] = ["negative density {}".format(tag)]
        # the same angle in all the parts
        problems["0.5"] = ["part {}".format(tag), "second"]
    model["problems"] = problems
    data = InternalData()
    data.angles = list(model["main"])
    data.params = [x + np.arange(NVARS) for x in model["main"]]
    data.derivs = [-x - np.arange(NVARS) for x in model["main"]]
    jac = data.jacobian_data
    jac.angles = list(model["jac"])
    jac.params = [x + np.arange(NVARS) for x in model["jac"]]
    jac.derivs = [-x - np.arange(NVARS) for x in model["jac"]]
    jac.jacobians = [
        x + np.arange(NVARS**2).reshape(NVARS, NVARS) for x in model["jac"]
    ]
    for name in OTHER:
        setattr(data, name, list(model[name]))
    for key, val in problems.items():
        data.problems[key] = val
    if not lists:
        for name in MAIN + OTHER:
            setattr(data, name, np.asarray(getattr(data, name)))
        for name in JAC:
            setattr(jac, name, np.asarray(getattr(jac, name)))
    return data, model


def join(a, b):
    """Join models"""
    out = {k: a[k] + b[k] for k in a if k != "problems"}
    out["problems"] = {k: list(v) for k, v in a["problems"].items()}
    for key, val in b["problems"].items():
        out["problems"].setdefault(key, []).extend(val)
    return out


def flip(a):
    """Flip a model"""
    out = {k: a[k][::-1] for k in a if k != "problems"}
    out["problems"] = a["problems"]
    return out


def compare(data, model):
    """Compare internal data with what it should contain"""
    for holder, key, names in (
        (data, "main", MAIN), (data.jacobian_data, "jac", JAC)
    ):
        want = model[key]
        for name in names:
            got = getattr(holder, name)
            require(len(got) == len(want), lambda: "{} {}: {} of {}".format(
                key, name, len(got), len(want)
            ))
            for g, w in zip(got, want):
                expect = {
                    "angles": w, "params": w + np.arange(NVARS),
                    "derivs": -w - np.arange(NVARS),
                    "jacobians":
                    w + np.arange(NVARS**2).reshape(NVARS, NVARS),
                }[name]
                require(
                    np.array_equal(g, expect),
                    lambda: "{} {}: {!r} is not {!r}".format(
                        key, name, g, expect
                    )
                )
    for name in OTHER:
        got = list(getattr(data, name))
        require(got == model[name], lambda: "{}: {} is not {}".format(
            name, got, model[name]
        ))
    got = {k: list(v) for k, v in data.problems.items()}
    require(got == model["problems"], lambda: "problems {}, not {}".format(
        got, model["problems"]
    ))


class C17(Check):
    id = "C17"
    level = "model_checking"
    rule = (
        "A case is a start (sizes of three internal data, or a content of "
        "problems) and a sequence of operations done on the real objects; "
        "after each one all the objects are compared with plain lists and "
        "dictionaries."
    )
    assumptions = (
        "problems are not looked up at an angle without any (which makes an "
        "empty entry there, as appending needs)",
    )
    chunk = 64

    OPS = [("flip", i) for i in range(3)] + [
        ("join", i, j) for i in range(3) for j in range(3)
    ]
    P_OPS = (
        ("append", 0.5), ("append", "0.5"), ("set", 0.5), ("set", "1.25"), ("same", 0.5),
        ("sets", 1.25), ("sets", "0.5"), ("del", 0.5), ("del", "0.5"),
        ("del", 1.25), ("pop", 1.25), ("update", 0.5), ("copy",),
        ("npappend", 1.25), ("setdefault", 1.25), ("clear",),
    )

    def cases(self, tier):
        deep = tier == "thorough"
        for sizes in itertools.product(range(len(SIZES)), repeat=3):
            for ops in itertools.product(
                range(len(self.OPS)), repeat=2 if deep else 1
            ):
                yield ["data", list(sizes), list(ops)]
        for sizes in (
            (2, 5, 4), (3, 1, 0), (6, 2, 5), (2, 3, 1), (5, 0, 4),
        ):
            for ops in itertools.product(
                range(len(self.OPS)), repeat=4 if deep else 3
            ):
                yield ["data", list(sizes), list(ops)]
        for n in range(1, 5 if deep else 4):
            for ops in itertools.product(range(len(self.P_OPS)), repeat=n):
                yield ["problems", list(ops)]

    def evaluate(self, case):
        if case[0] == "data":
            return self.data(*case[1:])
        return self.problems(case[1])

    def data(self, sizes, ops):
        """A sequence of operations on internal data"""
        parts, models = zip(*[
            build(tag + 1, size) for tag, size in enumerate(sizes)
        ])
        # all the objects which there ever were are watched
        slots = list(range(3))
        parts, models = list(parts), list(models)
        states = []
        for op in ops:
            kind, *args = self.OPS[op]
            if kind == "flip":
                which = slots[args[0]]
                got = parts[which].flip()
                models[which] = flip(models[which])
                compare(got, models[which])
                # whether flipping returns a new one or not
                parts[which] = got
            else:
                a, b = slots[args[0]], slots[args[1]]
                parts.append(parts[a] + parts[b])
                models.append(join(models[a], models[b]))
                # what is added later belongs to the result only
                parts[-1].problems[7.0].append("later")
                models[-1]["problems"].setdefault("7.0", []).append("later")
                if "0.5" in models[-1]["problems"]:
                    parts[-1].problems[0.5].append("more")
                    models[-1]["problems"]["0.5"].append("more")
                slots[2] = len(parts) - 1
            for part, model in zip(parts, models):
                compare(part, model)
            states.append(str(models[slots[2]]))
        return {
            "seen": states, "transitions": len(ops), "traces": 1,
            "outcome": len(models),
        }

    def problems(self, ops):
        """A sequence of operations on problems"""
        p = Problems()
        model = {}
        states = []
        old = []
        for number, op in enumerate(ops):
            kind, *args = self.P_OPS[op]
            key = str(args[0]) if args else None
            text = "problem {}".format(number)
            if kind in ("append", "npappend"):
                arg = np.float64(args[0]) if kind == "npappend" else args[0]
                p[arg].append(text)
                model.setdefault(key, []).append(text)
            elif kind == "set":
                p[args[0]] = text
                model.setdefault(key, []).append(text)
            elif kind == "same":
                # the same problem met more than once
                p[args[0]] = "same"
                p[args[0]] = "same"
                model.setdefault(key, []).extend(["same", "same"])
            elif kind == "sets":
                p[args[0]] = [text, text]
                model.setdefault(key, []).extend([text, text])
            elif kind in ("del", "pop"):
                if kind == "del" or key in model:
                    try:
                        if kind == "del":
                            del p[args[0]]
                        else:
                            got = p.pop(args[0])
                            require(got == model[key], "wrong value")
                    except KeyError:
                        require(key not in model, "could not be removed")
                    else:
                        require(key in model, "removed what was not there")
                        del model[key]
            elif kind == "update":
                p.update({args[0]: [text], "9": [text]})
                model.setdefault(key, []).append(text)
                model.setdefault("9", []).append(text)
            elif kind == "copy":
                old.append((p, {k: list(v) for k, v in model.items()}))
                p = Problems(**p)
            elif kind == "setdefault":
                if key in model:
                    require(
                        p.setdefault(args[0], [text]) == model[key],
                        "wrong value"
                    )
            elif kind == "clear":
                p.clear()
                model = {}
            for q, want in old + [(p, model)]:
                require(len(q) == len(want), "number of angles")
                require(list(q) == list(want), lambda: "angles {}".format(
                    list(q)
                ))
                for k in (0.5, 1.25, 9):
                    for form in (k, str(k), np.float64(k)):
                        if isinstance(form, np.float64) and k == 9:
                            continue
                        require(
                            (form in q) == (str(k) in want),
                            lambda: "presence of {!r}".format(form)
                        )
                        if str(k) in want:
                            require(
                                list(q[form]) == want[str(k)] and
                                list(q.get(form)) == want[str(k)],
                                lambda: "{!r}: {}".format(form, q[form])
                            )
                require(
                    [list(v) for v in q.values()] == list(want.values()),
                    "values"
                )
            states.append(str(model))
        return {
            "seen": states, "transitions": len(ops), "traces": 1,
            "outcome": str(model),
        }


if __name__ == "__main__":
    main(C17())
