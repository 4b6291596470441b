"""C11: no history of queries and updates leaves a code object inconsistent."""

from __future__ import annotations

import copy
from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, heuristic, quantum, util
from vlib.core import Context, Property

PROP = Property(
    "C11",
    "Histories of up to 14 operations on a pool of up to 4 code objects (general and CSS,"
    " stabilizer and subsystem, over F_2,3,4, plus named codes that come with preset operators):"
    " queries, recomputation, valid and invalid logical-operator updates, weight reduction with"
    " several decoders, distances and bounds, copies, dual codes and derived codes.  A model keeps"
    " the checks and current logical operators of every object, and the values of every array"
    " handed out.  Non-trivial: a code with logical qudits and at least one update, followed by at"
    " least one query.",
)


def codes() -> Any:
    from qldpc import codes

    return codes


NAMED = {
    "steane": lambda: codes().SteaneCode(),
    "five": lambda: codes().FiveQubitCode(),
    "bacon": lambda: codes().BaconShorCode(2),
    "bacon3": lambda: codes().BaconShorCode(2, 3),
    "toric": lambda: codes().ToricCode(2, rotated=False),
    "surface": lambda: codes().SurfaceCode(3),
    "shp": lambda: codes().SHPCode(codes().RepetitionCode(3), codes().RepetitionCode(2)),
    "shyps": lambda: codes().SHPCode([[1, 1, 0], [0, 1, 1]], [[1, 1, 1]]),
    "hgp": lambda: codes().HGPCode([[1, 1, 0], [0, 1, 1]]),
    "hgp3": lambda: codes().HGPCode(codes().RepetitionCode(2, 3)),
    "four": lambda: codes().C4Code(),
    "six": lambda: codes().C6Code(),
}

ACTIONS = [
    "logicals", "logicals", "logicals", "recompute", "stabilizers", "gauges", "set", "set",
    "set_invalid", "reduce", "reduce", "reduce", "reduce_all", "distance", "bound", "copy", "copy",
    "shallow", "deep", "dual", "derive", "numbers", "graph", "form", "random_op", "rebuild",
]


@st.composite
def history(draw: Any) -> dict:
    kind = draw(st.sampled_from(["drawn", "drawn", "drawn", "named"]))
    if kind == "named":
        start: dict = {"name": draw(st.sampled_from(sorted(NAMED)))}
    else:
        q = draw(st.sampled_from([2, 2, 2, 3, 4]))
        css = draw(st.sampled_from([True, True, False]))
        start = draw(gen.any_code(q, 2, 6 if q == 2 else 4, min_k=1, css=css))
    steps = draw(
        st.lists(
            st.tuples(
                st.sampled_from(ACTIONS),
                st.integers(0, 3),
                st.integers(0, 10**6),
                st.integers(0, 10**6),
            ).map(list),
            min_size=2,
            max_size=14,
        )
    )
    return {"start": start, "steps": steps}


class Model:
    """A code object, and what we know about it."""

    def __init__(self, code: Any, rows: np.ndarray, ops: np.ndarray | None) -> None:
        self.code = code
        self.rows = rows
        self.ops = ops


class Machine:
    def __init__(self, case: dict, c: Context) -> None:
        self.c = c
        start = case["start"]
        if "name" in start:
            code = NAMED[start["name"]]()
            rows = util.ints(code.matrix, None, "checks")
            self.subsystem = bool(code.is_subsystem_code)
        else:
            code = quantum.build(start)
            rows = quantum.code_rows(start)
            self.subsystem = None
        self.q = int(code.field.order)
        self.n = len(code)
        self.field = ff.get(self.q)
        if self.subsystem is None:
            self.subsystem = bool(len(rows) and self.field.symp(rows, rows).any())
        self.s, self.g, self.k = quantum.dimensions(self.field, rows)
        self.pool = [Model(code, rows, None)]
        self.handed: list[tuple[Any, np.ndarray, str]] = []
        self.updates = 0
        self.queries_after = 0

    def hand_out(self, array: Any, what: str) -> None:
        self.handed.append((array, np.array(array).copy(), what))

    def read_ops(self, model: Model, what: str, **kwargs: Any) -> np.ndarray:
        live = model.code.get_logical_ops(**kwargs)
        self.hand_out(live, what)
        ops = util.ints(live, (2 * self.k, 2 * self.n), what, self.q)
        if model.ops is not None and not kwargs.get("recompute"):
            self.c.equal(ops, model.ops, f"{what}: logical operators changed")
        quantum.check_logicals(self.c, self.field, ops, model.rows, what)
        model.ops = ops
        return ops

    def is_css(self, model: Model) -> bool:
        return isinstance(model.code, codes().CSSCode)

    def step(self, action: str, which: int, a: int, b: int) -> None:
        from qldpc.objects import Pauli

        c, q, n, k, field = self.c, self.q, self.n, self.k, self.field
        model = self.pool[which % len(self.pool)]
        code, rows = model.code, model.rows
        css = self.is_css(model)
        pauli = Pauli.X if a % 2 else Pauli.Z
        if action in ("set", "reduce", "reduce_all", "recompute"):
            self.updates += 1
        elif self.updates:
            self.queries_after += 1
        if action == "logicals":
            if b % 2:
                self.read_ops(model, "query")
            else:
                ops = self.read_ops(model, "query")
                half = ops[:k] if pauli is Pauli.X else ops[k:]
                kwargs = {"symplectic": True} if css else {}
                live = code.get_logical_ops(pauli, **kwargs)
                self.hand_out(live, "operators of one type")
                c.equal(util.ints(live, half.shape, "operators", q), half, "operators of one type")
        elif action == "recompute":
            self.read_ops(model, "recomputed", recompute=True)
            self.read_ops(model, "after recomputing")
        elif action == "stabilizers":
            kwargs = {"canonicalized": bool(b % 2), "recompute": bool(b // 2 % 2)}
            live = code.get_stabilizer_ops(**kwargs)
            self.hand_out(live, "stabilizers")
            stabs = util.ints(live, (None, 2 * n), "stabilizers", q)
            center = field.center(rows)
            c.require(field.same_span(stabs, center), f"stabilizers {kwargs}", stabs)
            if kwargs["canonicalized"]:
                c.equal(stabs, center, "canonical stabilizers")
        elif action == "gauges":
            live = code.get_gauge_ops()
            self.hand_out(live, "gauge operators")
            ops = util.ints(live, (2 * self.g, 2 * n), "gauge operators", q)
            util.check_conjugate_pairs(c, field, ops, "gauge operators")
            center = field.center(rows)
            c.require(field.same_span(np.vstack([ops, center]), rows), "gauge group", ops)
            c.require(
                not field.symp(ops, self.read_ops(model, "query")).any(), "gauge vs logical ops"
            )
        elif action in ("set", "set_invalid"):
            self.set_ops(model, action, a, b)
        elif action in ("reduce", "reduce_all"):
            if css and k:
                self.reduce(model, action, pauli, a, b)
        elif action == "distance":
            if self.small():
                self.distance(model, (None, Pauli.X, Pauli.Z)[a % 3])
        elif action == "bound":
            if css and k and q == 2:
                got = code.get_distance_bound(1 + b % 2, pauli)
                c.require(1 <= got <= n, "distance bound", got)
        elif action == "copy":
            # (a CSS code can only be copied as a general code)
            new = codes().QuditCode(code)
            self.add(Model(new, rows, model.ops if model.ops is not None else None), b)
        elif action in ("shallow", "deep"):
            new = copy.copy(code) if action == "shallow" else copy.deepcopy(code)
            self.add(Model(new, rows, model.ops), b)
        elif action == "dual":
            ops = self.read_ops(model, "query")
            dual = code.get_dual_subsystem_code()
            dual_rows = np.vstack([field.center(rows), ops])
            got = util.ints(dual.matrix, (None, 2 * n), "dual", q)
            c.require(field.same_span(got, dual_rows), "dual code")
            c.equal((int(dual.dimension), int(dual.gauge_dimension)), (self.g, k), "dual code")
            if dual.dimension:
                dual.get_logical_ops()
                if isinstance(dual, codes().CSSCode) and q == 2:
                    dual.reduce_logical_op(pauli, 0)
        elif action == "derive":
            self.derive(model, a, b)
        elif action == "numbers":
            numbers = (code.dimension, code.gauge_dimension, code.rank, len(code), code.num_checks)
            expected = (k, self.g, field.rank(rows), n, len(rows))
            c.equal(tuple(map(int, numbers)), expected, "k, g, rank, n, number of checks")
            c.equal(bool(code.is_subsystem_code), self.subsystem, "is_subsystem_code")
            canon = util.ints(code.canonicalized.matrix, None, "canonical", q)
            c.require(field.same_span(canon, rows), "canonical checks")
        elif action == "graph":
            graph = code.graph
            back = type(code).graph_to_matrix(graph) if not css else None
            if back is not None:
                c.equal(util.ints(back, rows.shape, "graph", q), rows, "matrix from the graph")
            code.get_strings()
            str(code)
        elif action == "form":
            if css:
                code.get_standard_form_data_xz()
            else:
                try:
                    code.get_standard_form_data()
                except ValueError:
                    c.require(self.g, "standard form of a stabilizer code")
        elif action == "random_op":
            if css and k:
                op = code.get_random_logical_op(pauli, ensure_nontrivial=True, seed=b)
                checks = code.matrix_z if pauli is Pauli.X else code.matrix_x
                checks = util.ints(checks, (None, n), "checks", q)
                op = util.ints(op, (n,), "random operator", q)
                c.require(not field.matmul(checks, op).any(), "random logical operator", op)
        elif action == "rebuild":
            # a freshly built equal code answers alike
            if css:
                fresh = codes().CSSCode(np.array(code.matrix_x), np.array(code.matrix_z), q)
            else:
                fresh = codes().QuditCode(np.array(code.matrix), q)
            c.require(fresh == code if not css else fresh == codes().CSSCode(code.code_x, code.code_z), "equality")
            c.equal(int(fresh.dimension), k, "fresh code")
            both = [util.ints(x.get_stabilizer_ops(canonicalized=True), None, "s") for x in (fresh, code)]
            c.equal(*both, "stabilizers of a fresh code")
        else:
            raise AssertionError(action)

    def add(self, model: Model, b: int) -> None:
        if len(self.pool) < 4:
            self.pool.append(model)
        else:
            self.pool[b % 4] = model

    def small(self) -> bool:
        if self.q == 2:
            return self.n <= 9
        return self.q ** (2 * self.k + self.field.rank(self.pool[0].rows)) <= 500

    def distance(self, model: Model, pauli: Any) -> None:
        import props.c09 as c09
        from qldpc.objects import Pauli

        if self.n > 6:
            return
        n, field = self.n, self.field
        if pauli is not None and self.is_css(model):
            center = field.center(model.rows)
            mine, other = (0, n) if pauli is Pauli.X else (n, 0)
            checks = model.rows[model.rows[:, mine : mine + n].any(axis=1)][:, mine : mine + n]
            stabs = center[center[:, other : other + n].any(axis=1)][:, other : other + n]
            expected = c09.css_distance(field, checks, stabs)
            got = model.code.get_distance(pauli)
            self.c.require(c09.same(got, expected), f"{pauli} distance", got, expected)
            self.c.label("distance of one type")
            return
        expected = c09.dressed_distance(self.field, model.rows, self.n)
        got = model.code.get_distance()
        self.c.require(c09.same(got, expected), "distance", got, expected)

    def set_ops(self, model: Model, action: str, a: int, b: int) -> None:
        c, field, k, n, q = self.c, self.field, self.k, self.n, self.q
        old = self.read_ops(model, "query")
        if not k:
            return
        rng = np.random.default_rng([a, b])
        if self.is_css(model):
            change = np.eye(k, dtype=int)
            for _ in range(3 * k):
                i, j = rng.integers(k), rng.integers(k)
                if i != j:
                    change[i] = field.add[change[i], field.mul[rng.integers(q), change[j]]]
            change = change[rng.permutation(k)]
            new_x = field.matmul(change, old[:k])
            new_z = field.matmul(field.inverse(change).T, old[k:])
            center = field.center(model.rows)
            cx, cz = center[center[:, :n].any(axis=1)], center[center[:, n:].any(axis=1)]
            new_x = field.add[new_x, field.matmul(rng.integers(0, q, (k, len(cx))), cx)] if len(cx) else new_x
            new_z = field.add[new_z, field.matmul(rng.integers(0, q, (k, len(cz))), cz)] if len(cz) else new_z
            new = np.vstack([new_x, new_z])
        else:
            gates = []
            for _ in range(4 * k):
                i = int(rng.integers(k))
                kind = int(rng.integers(4 if k > 1 else 3))
                j = (i + int(rng.integers(1, k))) % k if kind == 3 else i
                gates.append((kind, i, j, int(rng.integers(1, q))))
            new = field.matmul(gen.apply_symplectic(field, np.eye(2 * k, dtype=int), gates), old)
            center = field.center(model.rows)
            if len(center):
                new = field.add[new, field.matmul(rng.integers(0, q, (2 * k, len(center))), center)]
        if action == "set_invalid":
            bad = np.vstack([new[k:], new[:k]]) if q > 2 else new.copy()
            if q == 2:
                bad[0] = new[0] ^ new[k]
                bad[k] = new[k] ^ new[k] if a % 2 else new[0]
            products = field.symp(bad, bad)
            expected = np.zeros((2 * k, 2 * k), dtype=int)
            for i in range(k):
                expected[i, k + i], expected[k + i, i] = 1, field.neg[1]
            if np.array_equal(products, expected):
                return
            c.raises(ValueError, lambda: model.code.set_logical_ops(bad), "invalid operators")
            self.read_ops(model, "after rejected operators")
            return
        if self.is_css(model) and b % 2:
            model.code.set_logical_ops_xz(new[:k, :n].copy(), new[k:, n:].copy())
        else:
            model.code.set_logical_ops(new.copy())
        model.ops = new
        self.read_ops(model, "after setting operators")

    def reduce(self, model: Model, action: str, pauli: Any, a: int, b: int) -> None:
        from qldpc.objects import Pauli

        c, k, n = self.c, self.k, self.n
        old = self.read_ops(model, "before reduction")
        kwargs: dict[str, Any] = {}
        if b % 4 == 1 and self.q in (2, 3):
            kwargs = {"with_ILP": True}
        elif b % 4 == 2 and self.q <= 3:
            kwargs = {"with_GUF": True}
        elif a // 3 % 2:
            kwargs = {"decoder_constructor": heuristic.Heuristic(self.q, a, b % 7, a % 4 > 1)}
            c.label("heuristic decoder")
        elif b % 4 == 3 and self.q == 2:
            kwargs = {"with_BP_LSD": True, "lsd_order": 0}
        if action == "reduce":
            index = b // 4 % k
            model.code.reduce_logical_op(pauli, index, **kwargs)
            changed = {index + (0 if pauli is Pauli.X else k)}
        elif a % 3:
            model.code.reduce_logical_ops(pauli, **kwargs)
            changed = set(range(k)) if pauli is Pauli.X else set(range(k, 2 * k))
        else:
            model.code.reduce_logical_ops(**kwargs)
            changed = set(range(2 * k))
        model.ops = None
        new = self.read_ops(model, f"after {action} {sorted(kwargs)}")
        for row in range(2 * k):
            if row not in changed:
                c.equal(new[row], old[row], "an operator that was not to be reduced")
            weights = np.count_nonzero(new[row]), np.count_nonzero(old[row])
            c.require(weights[0] <= weights[1], "reduction increased a weight", weights)
            # X-type operators only have X support, and keep their action on the logical qudits
            other = new[row, n:] if row < k else new[row, :n]
            c.require(not other.any(), "reduced operator of mixed type")
        if "with_ILP" in kwargs and action == "reduce":
            # an exact decoder finds the lightest operator with the required action
            self.c.label("exact reduction")
            self.check_least(model, new, next(iter(changed)))

    def check_least(self, model: Model, ops: np.ndarray, row: int) -> None:
        """No operator with the same syndrome and action is lighter."""
        field, k, n = self.field, self.k, self.n
        if self.q**n > 5000:
            return
        start = 0 if row < k else n
        other = n - start
        checks = model.rows[:, other : other + n]
        duals = ops[k:, n:] if row < k else ops[:k, :n]
        constraints = np.vstack([checks, duals])
        rhs = field.matmul(constraints, ops[row, start : start + n])
        vectors = field.all_vectors(n)
        good = np.all(field.matmul(constraints, vectors.T) == rhs[:, None], axis=0)
        least = np.count_nonzero(vectors[good], axis=1).min()
        self.c.equal(int(np.count_nonzero(ops[row])), int(least), "weight after exact reduction")

    def derive(self, model: Model, a: int, b: int) -> None:
        code, k = model.code, self.k
        kind = a % 4
        if kind == 0:
            code.conjugated([b % self.n])
        elif kind == 1 and self.q == 2:
            code.deformed(f"H {b % self.n}\nS 0")
        elif kind == 2:
            stack = type(code).stack(code, code) if self.is_css(model) else codes().QuditCode.stack(code, code)
            self.c.equal(int(stack.dimension), 2 * k, "stack")
            if self.is_css(model) and k and self.q == 2:
                from qldpc.objects import Pauli

                stack.reduce_logical_op(Pauli.X, b % (2 * k))
        elif k and self.n <= 6:
            kind_ = codes().CSSCode if self.is_css(model) else codes().QuditCode
            perm = np.random.default_rng(b).permutation(self.n * k // np.gcd(self.n, k)).tolist()
            joint = kind_.concatenate(code, code, perm)
            self.c.equal(int(joint.dimension), k * len(perm) // self.n, "concatenation")

    def check_all(self, after: str) -> None:
        for live, values, what in self.handed:
            self.c.equal(np.array(live), values, f"{what}: array handed out was changed by {after}")
        for index, model in enumerate(self.pool):
            matrix = util.ints(model.code.matrix, model.rows.shape, "checks", self.q)
            self.c.equal(matrix, model.rows, f"checks of object {index} after {after}")
            if model.ops is not None:
                ops = util.ints(model.code.get_logical_ops(), None, "logical ops", self.q)
                self.c.equal(ops, model.ops, f"logical ops of object {index} after {after}")


@PROP.test(history, quick=3600, shards=8)
def histories(case: dict, c: Context) -> None:
    from qldpc.objects import Pauli

    machine = Machine(case, c)
    c.label(case["start"].get("name", "drawn"))
    for action, which, a, b in case["steps"]:
        machine.step(action, which, a, b)
        machine.check_all(action)
        c.label("did " + action)
    for index, model in enumerate(machine.pool):
        quantum.check_code(
            c, model.code, model.rows, machine.n, machine.q,
            what=f"object {index} at the end", subsystem=machine.subsystem,
        )
        if machine.small() and machine.is_css(model):
            order = [None, Pauli.X, Pauli.Z]
            start = sum(step[2] for step in case["steps"]) + index
            for which in range(3):
                machine.distance(model, order[(start * (1 + start % 2) + which * (1 + start % 2)) % 3])
    machine.check_all("the final check")
    c.nontrivial(machine.k and machine.updates and machine.queries_after)
