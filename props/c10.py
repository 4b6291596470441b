"""C10: stacking, concatenating, conjugating and deforming quantum codes."""

from __future__ import annotations

from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, quantum, util
from vlib.core import Context, Property

from .c09 import good_css

PROP = Property(
    "C10",
    "Stacks and concatenations of stabilizer/subsystem, CSS/general codes over F_2,3,4,5 with up to"
    " 5 qudits each, explicit (sequence or mapping) and default assignments with several inner and"
    " outer blocks; Fourier transforms on arbitrary qudit subsets over F_2,3,4,5,7,9; random"
    " Clifford circuits over 14 gates.  Codes have computed, user-supplied or no logical operators"
    " beforehand.  Non-trivial: logical qudits and checks in the inputs, and a nonempty operation.",
)


def codes() -> Any:
    from qldpc import codes

    return codes


def snapshot(code: Any) -> list:
    """Data handed out by a code before an operation: live arrays, and their values."""
    out = [(code.matrix, np.array(code.matrix).copy())]
    if code.matrix.size and hasattr(code, "get_logical_ops"):
        ops = code.get_logical_ops()
        out.append((ops, np.array(ops).copy()))
    return out


def check_unchanged(c: Context, code: Any, saved: list, what: str) -> None:
    for live, values in saved:
        c.equal(np.array(live), values, f"{what}: array handed out before was modified")
    c.equal(np.array(code.matrix), saved[0][1], f"{what}: checks of the input")
    if len(saved) > 1:
        c.equal(np.array(code.get_logical_ops()), saved[1][1], f"{what}: logical ops of the input")


def logicals_of(code: Any, n: int, q: int) -> np.ndarray:
    return util.ints(code.get_logical_ops(), (None, 2 * n), "logical ops", q)


def direct_sum(mats: list[np.ndarray]) -> np.ndarray:
    """Block-diagonal matrix of symplectic vectors, with columns [x_1 x_2 ... | z_1 z_2 ...]."""
    sizes = [m.shape[1] // 2 for m in mats]
    n = sum(sizes)
    out, start = [], 0
    for m, size in zip(mats, sizes):
        block = np.zeros((len(m), 2 * n), dtype=int)
        block[:, start : start + size] = m[:, :size]
        block[:, n + start : n + start + size] = m[:, size:]
        out.append(block)
        start += size
    return np.vstack(out)


def stacked_logicals(mats: list[np.ndarray]) -> np.ndarray:
    """Logical operators of a stack: X-type operators of all codes, then Z-type operators."""
    halves = [[m[: len(m) // 2] for m in mats], [m[len(m) // 2 :] for m in mats]]
    return np.vstack([direct_sum(half) for half in halves])


####################################################################################################
# stacking


@st.composite
def stack_case(draw: Any) -> dict:
    q = draw(gen.field_orders((2, 3, 4, 5)))
    css = draw(st.sampled_from([None, True, False]))
    parts = [draw(gen.any_code(q, 1, 4, css=css)) for _ in range(draw(st.integers(1, 3)))]
    repeat = len(parts) > 1 and draw(st.booleans())
    return {"q": q, "parts": parts, "repeat": repeat, "inherit": draw(st.sampled_from([True, True, False]))}


@PROP.test(stack_case, quick=700, shards=3)
def stacking(case: dict, c: Context) -> None:
    q = case["q"]
    parts = case["parts"]
    built = [quantum.build(part) for part in parts]
    if case["repeat"]:  # the same object several times
        parts, built = parts + parts[:1], built + built[:1]
    rows = [quantum.code_rows(part) for part in parts]
    field = ff.get(q)
    dims = [quantum.dimensions(field, r) for r in rows]
    c.nontrivial(len(parts) > 1 and sum(k for _, _, k in dims) > 0 and any(map(len, rows)))
    all_css = all("hx" in part for part in parts)
    c.label("css" if all_css else "general", "inherit" if case["inherit"] else "recompute")
    n = sum(part["n"] for part in parts)
    saved = [snapshot(code) for code in built]
    logicals = [logicals_of(code, part["n"], q) for code, part in zip(built, parts)]
    kinds = [codes().QuditCode] + [codes().CSSCode] * all_css
    for kind in kinds:
        for attempt in range(2):
            stack = kind.stack(*built, inherit_logicals=case["inherit"])
            expected = direct_sum(rows)
            if kind is codes().CSSCode:
                expected = np.vstack(
                    [
                        np.hstack([m, 0 * m]) if i == 0 else np.hstack([0 * m, m])
                        for i, m in enumerate(
                            [
                                direct_sum([np.hstack([util.mat(p[h], p["n"]), 0 * util.mat(p[h], p["n"])]) for p in parts])[:, :n]
                                for h in ("hx", "hz")
                            ]
                        )
                    ]
                )
            what = f"{kind.__name__} stack #{attempt}"
            flag = any(g for _, g, _ in dims)
            info = quantum.check_code(c, stack, expected, n, q, what=what, subsystem=flag)
            c.equal(info["k"], sum(k for _, _, k in dims), f"{what}: logical qudits")
            c.equal(info["g"], sum(g for _, g, _ in dims), f"{what}: gauge qudits")
            if case["inherit"]:
                c.equal(info["logicals"], stacked_logicals(logicals), f"{what}: inherited operators")
    for code, state in zip(built, saved):
        check_unchanged(c, code, state, "stack")
    if not all_css:
        c.raises(TypeError, lambda: codes().CSSCode.stack(*built), "CSS stack of general codes")


@st.composite
def bad_stack_case(draw: Any) -> dict:
    q, p = draw(st.sampled_from([[2, 3], [3, 2], [2, 4], [5, 3], [4, 2]]))
    css = draw(st.booleans())
    return {
        "parts": [draw(gen.any_code(q, 1, 3, min_k=1, css=css)), draw(gen.any_code(p, 1, 3, min_k=1, css=css))],
    }


@PROP.test(bad_stack_case, quick=120, shards=1)
def different_fields(case: dict, c: Context) -> None:
    a, b = (quantum.build(part) for part in case["parts"])
    c.nontrivial()
    kind = type(a)
    c.raises(ValueError, lambda: kind.stack(a, b), "stack of codes over different fields")
    c.raises(ValueError, lambda: kind.concatenate(a, b), "concatenation over different fields")


####################################################################################################
# concatenation


@st.composite
def concatenation_case(draw: Any) -> dict:
    q = draw(gen.field_orders((2, 3, 4, 5)))
    css = draw(st.sampled_from([None, True, True, False]))
    inner = draw(gen.any_code(q, 1, 4, min_k=1, css=css))
    outer = draw(gen.any_code(q, 1, 3, css=css))
    field = ff.get(q)
    k = quantum.dimensions(field, quantum.code_rows(inner))[2]
    m = outer["n"]
    kind = draw(st.sampled_from(["default", "list", "mapping", "invalid"]))
    mapping = None
    if kind != "default" and k:
        lcm = int(np.lcm(k, m))
        size = lcm * draw(st.integers(1, 2 if lcm <= 4 else 1))
        if kind == "invalid":
            size += draw(st.integers(1, max(1, lcm - 1)))
        mapping = draw(gen.permutation(size))
    return {
        "q": q,
        "inner": inner,
        "outer": outer,
        "kind": kind,
        "mapping": mapping,
        "inherit": draw(st.sampled_from([True, True, False])),
    }


@PROP.test(concatenation_case, quick=900, shards=5)
def concatenation(case: dict, c: Context) -> None:
    q, field = case["q"], ff.get(case["q"])
    inner_case, outer_case = case["inner"], case["outer"]
    inner, outer = quantum.build(inner_case), quantum.build(outer_case)
    rows_in, rows_out = quantum.code_rows(inner_case), quantum.code_rows(outer_case)
    n_in, n_out = inner_case["n"], outer_case["n"]
    k_in = quantum.dimensions(field, rows_in)[2]
    k_out = quantum.dimensions(field, rows_out)[2]
    if not k_in:
        return
    saved = [snapshot(inner), snapshot(outer)]
    ops_in, ops_out = logicals_of(inner, n_in, q), logicals_of(outer, n_out, q)
    mapping = case["mapping"]
    argument: Any = mapping
    if case["kind"] == "mapping":
        argument = dict(reversed(list(enumerate(mapping))))
    kinds = [codes().QuditCode]
    if "hx" in inner_case and "hx" in outer_case:
        kinds.append(codes().CSSCode)
    else:
        c.raises(
            TypeError, lambda: codes().CSSCode.concatenate(inner, outer, argument), "CSS concatenation"
        )
    size = k_in * n_out if mapping is None else len(mapping)
    if size % k_in or size % n_out:
        for kind in kinds:
            c.raises(ValueError, lambda: kind.concatenate(inner, outer, argument), "invalid mapping")
        return
    if mapping is None:
        # each logical qudit of an inner block is a physical qudit of a different outer block
        mapping = [qudit * k_in + block for block in range(k_in) for qudit in range(n_out)]
    num_in, num_out = size // k_in, size // n_out
    c.nontrivial(len(rows_in) and len(rows_out))
    c.label(
        case["kind"],
        f"inner blocks={min(num_in, 3)}",
        f"outer blocks={min(num_out, 3)}",
        f"k={min(k_out, 2)}",
        "inherit" if case["inherit"] else "recompute",
    )
    # reference: images of outer operators under "physical qudit i -> inner logical mapping[i]"
    n = num_in * n_in
    all_ops_in = stacked_logicals([ops_in] * num_in)
    images = np.vstack([all_ops_in[mapping], all_ops_in[[size + i for i in mapping]]])
    stack_rows_out = direct_sum([rows_out] * num_out)
    checks = field.matmul(stack_rows_out, images).reshape(len(stack_rows_out), 2 * n)
    inner_rows = direct_sum([rows_in] * num_in)
    all_ops_out = stacked_logicals([ops_out] * num_out)
    expected_ops = field.matmul(all_ops_out, images).reshape(len(all_ops_out), 2 * n)
    expected_rows = np.vstack([inner_rows, checks])
    for kind in kinds:
        for attempt in range(2):
            what = f"{kind.__name__} concatenation #{attempt}"
            code = kind.concatenate(inner, outer, argument, inherit_logicals=case["inherit"])
            c.require(isinstance(code, kind), f"{what}: type")
            matrix = util.ints(code.matrix, expected_rows.shape, f"{what}: checks", q)
            if kind is codes().CSSCode:
                order = np.concatenate(
                    [
                        np.nonzero(expected_rows[:, :n].any(axis=1))[0],
                        np.nonzero(expected_rows[:, n:].any(axis=1))[0],
                    ]
                )
                nonzero = matrix[matrix.any(axis=1)]
                c.equal(nonzero, expected_rows[order], f"{what}: checks")
            else:
                # rows of inner and outer CSS codes are X-type first, then Z-type
                c.equal(sorted(matrix.tolist()), sorted(expected_rows.tolist()), f"{what}: checks")
            info = quantum.check_code(c, code, expected_rows, n, q, what=what, exact_rows=False,
                                      subsystem=bool(field.symp(expected_rows, expected_rows).any()) if len(expected_rows) else False)
            c.equal(info["k"], k_out * num_out, f"{what}: logical qudits")
            if case["inherit"]:
                c.equal(info["logicals"], expected_ops, f"{what}: inherited logical operators")
    check_unchanged(c, inner, saved[0], "inner code")
    check_unchanged(c, outer, saved[1], "outer code")


####################################################################################################
# conjugation


@st.composite
def conjugation_case(draw: Any) -> dict:
    q = draw(gen.field_orders((2, 3, 4, 5, 7, 9)))
    code = draw(gen.any_code(q, 1, 5))
    qudits = [i for i in range(code["n"]) if draw(st.booleans())]
    return {
        "code": code,
        "kind": draw(st.sampled_from(["list", "tuple", "array", "slice", "none", "shuffled"])),
        "qudits": qudits,
        "slice": [draw(st.integers(0, 5)), draw(st.integers(0, 6)), draw(st.integers(1, 3))],
    }


@PROP.test(conjugation_case, quick=1500, shards=3)
def conjugation(case: dict, c: Context) -> None:
    q, n = case["code"]["q"], case["code"]["n"]
    field = ff.get(q)
    code = quantum.build(case["code"])
    rows = quantum.code_rows(case["code"])
    known = case["code"]["preset"] != "none"
    ops = logicals_of(code, n, q) if known else None
    saved = snapshot(code) if known else [(code.matrix, np.array(code.matrix).copy())]
    qudits: Any = case["qudits"]
    if case["kind"] == "tuple":
        qudits = tuple(qudits)
    elif case["kind"] == "array":
        qudits = np.array(qudits, dtype=int)
    elif case["kind"] == "slice":
        qudits = slice(*case["slice"])
    elif case["kind"] == "none":
        qudits = None
    elif case["kind"] == "shuffled":
        qudits = qudits[::-1]
    chosen = [] if qudits is None else np.arange(n)[qudits if len(case["qudits"]) or case["kind"] == "slice" else []].tolist() if not isinstance(qudits, tuple) else list(qudits)
    k = quantum.dimensions(field, rows)[2]
    c.nontrivial(len(chosen) and len(rows) and k)
    c.label(case["kind"], "odd" if q % 2 else "even")

    def image(vecs: np.ndarray, inverse: bool) -> np.ndarray:
        out = vecs.copy()
        x, z = vecs[:, :n], vecs[:, n:]
        for j in chosen:
            out[:, j] = z[:, j] if inverse else field.neg[z[:, j]]
            out[:, n + j] = field.neg[x[:, j]] if inverse else x[:, j]
        return out

    for attempt in range(2):
        result = code.conjugated(qudits)
        got = util.ints(result.matrix, rows.shape, "conjugated checks", q)
        # either direction of the Fourier transform conjugates X into Z
        inverse = not np.array_equal(got, image(rows, False))
        info = quantum.check_code(
            c, result, image(rows, inverse), n, q, what=f"conjugated code #{attempt}",
            subsystem=bool(code.is_subsystem_code),
        )
        if ops is not None:
            options = [image(ops, inverse)] if field.rank(rows) else [image(ops, i) for i in (False, True)]
            c.require(
                any(np.array_equal(info["logicals"], option) for option in options),
                "logical operators of the conjugated code",
                info["logicals"],
                options,
            )
    c.equal(info["k"], k, "logical qudits of the conjugated code")
    for live, values in saved:
        c.equal(np.array(live), values, "conjugation modified the code")
    if known:
        check_unchanged(c, code, saved, "conjugation")


####################################################################################################
# deformation

# images of X and Z under each gate, as (x, z) bits on the gate's qubits
ONE = {
    "I": ((1, 0), (0, 1)),
    "X": ((1, 0), (0, 1)),
    "Y": ((1, 0), (0, 1)),
    "H": ((0, 1), (1, 0)),
    "S": ((1, 1), (0, 1)),
    "S_DAG": ((1, 1), (0, 1)),
    "SQRT_X": ((1, 0), (1, 1)),
    "SQRT_Y": ((0, 1), (1, 0)),
    "C_XYZ": ((1, 1), (1, 0)),  # X -> Y, Z -> X
    "C_ZYX": ((0, 1), (1, 1)),  # X -> Z, Z -> Y
    "H_YZ": ((1, 0), (1, 1)),
    "H_XY": ((1, 1), (0, 1)),
}
TWO = ("CX", "CZ", "SWAP", "CY")


def apply_clifford(vecs: np.ndarray, gates: list) -> np.ndarray:
    out = vecs.copy() % 2
    n = out.shape[1] // 2
    for name, a, b in gates:
        xa, za = out[:, a].copy(), out[:, n + a].copy()
        if name in ONE:
            (xx, xz), (zx, zz) = ONE[name]
            out[:, a] = (xa * xx + za * zx) % 2
            out[:, n + a] = (xa * xz + za * zz) % 2
            continue
        xb, zb = out[:, b].copy(), out[:, n + b].copy()
        if name == "CX":
            out[:, b], out[:, n + a] = xb ^ xa, za ^ zb
        elif name == "CZ":
            out[:, n + a], out[:, n + b] = za ^ xb, zb ^ xa
        elif name == "CY":
            out[:, b], out[:, n + b], out[:, n + a] = xb ^ xa, zb ^ xa, za ^ zb ^ xb
        else:
            out[:, a], out[:, n + a], out[:, b], out[:, n + b] = xb, zb, xa, za
    return out


@st.composite
def deformation_case(draw: Any) -> dict:
    code = draw(gen.any_code(2, 1, 6))
    n = code["n"]
    gates = []
    for _ in range(draw(st.integers(0, 8))):
        a = draw(st.integers(0, n - 1))
        if n > 1 and draw(st.booleans()):
            b = draw(st.integers(0, n - 2))
            gates.append([draw(st.sampled_from(TWO)), a, b + (b >= a)])
        else:
            gates.append([draw(st.sampled_from(sorted(ONE))), a, a])
    return {
        "code": code,
        "gates": gates,
        "text": draw(st.booleans()),
        "preserve": draw(st.sampled_from([False, False, True])),
    }


@PROP.test(deformation_case, quick=2000, shards=3)
def deformation(case: dict, c: Context) -> None:
    import stim

    n, field = case["code"]["n"], ff.get(2)
    code = quantum.build(case["code"])
    rows = quantum.code_rows(case["code"])
    known = case["code"]["preset"] != "none"
    ops = logicals_of(code, n, 2) if known or case["preserve"] else None
    saved = snapshot(code) if ops is not None else [(code.matrix, np.array(code.matrix).copy())]
    lines = [f"{name} {a}" if name in ONE else f"{name} {a} {b}" for name, a, b in case["gates"]]
    circuit: Any = "\n".join(lines)
    if not case["text"]:
        circuit = stim.Circuit(circuit)
    expected = apply_clifford(rows, case["gates"])
    s, g, k = quantum.dimensions(field, rows)
    c.nontrivial(k and len(rows) and not np.array_equal(expected, rows))
    kwargs = {"preserve_logicals": True} if case["preserve"] else {}
    if case["preserve"] and len(rows) and k and field.symp(expected, ops).any():
        c.label("not preserved")
        c.raises(ValueError, lambda: code.deformed(circuit, **kwargs), "logicals are not preserved")
    else:
        c.label("preserved" if case["preserve"] else "transformed")
        for attempt in range(2):
            result = code.deformed(circuit, **kwargs)
            info = quantum.check_code(
                c, result, expected, n, 2, what=f"deformed code #{attempt}", subsystem=g != 0
            )
            c.equal(info["k"], k, "logical qubits of the deformed code")
            if case["preserve"]:
                c.equal(info["logicals"], ops, "preserved logical operators")
            elif ops is not None:
                target = apply_clifford(ops, case["gates"])
                c.equal(info["logicals"], target, "transformed logical operators")
    for live, values in saved:
        c.equal(np.array(live), values, "deformation modified the code")
    if not case["text"]:
        c.equal(str(circuit), str(stim.Circuit("\n".join(lines))), "circuit after the call")


@st.composite
def qudit_deformation_case(draw: Any) -> dict:
    return {"code": draw(gen.any_code(draw(st.sampled_from([3, 4, 5])), 1, 3))}


@PROP.test(qudit_deformation_case, quick=60, shards=1)
def deformation_needs_qubits(case: dict, c: Context) -> None:
    code = quantum.build(case["code"])
    c.nontrivial()
    c.raises(ValueError, lambda: code.deformed("H 0"), "deformation of a qudit code")


####################################################################################################
# distances of derived codes, whatever was known about the originals


@st.composite
def distance_case(draw: Any) -> dict:
    q = draw(st.sampled_from([2, 2, 2, 3]))
    kind = draw(st.sampled_from(["stack", "stack", "stack", "concatenate", "conjugate", "copy"]))
    limit = {"stack": 5, "concatenate": 4, "conjugate": 6, "copy": 6}[kind] - (q > 2)
    parts = []
    for index in range({"stack": draw(st.integers(2, 3)), "concatenate": 2}.get(kind, 1)):
        shape = draw(st.sampled_from(["any", "good", "good", "equal", "equal", "repetition", "repetition"]))
        n = draw(st.integers(min(3, limit) if shape != "any" else 1, limit))
        part: dict = {"q": q, "n": n, "preset": draw(st.sampled_from(["none", "queried", "supplied"]))}
        part["seed"] = draw(st.integers(0, 2**30))
        if shape == "any":
            part = draw(gen.any_code(q, n, n, min_k=1, css=True))
        elif shape == "good":
            total = draw(st.integers(max(0, n - 2), n - 1))
            rx = draw(st.integers(0, total))
            part["hx"], part["hz"] = good_css(q, n, rx, total - rx, 0, part["seed"])
        elif shape == "equal":  # rows of even weight, with small overlaps
            part["n"] = n = draw(st.sampled_from([2, 4])) if q == 2 else 3
            part["hx"] = [[1] * n]
            part["hz"] = [[1] * n]
        else:  # distances n and 1
            side = draw(st.sampled_from(["hx", "hz"]))
            part[side] = [[int(j == i) + (q - 1) * int(j == i + 1) for j in range(n)] for i in range(n - 1)]
            part["hz" if side == "hx" else "hx"] = []
        if not part["hx"] and not part["hz"]:
            part["hx"] = [[0] * part["n"]]
        parts.append(part)
    total = sum(part["n"] for part in parts)
    return {
        "q": q,
        "kind": kind,
        "parts": parts,
        "before": draw(st.lists(st.integers(0, 8), max_size=4)),
        "after": draw(st.permutations([0, 1, 2])),
        "inherit": draw(st.booleans()),
        "qudits": [i for i in range(total) if draw(st.booleans())],
    }


@PROP.test(distance_case, quick=900, shards=3)
def distances_of_derived_codes(case: dict, c: Context) -> None:
    from qldpc.objects import Pauli

    q, field, parts = case["q"], ff.get(case["q"]), case["parts"]
    paulis = (None, Pauli.X, Pauli.Z)
    sizes = [quantum.dimensions(field, quantum.code_rows(part)) for part in parts]
    if not all(k for _, _, k in sizes):
        return
    built = [quantum.build(part) for part in parts]
    for action in case["before"]:
        built[action // 3 % len(built)].get_distance(paulis[action % 3])
    kind = case["kind"]
    if kind == "stack":
        code = codes().CSSCode.stack(*built, inherit_logicals=case["inherit"])
    elif kind == "concatenate":
        code = codes().CSSCode.concatenate(*built, inherit_logicals=case["inherit"])
    elif kind == "conjugate":
        code = built[0].conjugated(case["qudits"])
    else:
        code = codes().CSSCode(built[0].code_x, built[0].code_z)
    n = len(code)
    rows = util.ints(code.matrix, (None, 2 * n), "checks", q)
    if n > 12 or (q > 2 and n > 6):
        return
    k = quantum.dimensions(field, rows)[2]
    if not k or q > 2 and q ** (2 * k + field.rank(rows)) > 3000:
        return
    if kind == "conjugate":
        # relabelling the operators of each qudit preserves all weights
        originals = quantum.code_rows(parts[0])
        n = parts[0]["n"]
        expected = [dressed(field, originals, n)]
        c.nontrivial(expected[0] > 1 and case["qudits"])
        c.label(kind, f"d={expected[0]}")
        c.equal(int(code.get_distance()), expected[0], "distance of the conjugated code")
        return
    halves = [rows[rows[:, :n].any(axis=1)][:, :n], rows[rows[:, n:].any(axis=1)][:, n:]]
    if kind != "concatenate":
        halves = [
            direct_sum([np.hstack([util.mat(p[h], p["n"]), 0 * util.mat(p[h], p["n"])]) for p in parts])[:, :n]
            for h in ("hx", "hz")
        ]
    distances = [quantum.css_min_distance(field, *pair) for pair in (halves, halves[::-1])]
    values = [min(distances), *distances]
    if kind == "stack":
        each = [
            [quantum.css_min_distance(field, util.mat(p[a], p["n"]), util.mat(p[b], p["n"])) for p in parts]
            for a, b in (("hx", "hz"), ("hz", "hx"))
        ]
        c.equal([min(ds) for ds in each], distances, "oracle")
    c.nontrivial(max(values) > 1)
    c.label(kind, "asymmetric" if distances[0] != distances[1] else "symmetric")
    for index in [*case["after"], 0, 1, 2]:
        c.equal(int(code.get_distance(paulis[index])), values[index], f"{kind}: {paulis[index]} distance")


def dressed(field: ff.Field, rows: np.ndarray, n: int) -> int:
    """Least weight of an operator that commutes with the stabilizers and is not in the gauge group."""
    gauge = {tuple(v) for v in field.span(field.rref(rows)).tolist()} if len(rows) else {(0,) * 2 * n}
    vectors = field.span(field.symp_complement(field.center(rows)))
    outside = [v for v in vectors if tuple(v.tolist()) not in gauge]
    return int(field.symp_weight(np.array(outside)).min())
