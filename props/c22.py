"""C22: encoders and logical tableaus prepare and act on the code as documented."""

from __future__ import annotations

from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, quantum, util
from vlib.core import Context, Property

PROP = Property(
    "C22",
    "Stabilizer and subsystem codes of up to 7 qubits (general and CSS, redundant checks, logical"
    " operators queried or set by the caller beforehand), up to 24 qubits for the named families,"
    " and codes made from them by deformation, conjugation, stacking and concatenation.  Physical"
    " Clifford circuits made by conjugating a random Clifford on the logical, gauge and stabilizer"
    " qubits with an encoder (preserving the code by construction, or spoiled by one gate), or drawn"
    " gate by gate.  Whether a circuit preserves the code is decided by an independent symplectic"
    " calculation.  Non-trivial: the code has a logical qubit and a stabilizer.",
)

F = ff.get(2)
ONE = ["X", "Y", "Z", "H", "S", "S_DAG", "SQRT_X", "SQRT_X_DAG", "H_YZ", "C_XYZ", "C_ZYX"]
TWO = ["CX", "CY", "CZ", "SWAP", "ISWAP", "XCZ", "XCY"]


def circuits() -> Any:
    from qldpc import circuits

    return circuits


def codes() -> Any:
    from qldpc import codes

    return codes


def pauli(row: Any, sign: int = 1) -> Any:
    import stim

    row = np.asarray(row).astype(bool)
    n = len(row) // 2
    return stim.PauliString.from_numpy(xs=row[:n], zs=row[n:], sign=sign)


def row_of(string: Any) -> tuple[np.ndarray, int]:
    xs, zs = string.to_numpy()
    return np.concatenate([xs, zs]).astype(int), int(np.real(string.sign))


####################################################################################################
# codes


FAMILIES = [
    ["five"], ["steane"], ["c4"], ["c6"], ["iceberg", 2], ["iceberg", 3], ["iceberg3alt"],
    ["surface", 2, 3, True], ["surface", 3, 3, True], ["surface", 3, 2, False], ["surface", 2, 2, False],
    ["toric", 2, 2, True], ["toric", 4, 2, True], ["toric", 2, 2, False], ["toric", 2, 3, False],
    ["bacon", 2, 2], ["bacon", 3, 2], ["bacon", 3, 3], ["general", 2, 3], ["shyps", 2],
    ["hgp"], ["shp"], ["tb"], ["random"],
]  # fmt: skip


def family(spec: list, rng: np.random.Generator) -> Any:
    """A code of one of the named families, which arrive with logical operators of their own."""
    mod = codes()
    name, *args = spec
    if name == "five":
        return mod.FiveQubitCode()
    if name == "steane":
        return mod.SteaneCode()
    if name == "c4":
        return mod.C4Code()
    if name == "c6":
        return mod.C6Code()
    if name == "iceberg":
        return mod.IcebergCode(*args)
    if name == "iceberg3alt":
        return mod.IcebergCode(3, alternative_logicals=True)
    if name == "surface":
        return mod.SurfaceCode(args[0], args[1], rotated=args[2])
    if name == "toric":
        return mod.ToricCode(args[0], args[1], rotated=args[2])
    if name == "bacon":
        return mod.BaconShorCode(*args)
    if name == "general":
        return mod.GeneralizedSurfaceCode(args[0], dim=args[1])
    if name == "shyps":
        return mod.SHYPSCode(*args)
    if name in ("hgp", "shp"):
        a, b = rng.integers(0, 2, (rng.integers(1, 3), 3)), rng.integers(0, 2, (2, rng.integers(2, 5)))
        return mod.HGPCode(a, b, 2) if name == "hgp" else mod.SHPCode(a, b, 2)
    if name == "tb":
        order = int(rng.integers(2, 6))
        shift = np.roll(np.eye(order, dtype=int), 1, axis=0)
        powers = [np.linalg.matrix_power(shift, i) for i in range(order)]
        a, b = (sum(int(x) * p for x, p in zip(rng.integers(0, 2, order), powers)) for _ in range(2))
        return mod.TBCode(np.asarray(a) + 0 * shift, np.asarray(b) + 0 * shift, 2)
    assert name == "random"
    a, b = rng.integers(0, 2, (2, 4)), rng.integers(0, 2, (2, 3))
    return mod.HGPCode(a, b, 2, set_logicals=False)


@st.composite
def gates(draw: Any, n: int, max_size: int = 8) -> list:
    """Clifford gates on n qubits."""
    out = []
    for _ in range(draw(st.integers(0, max_size)) if n else 0):
        if n > 1 and draw(st.booleans()):
            a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 2))
            out.append([draw(st.sampled_from(TWO)), a, b + (b >= a)])
        else:
            out.append([draw(st.sampled_from(ONE)), draw(st.integers(0, n - 1))])
    return out


@st.composite
def any_codes(draw: Any, max_n: int = 6, families: int = 2, min_k: int = 0) -> dict:
    """A code, and changes made to it before its use."""
    if draw(st.integers(0, 5)) < families:
        case = {"family": draw(st.sampled_from(FAMILIES)), "seed": draw(st.integers(0, 2**20))}
    else:
        case = {"code": draw(gen.any_code(2, 1, max_n, min_k=min_k))}
    case["change"] = draw(
        st.sampled_from(["none"] * 4 + ["deform", "deform", "conjugate", "stack", "concatenate"])
    )
    if case["change"] in ("deform", "conjugate"):
        case["change_seed"] = draw(st.integers(0, 2**20))
    return case


def from_gates(gate_list: list, n: int, offset: int = 0) -> Any:
    import stim

    out = stim.Circuit()
    for name, *targets in gate_list:
        out.append(name, [t % n + offset for t in targets])
    return out


def random_gates(rng: np.random.Generator, n: int, count: int) -> list:
    out = []
    for _ in range(count):
        if n > 1 and rng.integers(2):
            a, b = rng.choice(n, 2, replace=False)
            out.append([TWO[rng.integers(len(TWO))], int(a), int(b)])
        else:
            out.append([ONE[rng.integers(len(ONE))], int(rng.integers(n))])
    return out


def build(case: dict, c: Context) -> Any:
    mod = codes()
    if "family" in case:
        code = family(case["family"], np.random.default_rng(case["seed"]))
        c.label(case["family"][0])
    else:
        code = quantum.build(case["code"])
        c.label("CSS" if "hx" in case["code"] else "general", case["code"]["preset"])
    change = case["change"]
    c.label(f"change: {change}")
    if change == "deform":
        rng = np.random.default_rng(case["change_seed"])
        code = code.deformed(from_gates(random_gates(rng, len(code), 8), len(code)))
    elif change == "conjugate":
        rng = np.random.default_rng(case["change_seed"])
        code = code.conjugated([i for i in range(len(code)) if rng.integers(2)])
    elif change == "stack" and len(code) < 10:
        code = mod.QuditCode.stack(code, mod.FiveQubitCode())
    elif change == "concatenate" and len(code) < 7 and not code.is_subsystem_code:
        code = mod.QuditCode.concatenate(mod.C4Code(), code)
    return code


class Facts:
    """What the code is, from its checks alone."""

    def __init__(self, code: Any) -> None:
        n = self.n = len(code)
        self.rows = util.ints(code.matrix, (None, 2 * n), "checks", 2)
        self.center = F.center(self.rows)
        self.s = len(self.center)
        self.g = (F.rank(self.rows) - self.s) // 2
        self.k = n - self.s - self.g
        self.logicals = util.ints(code.get_logical_ops(), (2 * self.k, 2 * n), "logical ops", 2)

    def preserved_by(self, tableau: Any) -> bool:
        """Does this Clifford map the stabilizer group and gauge group to themselves, up to signs?"""
        return all(
            F.same_span(group, self.images(tableau, group)) for group in (self.center, self.rows)
        )

    def images(self, tableau: Any, rows: np.ndarray) -> np.ndarray:
        out = [row_of(tableau(pauli(row)))[0] for row in rows]
        return np.array(out, dtype=int).reshape(len(rows), 2 * self.n)


def tableau_of(circuit: Any, n: int) -> Any:
    import stim

    out = stim.Circuit()
    out.append("I", range(n))
    return (out + circuit).to_tableau()


def check_encoder(c: Context, code: Any, facts: Facts, tableau: Any, what: str) -> None:
    """The documented action of an encoder."""
    n, k, g = facts.n, facts.k, facts.g
    c.equal(len(tableau), n, f"{what}: number of qubits")
    fixed = []
    for j in range(n):
        x, sign_x = row_of(tableau.x_output(j))
        z, sign_z = row_of(tableau.z_output(j))
        if j < k:
            c.equal(x, facts.logicals[j], f"{what}: image of X_{j}")
            c.equal(z, facts.logicals[k + j], f"{what}: image of Z_{j}")
            c.equal((sign_x, sign_z), (1, 1), f"{what}: signs of logical qubit {j}")
        elif j < k + g:
            for row in (x, z):
                c.require(F.in_span(row, facts.rows), f"{what}: input {j} is not a gauge qubit", row)
            c.equal((sign_x, sign_z), (1, 1), f"{what}: signs of gauge qubit {j}")
        else:
            fixed.append(z)
            c.equal(sign_z, 1, f"{what}: sign of the stabilizer from input {j}")
    fixed = np.array(fixed, dtype=int).reshape(len(fixed), 2 * n)
    c.require(
        F.same_span(fixed, facts.center), f"{what}: fixed inputs do not yield the stabilizers", fixed
    )


@PROP.test(any_codes, quick=3000, shards=4)
def encoders(case: dict, c: Context) -> None:
    import stim

    code = build(case, c)
    facts = Facts(code)
    n = facts.n
    c.nontrivial(facts.k and facts.s)
    c.label(f"k={min(facts.k, 3)}", "subsystem" if facts.g else "stabilizer")
    tableau = circuits().get_encoding_tableau(code)
    check_encoder(c, code, facts, tableau, "encoding tableau")
    circuit = circuits().get_encoding_circuit(code)
    c.equal(tableau_of(circuit, n), tableau, "the encoding circuit has the encoding tableau")
    encoder, decoder = circuits().get_encoder_and_decoder(code)
    check_encoder(c, code, facts, encoder, "encoder")
    c.equal(encoder.then(decoder), stim.Tableau(n), "decoding undoes encoding")

    # run the circuit on states of the unencoded qubits
    rng = np.random.default_rng(case.get("seed", 7))
    bits = rng.integers(0, 2, facts.k)
    plus = int(rng.integers(0, 2))  # prepare logical qubits in an X basis state?
    for one_circuit in (circuit, tableau.to_circuit()):
        simulator = stim.TableauSimulator()
        simulator.set_num_qubits(n)
        for q, bit in enumerate(bits):
            if bit:
                simulator.x(q)
            if plus:
                simulator.h(q)
        simulator.do(one_circuit)
        for row in facts.center:
            value = simulator.peek_observable_expectation(pauli(row))
            c.equal(value, 1, "expectation value of a stabilizer in an encoded state")
        for q, bit in enumerate(bits):
            op = pauli(facts.logicals[q if plus else facts.k + q])
            value = simulator.peek_observable_expectation(op)
            c.equal(value, 1 - 2 * int(bit), f"logical measurement of qubit {q}")


####################################################################################################
# logical tableaus


def judge(
    c: Context, before: Facts, after: Facts, decoder: Any, physical: Any, logical: Any, signs: bool
) -> None:
    """Does this physical Clifford act on logical operators as the logical tableau says?

    The decoder maps the logical operators of the code that the circuit leaves behind to Pauli
    operators on the first k qubits, and its positive stabilizers to Pauli-Z on the last qubits.
    """
    k, g, n = before.k, before.g, before.n
    c.equal(len(logical), k, "size of the logical tableau")
    for j in range(2 * k):
        image = decoder(physical(pauli(before.logicals[j])))
        row, sign = row_of(image)
        x, z = row[:n], row[n:]
        c.require(not x[k:].any() and not z[k : k + g].any(), "harness: a logical operator left")
        expected = np.concatenate([x[:k], z[:k]])
        got, got_sign = row_of(logical.x_output(j) if j < k else logical.z_output(j - k))
        c.equal(got, expected, f"image of logical operator {j}")
        if signs:
            c.equal(got_sign, sign, f"sign of the image of logical operator {j}")


def keeps_signs(physical: Any, before: Facts, decoder: Any) -> bool:
    """Do stabilizers with positive sign remain stabilizers with positive sign?"""
    return all(row_of(decoder(physical(pauli(row))))[1] == 1 for row in before.center)


@st.composite
def logical_cases(draw: Any) -> dict:
    case = draw(any_codes(5, 1))
    case["logical"] = draw(gates(4))
    case["gauge"] = draw(gates(4, 4))
    # gates that leave stabilizers alone: within stabilizer qubits, or controlled by them
    kinds = ["CX", "CZ", "S", "SWAP", "cX", "cY", "cZ", "ISWAP", "S_DAG"]
    small = st.integers(0, 6)
    case["stab"] = draw(
        st.lists(st.tuples(st.sampled_from(kinds), small, small).map(list), max_size=6)
    )
    spoil = ["H", "SQRT_X", "C_XYZ", "XCX", "lX", "gX", "gZ", "lZ"]
    case["spoil"] = draw(st.none() | st.tuples(st.sampled_from(spoil), small, small).map(list))
    case["place"] = draw(st.integers(0, 2))
    return case


def decoded_circuit(case: dict, facts: Facts) -> Any:
    """A Clifford on the logical, gauge and stabilizer qubits; does its code of gates mean trouble?"""
    import stim

    k, g, s, n = facts.k, facts.g, facts.s, facts.n
    out = stim.Circuit()
    out.append("I", range(n))
    parts = []
    logical = from_gates([x for x in case["logical"] if max(x[1:]) < k], max(k, 1))
    gauge = from_gates([x for x in case["gauge"] if max(x[1:]) < g], max(g, 1), k)
    stab = stim.Circuit()
    for kind, a, b in case["stab"]:
        if not s:
            break
        first, second = k + g + a % s, k + g + b % s
        if kind in ("S", "S_DAG"):
            stab.append(kind, first)
        elif kind[0] == "c":
            if n > s:
                stab.append("C" + kind[1], [first, b % (n - s)])
        elif first != second:
            stab.append(kind, [first, second])
    spoil = stim.Circuit()
    if case["spoil"] is not None:
        kind, a, b = case["spoil"]
        if kind in ("H", "SQRT_X", "C_XYZ"):
            if s:
                spoil.append(kind, k + g + a % s)
        elif kind == "XCX":
            if s and n > s:
                spoil.append(kind, [k + g + a % s, b % (n - s)])
        elif kind[0] == "l":
            if s and k:
                spoil.append("C" + kind[1], [a % k, k + g + b % s])
        elif g and k:
            spoil.append("C" + kind[1], [k + a % g, b % k])
    parts = [logical + gauge, stab]
    parts.insert(case["place"], spoil)
    for part in parts:
        out += part
    return out, logical, len(spoil) > 0


@PROP.test(logical_cases, quick=2400, shards=4)
def logical_tableaus(case: dict, c: Context) -> None:
    code = build(case, c)
    facts = Facts(code)
    c.nontrivial(facts.k and facts.s)
    encoder = circuits().get_encoding_tableau(code)
    check_encoder(c, code, facts, encoder, "encoding tableau")
    decoder = encoder.inverse()
    decoded, logical, spoiled = decoded_circuit(case, facts)
    physical = decoder.to_circuit() + decoded + encoder.to_circuit()
    tableau = tableau_of(physical, facts.n)
    preserved = facts.preserved_by(tableau)
    c.label("preserving" if preserved else "not preserving", "spoiled" if spoiled else "intact")
    c.require(preserved or spoiled, "harness: a circuit fails to preserve the code")
    if not preserved:
        c.raises(
            (AssertionError, ValueError),
            lambda: circuits().get_logical_tableau(code, physical),
            "a circuit that does not preserve the code",
        )
        return
    got = circuits().get_logical_tableau(code, physical)
    signs = keeps_signs(tableau, facts, decoder)
    judge(c, facts, facts, decoder, tableau, got, signs)
    if not spoiled and facts.k and signs:
        c.equal(got, tableau_of(logical, facts.k), "the logical Clifford that was encoded")
        c.label("logical circuit recovered")


@st.composite
def physical_cases(draw: Any) -> dict:
    case = draw(any_codes(4, 1))
    case["gates"] = draw(gates(7, 4))
    if draw(st.booleans()):
        case["gates"] = draw(gates(7, 8))
    case["uniform"] = draw(st.sampled_from(["", "", *ONE]))
    return case


def physical_circuit(case: dict, n: int) -> Any:
    """A circuit that need not address all qubits."""
    import stim

    if case["uniform"]:
        out = stim.Circuit()
        out.append(case["uniform"], range(n))
        return out
    out = from_gates([x for x in case["gates"] if max(x[1:]) < n], n)
    return out


@PROP.test(physical_cases, quick=2400, shards=4)
def physical_circuits(case: dict, c: Context) -> None:
    """Arbitrary circuits, most of which do not preserve the code."""
    code = build(case, c)
    facts = Facts(code)
    physical = physical_circuit(case, facts.n)
    tableau = tableau_of(physical, facts.n)
    preserved = facts.preserved_by(tableau)
    c.nontrivial(facts.k and facts.s and len(physical))
    c.label("preserving" if preserved else "not preserving")
    if not preserved:
        c.raises(
            (AssertionError, ValueError),
            lambda: circuits().get_logical_tableau(code, physical),
            "a circuit that does not preserve the code",
        )
        return
    got = circuits().get_logical_tableau(code, physical)
    encoder = circuits().get_encoding_tableau(code)
    check_encoder(c, code, facts, encoder, "encoding tableau")
    decoder = encoder.inverse()
    judge(c, facts, facts, decoder, tableau, got, keeps_signs(tableau, facts, decoder))


@st.composite
def deformation_cases(draw: Any) -> dict:
    case = draw(any_codes(4, 1))
    case["logical"] = draw(gates(4))
    case["other"] = draw(gates(7))
    case["mixing"] = draw(gates(7, 2))
    case["encoded"] = draw(st.booleans())
    return case


@PROP.test(deformation_cases, quick=2000, shards=4)
def deformations(case: dict, c: Context) -> None:
    """Circuits that change the code around the same logical operators."""
    code = build(case, c)
    facts = Facts(code)
    n, k = facts.n, facts.k
    c.nontrivial(facts.k and facts.s)
    encoder = circuits().get_encoding_tableau(code)
    logical = from_gates([x for x in case["logical"] if max(x[1:]) < k], max(k, 1))
    mixing = from_gates([x for x in case["mixing"] if max(x[1:]) < n], n)
    if case["encoded"]:
        rest = n - k
        other = from_gates([x for x in case["other"] if max(x[1:]) < rest], max(rest, 1), k)
        physical = encoder.inverse().to_circuit() + logical + other + mixing + encoder.to_circuit()
    else:
        physical = mixing
    tableau = tableau_of(physical, n)
    images = facts.images(tableau, facts.rows)
    valid = not F.symp(images, facts.logicals).any() if len(images) and k else True
    c.label("valid" if valid else "invalid", "encoded" if case["encoded"] else "physical")
    if not valid:
        for func in (
            lambda: circuits().get_logical_tableau(code, physical, deform_code=True),
            lambda: circuits().get_encoder_and_decoder(code, physical),
        ):
            c.raises((AssertionError, ValueError), func, "a deformation that breaks logical operators")
        return
    got = circuits().get_logical_tableau(code, physical, deform_code=True)
    new = code.deformed(physical, preserve_logicals=True)
    after = Facts(new)
    c.require(F.same_span(after.rows, images), "the deformed code has the images of the checks")
    c.equal(after.logicals, facts.logicals, "the deformed code has the same logical operators")
    first, last = circuits().get_encoder_and_decoder(code, physical)
    check_encoder(c, code, facts, first, "encoder")
    check_encoder(c, new, after, last.inverse(), "encoder of the deformed code")
    judge(c, facts, after, last, tableau, got, keeps_signs(tableau, facts, last))
    if case["encoded"] and not len(mixing) and k:
        c.equal(
            F.arr([row_of(op)[0] for j in range(k) for op in (got.x_output(j), got.z_output(j))]),
            F.arr(
                [
                    row_of(op)[0]
                    for j in range(k)
                    for op in (
                        tableau_of(logical, k).x_output(j),
                        tableau_of(logical, k).z_output(j),
                    )
                ]
            ),
            "the logical Clifford that was encoded",
        )
        c.label("logical circuit recovered")


####################################################################################################
# codes that circuits cannot address


@st.composite
def qudit_cases(draw: Any) -> dict:
    q = draw(st.sampled_from([3, 4, 5]))
    return {"code": draw(gen.any_code(q, 1, 3)), "keyword": draw(st.booleans())}


@PROP.test(qudit_cases, quick=60, shards=1)
def qudit_codes(case: dict, c: Context) -> None:
    import stim

    code = quantum.build(case["code"])
    c.nontrivial()
    for name, extra in [
        ("get_encoding_tableau", {}),
        ("get_encoding_circuit", {}),
        ("get_encoder_and_decoder", {}),
        ("get_logical_tableau", {"physical_circuit": stim.Circuit("I 0")}),
    ]:
        func = getattr(circuits(), name)
        if case["keyword"]:
            c.raises(ValueError, lambda: func(code=code, **extra), f"{name} of a qudit code")
        else:
            c.raises(ValueError, lambda: func(code, *extra.values()), f"{name} of a qudit code")
