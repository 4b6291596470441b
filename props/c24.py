"""C24: result caching is transparent over every call history."""

from __future__ import annotations

import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from typing import Any

from hypothesis import strategies as st

from vlib import core, fakegap
from vlib.core import Context, Property

PROP = Property(
    "C24",
    "Histories of up to 14 operations on wrapped functions: calls with positional and keyword"
    " arguments (numbers that compare equal but differ in type, strings, tuples that look like"
    " keyword arguments, None, bytes, nested tuples), errors, modification of returned objects,"
    " clears, re-decoration, other functions with other caches or folders, restarts of the process,"
    " and interleavings with another process that clears or fills the cache before any primitive"
    " operation; and histories of the library's own cached queries of a stand-in for GAP that comes"
    " and goes.  Reference: the undecorated function.  Non-trivial: some call repeats an earlier one"
    " and two calls have different arguments.",
)


def cache_module() -> Any:
    import qldpc.cache

    sys.modules.pop("pytest", None)  # the cache is disabled while tests run
    return qldpc.cache


####################################################################################################
# arguments as plain data

atoms = st.one_of(
    st.tuples(st.just("i"), st.integers(-2, 3)),
    st.tuples(st.just("b"), st.booleans()),
    st.tuples(st.just("f"), st.sampled_from([0.0, 1.0, 2.0, 0.5])),
    st.tuples(st.just("s"), st.sampled_from(["a", "b", "", "1", "None", "boom", "nothing"])),
    st.tuples(st.just("n")),
    st.tuples(st.just("y"), st.sampled_from(["a", "b", ""])),
).map(list)


def nested(inner: Any) -> Any:
    pair = st.tuples(st.sampled_from(["a", "b"]).map(lambda s: ["s", s]), inner).map(list)
    return st.one_of(pair, pair, st.lists(inner, max_size=3)).map(lambda items: ["t", items])


values = st.one_of(atoms, atoms, nested(atoms), nested(nested(atoms)))


def decode(item: list) -> Any:
    kind, *rest = item
    if kind == "t":
        return tuple(map(decode, rest[0]))
    if kind == "n":
        return None
    if kind == "y":
        return rest[0].encode()
    return {"i": int, "b": bool, "f": float, "s": str}[kind](rest[0])


def describe(value: Any) -> Any:
    """Distinguishes all arguments that can be told apart."""
    if isinstance(value, tuple):
        return ["t", [describe(x) for x in value]]
    return [type(value).__name__, repr(value)]


def plain(salt: int, args: tuple, kwargs: dict) -> Any:
    """The undecorated function: a fresh structure that identifies the arguments."""
    about = [describe(args), sorted((name, describe(value)) for name, value in kwargs.items())]
    text = json.dumps(about)
    if "boom" in text:
        raise ArithmeticError(text)
    if "nothing" in text:
        return None if salt % 2 else []
    number = int.from_bytes(hashlib.sha256(f"{salt}{text}".encode()).digest()[:3], "big")
    return {"about": about, "number": number, "list": [number], "pair": (salt, [text])}


def outcome(func: Any) -> Any:
    try:
        return ["value", func()]
    except ArithmeticError as error:
        return ["error", str(error)]


def spoil(value: Any) -> None:
    """Modify everything that can be modified in a returned object."""
    if isinstance(value, dict):
        for item in value.values():
            spoil(item)
        value["spoiled"] = True
    elif isinstance(value, list):
        for item in value:
            spoil(item)
        value.append("spoiled")
    elif isinstance(value, tuple):
        for item in value:
            spoil(item)


@st.composite
def calls(draw: Any) -> dict:
    args = draw(st.lists(values, max_size=3))
    names = draw(st.lists(st.sampled_from(["a", "b", "salt", "args"]), max_size=2, unique=True))
    return dict(args=args, kwargs=[[name, draw(values)] for name in names])


@st.composite
def variants(draw: Any, base: dict) -> dict:
    """The same call, or one that could be mistaken for it."""
    args, kwargs = [*base["args"]], [*base["kwargs"]]
    kind = draw(st.integers(0, 10))
    if kind == 10 and kwargs:
        index = draw(st.integers(0, len(kwargs) - 1))
        kwargs[index] = [kwargs[index][0], draw(values)]
    elif kind == 7 and kwargs:
        index = draw(st.integers(0, len(kwargs) - 1))
        unused = [x for x in ("a", "b", "salt", "args") if x not in [k for k, _ in kwargs]]
        kwargs[index] = [draw(st.sampled_from(unused)), kwargs[index][1]]
    elif kind == 8 and kwargs:
        args.append(kwargs.pop()[1])
    elif kind == 9 and args:
        index = draw(st.integers(0, len(args) - 1))
        args[index] = ["s", str(decode(args[index]))]
    elif kind == 1:
        kwargs = kwargs[::-1]
    elif kind == 2 and kwargs:
        name, value = kwargs.pop(0)
        args.append(["t", [["s", name], value]])
    elif kind == 3 and args and args[-1][0] == "t" and len(args[-1][1]) == 2:
        name = args[-1][1][0]
        if name[0] == "s" and name[1] in ("a", "b") and name[1] not in [k for k, _ in kwargs]:
            kwargs.append([name[1], args.pop()[1][1]])
    elif kind == 4 and args:
        index = draw(st.integers(0, len(args) - 1))
        args[index] = {"i": ["b", True], "b": ["i", 1], "f": ["i", 1], "n": ["s", "None"]}.get(
            args[index][0], ["t", [args[index]]]
        )
    elif kind == 5 and args:
        args = [["t", args]]
    elif kind == 6 and len(args) == 1 and args[0][0] == "t":
        args = args[0][1]
    return dict(args=args, kwargs=kwargs)


# names of two caches
CACHE_NAMES = [
    *[["one", "two"], ["group_a", "group_b"], ["a-b", "a-c"], ["x.y", "x.z"], ["one", "one_two"]],
    *[["codes 1", "codes 2"], ["1", "11"], ["s/one", "s/two"], ["cache", "cache.db"], ["n", "N2"]],
]


@st.composite
def histories(draw: Any, events: bool = False, restarts: bool = False) -> dict:
    pool = [draw(calls()) for _ in range(draw(st.integers(1, 2)))]
    pool += [draw(variants(draw(st.sampled_from(pool)))) for _ in range(draw(st.integers(2, 5)))]
    ops: list[dict] = []
    kinds = ["call"] * 7 + ["spoil", "spoil", "clear", "decorate"] + ["restart"] * 3 * restarts
    for _ in range(draw(st.integers(3, 14))):
        op: dict = {"op": draw(st.sampled_from(kinds))}
        if op["op"] == "call":
            op.update(
                call=draw(st.integers(0, len(pool) - 1)),
                function=draw(st.sampled_from([0, 0, 0, 1, 2])),
            )
            if events:
                op["events"] = draw(
                    st.lists(st.sampled_from(["", "", "clear", "store", "evict"]), max_size=4)
                )
        elif op["op"] == "clear":
            op["function"] = draw(st.integers(0, 2))
        ops.append(op)
    return dict(
        pool=pool,
        ops=ops,
        default_dir=not restarts and draw(st.booleans()),
        key=draw(st.sampled_from(["", "", "first", "all"])),
        names=draw(st.sampled_from(CACHE_NAMES)),
    )


class World:
    """Three wrapped functions: two caches in one folder, and one in another folder."""

    def __init__(self, folder: str, default_dir: bool, key: str, names: list | None = None) -> None:
        self.folder = folder
        self.key = key
        self.names = names or ["one", "two"]
        self.default_dir = default_dir
        self.computed: list[tuple] = []
        self.decorate()

    def place(self, function: int) -> dict:
        name = self.names[function % 2]
        if function == 2:
            return dict(cache_name=name, cache_dir=os.path.join(self.folder, "other"))
        if self.default_dir:
            return dict(cache_name=name)
        return dict(cache_name=name, cache_dir=os.path.join(self.folder, "main"))

    def decorate(self) -> None:
        self.functions = [self.wrap(index) for index in range(3)]

    def wrap(self, index: int) -> Any:
        cache = cache_module()

        def function(*args: Any, **kwargs: Any) -> Any:
            """Some documentation."""
            self.computed.append((index, describe(args), describe(tuple(kwargs.items()))))
            return self.expected(index, args, kwargs)

        place = self.place(index)
        if self.key == "first":
            place["key_func"] = lambda *args, **kwargs: (describe_key(args[:1]),)
        elif self.key == "all":
            place["key_func"] = lambda *args, **kwargs: (
                describe_key(args),
                describe_key(tuple(kwargs.items())),
            )
        wrapped = cache.use_disk_cache(place.pop("cache_name"), **place)(function)
        assert wrapped is not None
        return wrapped

    def relevant(self, args: tuple, kwargs: dict) -> tuple:
        return args[:1] if self.key == "first" else args

    def expected(self, index: int, args: tuple, kwargs: dict) -> Any:
        return plain(index, self.relevant(args, kwargs), kwargs if self.key != "first" else {})

    def clear(self, function: int) -> None:
        place = self.place(function)
        name = place.pop("cache_name")
        cache_module().get_disk_cache(name, **place).clear()


def describe_key(args: tuple) -> str:
    return json.dumps(describe(args))


def replay_history(case: dict, c: Context, world: World, tally: bool = True) -> None:
    import qldpc.cache  # noqa: F401

    known: set = set()
    last: Any = None
    seen: set = set()
    repeated = False
    for op in case["ops"]:
        if op["op"] == "call":
            data = case["pool"][op["call"]]
            args = tuple(map(decode, data["args"]))
            kwargs = {name: decode(value) for name, value in data["kwargs"]}
            index = op["function"]
            before = len(world.computed)
            expected = outcome(lambda: world.expected(index, args, kwargs))
            if "events" in op:
                Interleaved.schedule = list(op["events"])
                Interleaved.other = lambda: world.expected(index, args, kwargs)
            got = outcome(lambda: world.functions[index](*args, **kwargs))
            Interleaved.schedule = []
            c.equal(got[0], expected[0], "outcome of a call")
            c.require(same(got[1], expected[1]), "result of a cached function", got[1], expected[1], args, kwargs)
            token = (index, json.dumps(data))
            if tally and token in known and not op.get("events"):
                c.equal(len(world.computed), before, "a cached result was computed again")
            if got[0] == "value":
                known.add(token)
            repeated = repeated or token in seen
            seen.add(token)
            last = got[1]
        elif op["op"] == "spoil":
            spoil(last)
        elif op["op"] == "clear":
            world.clear(op["function"])
            known = {token for token in known if token[0] != op["function"]}
        elif op["op"] == "decorate":
            world.decorate()
    if repeated and len(seen) > 1:
        c.nontrivial()
    c.label(f"key {case['key'] or 'default'}")


def same(got: Any, expected: Any) -> bool:
    """Equality that also compares types."""
    if type(got) is not type(expected):
        return False
    if isinstance(got, dict):
        return got.keys() == expected.keys() and all(same(got[k], expected[k]) for k in got)
    if isinstance(got, (list, tuple)):
        return len(got) == len(expected) and all(map(same, got, expected))
    return got == expected


@PROP.test(histories, quick=800)
def call_histories(case: dict, c: Context) -> None:
    folder = tempfile.mkdtemp(dir=core.SCRATCH)
    try:
        with fakegap.fresh_cache(folder) as default:
            world = World(folder, case["default_dir"], case["key"], case.get("names"))
            replay_history(case, c, world)
            if case["default_dir"] and any(op["op"] == "call" and op["function"] < 2 for op in case["ops"]):
                c.require(os.path.isdir(os.path.join(default, "qldpc")), "default cache folder")
    finally:
        shutil.rmtree(folder, ignore_errors=True)


####################################################################################################
# interleavings with other processes


class Interleaved:
    """Wraps cache objects: before a primitive operation, other processes may act on the cache."""

    schedule: list[str] = []
    other: Any = None

    def __init__(self, cache: Any) -> None:
        self._cache = cache
        self._key: Any = None

    def _step(self, key: Any = None) -> None:
        if key is not None:
            self._key = key
        event = Interleaved.schedule.pop(0) if Interleaved.schedule else ""
        if event == "clear":
            self._cache.clear()
        elif event == "evict" and self._key is not None:
            self._cache.pop(self._key, None)
        elif event == "store" and self._key is not None:
            try:
                self._cache[self._key] = Interleaved.other()
            except ArithmeticError:
                pass

    def __contains__(self, key: Any) -> bool:
        self._step(key)
        return key in self._cache

    def __getitem__(self, key: Any) -> Any:
        self._step(key)
        return self._cache[key]

    def __setitem__(self, key: Any, value: Any) -> None:
        self._step(key)
        self._cache[key] = value

    def __delitem__(self, key: Any) -> None:
        self._step(key)
        del self._cache[key]

    def __enter__(self) -> Any:
        return self

    def __exit__(self, *args: Any) -> None:
        self._cache.close()

    def __getattr__(self, name: str) -> Any:
        method = getattr(self._cache, name)
        if name not in ("get", "set", "add", "pop", "touch"):
            return method

        def step(key: Any, *args: Any, **kwargs: Any) -> Any:
            self._step(key)
            return method(key, *args, **kwargs)

        return step


@PROP.test(lambda: histories(events=True), quick=500)
def interleaved_histories(case: dict, c: Context) -> None:
    """Another process clears, evicts or stores entries between the steps of a call."""
    import diskcache

    original = diskcache.Cache
    folder = tempfile.mkdtemp(dir=core.SCRATCH)
    diskcache.Cache = lambda *args, **kwargs: Interleaved(original(*args, **kwargs))
    try:
        with fakegap.fresh_cache(folder):
            world = World(folder, case["default_dir"], case["key"], case.get("names"))
            replay_history(case, c, world, tally=False)
    finally:
        diskcache.Cache = original
        Interleaved.schedule = []
        shutil.rmtree(folder, ignore_errors=True)


####################################################################################################
# restarts of the process


class Collected(Context):
    pass


def child() -> None:
    """Replays a part of a history in a new process; prints the results."""
    part = json.loads(sys.stdin.read())
    world = World(part["folder"], False, part["key"], part.get("names"))
    results = []
    for op in part["ops"]:
        if op["op"] == "clear":
            world.clear(op["function"])
        elif op["op"] == "call":
            data = part["pool"][op["call"]]
            args = tuple(map(decode, data["args"]))
            kwargs = {name: decode(value) for name, value in data["kwargs"]}
            index = op["function"]
            got = outcome(lambda: world.functions[index](*args, **kwargs))
            expected = outcome(lambda: world.expected(index, args, kwargs))
            results.append([same(got, expected), repr((got, expected, args, kwargs))])
            spoil(got[1])
    print("RESULTS " + json.dumps(dict(results=results, computed=len(world.computed))))


@PROP.test(lambda: histories(restarts=True), quick=12, thorough=120, shards=4)
def restarted_histories(case: dict, c: Context) -> None:
    """Results written by one process are read by the next one."""
    parts: list[list[dict]] = [[]]
    for op in case["ops"]:
        if op["op"] == "restart":
            if parts[-1]:
                parts.append([])
        else:
            parts[-1].append(op)
    folder = tempfile.mkdtemp(dir=core.SCRATCH)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    known: set = set()
    try:
        for number, ops in enumerate(parts[:4]):
            data = dict(folder=folder, key=case["key"], names=case.get("names"), pool=case["pool"], ops=ops)
            script = (
                f"import sys; sys.path[:0] = [{core.REPO!r}, {here!r}]\n"
                "import vlib.core\nimport props.c24\nprops.c24.child()"
            )
            env = {**os.environ, "PYTHONHASHSEED": str(number)}
            done = subprocess.run(
                [sys.executable, "-c", script],
                input=json.dumps(data),
                capture_output=True,
                text=True,
                env=env,
            )
            line = [x for x in done.stdout.splitlines() if x.startswith("RESULTS ")]
            c.require(line, "the restarted process failed", done.stderr[-800:])
            answer = json.loads(line[0][len("RESULTS ") :])
            for fine, text in answer["results"]:
                c.require(fine, "result of a cached function after a restart", text)
            # calls that were answered earlier need no computation
            fresh = set()
            budget = 0
            for op in ops:
                if op["op"] == "clear":
                    known = {t for t in known if t[0] != op["function"]}
                elif op["op"] == "call":
                    token = (op["function"], op["call"])
                    text = json.dumps(case["pool"][op["call"]])
                    budget += token not in known
                    if "boom" not in text:
                        known.add(token)
                    fresh.add(token)
            c.require(answer["computed"] <= budget, "cached results were computed again", answer)
        if len(parts) > 1:
            c.nontrivial()
    finally:
        shutil.rmtree(folder, ignore_errors=True)


####################################################################################################
# cached queries of the library


def number_of(text: str) -> int:
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:4], "big")


def true_generators(name: str) -> list:
    """Generators that the stand-in reports for a group: one or two random cycles."""
    seed = number_of(name)
    points = sorted(range(5), key=lambda x: number_of(f"{seed}{x}"))
    cycles = [tuple(points[: 2 + seed % 3])]
    if seed % 3 == 0:
        cycles.append(tuple(points[3:]))
    return [cycles, [tuple(points[1:3])]]


def true_code(name: str) -> tuple:
    seed = number_of("code" + name)
    return [[(seed >> (3 * r + k)) & 1 for k in range(3)] for r in range(2)], 2


def true_idempotents(name: str, field: int) -> tuple:
    seed = number_of(f"{name}/{field}")
    return (((1, ((),)), (1, (tuple(range(2 + seed % 5)),))),)


def answer(text: str) -> str:
    """What GAP prints."""
    if match := re.search(r"NumberSmallGroups\((\d+)\)", text):
        return str(1 + number_of(f"number{match.group(1)}") % 50)
    if match := re.search(r"StructureDescription\((\w+\(\d+,\d+\))\)", text):
        return f"structure {number_of(match.group(1))}\n"
    if match := re.search(r"code := ([^;]*);", text):
        rows, field = true_code(match.group(1))
        return f"GF({field})\n" + "".join(f"[ {', '.join(map(str, row))} ]\n" for row in rows)
    if match := re.search(r"GroupRing\(GF\((\d+)\), *group\)", text):
        group = re.search(r"group := ([^;]*);", text).group(1)
        ((_, ((_, _), (_, (cycle,)))),) = [(None, x) for x in true_idempotents(group, int(match.group(1)))]
        one = f"(Z({match.group(1)})^0)"
        return f"[ {one}*()+{one}*({','.join(str(x + 1) for x in cycle)}) ]"
    if match := re.search(r"group := ([^;]*);", text):
        gens = true_generators(match.group(1))
        return "\n".join(
            "".join("(" + ",".join(str(x + 1) for x in cycle) + ")" for cycle in gen) for gen in gens
        )
    raise AssertionError(text)


NAMES = ["SmallGroup(8,3)", "SmallGroup(8,4)", "SmallGroup(83,1)", "X", "1", "8"]


@st.composite
def queries(draw: Any) -> dict:
    ops = []
    for _ in range(draw(st.integers(3, 14))):
        kind = draw(
            st.sampled_from(
                ["generators", "generators", "code", "number", "structure", "idempotents"] * 2
                + ["gap", "clear"]
            )
        )
        op: dict = {"op": kind}
        if kind in ("generators", "code"):
            op["name"] = draw(st.sampled_from(NAMES))
        elif kind == "number":
            op["order"] = draw(st.integers(1, 3))
        elif kind == "structure":
            op["order"], op["index"] = draw(st.integers(1, 3)), draw(st.integers(1, 3))
        elif kind == "idempotents":
            op["name"] = draw(st.sampled_from(NAMES[:3]))
            op["field"] = draw(st.sampled_from([2, 3, 4]))
        ops.append(op)
    return dict(ops=ops, installed=draw(st.booleans()))


CACHES = {
    "generators": "group_generators",
    "code": "codes",
    "number": "small_group_number",
    "idempotents": "idempotents",
    "structure": "qldpc_group_structure",
}


@PROP.test(queries, quick=200)
def library_queries(case: dict, c: Context) -> None:
    """Queries of groups and codes agree with GAP whenever they give an answer."""
    cache_module()
    from qldpc.external import codes, groups

    with fakegap.fresh_cache(core.SCRATCH) as folder:
        with fakegap.active(fakegap.Fake(answer, installed=case["installed"])) as fake:
            known: set = set()
            for op in case["ops"]:
                kind = op["op"]
                token = json.dumps(op)
                if kind == "gap":
                    fake.installed = not fake.installed
                    fakegap.forget()
                    continue
                if kind == "clear":
                    shutil.rmtree(os.path.join(folder, "qldpc"), ignore_errors=True)
                    known = set()
                    continue
                if kind == "generators":
                    call = lambda: groups.get_generators(op["name"])  # noqa: E731
                    truth: Any = true_generators(op["name"])
                elif kind == "code":
                    call = lambda: codes.get_code(op["name"])  # noqa: E731
                    truth = true_code(op["name"])
                elif kind == "number":
                    call = lambda: groups.get_small_group_number(op["order"])  # noqa: E731
                    truth = 1 + number_of(f"number{op['order']}") % 50
                elif kind == "structure":
                    call = lambda: groups.get_small_group_structure(op["order"], op["index"])  # noqa: E731
                    name = f"SmallGroup({op['order']},{op['index']})"
                    truth = f"structure {number_of(name)}"
                    if not fake.installed and token not in known:
                        c.equal(call(), name, "structure of a group without GAP")
                        continue
                else:
                    call = lambda: groups.get_primitive_central_idempotents(op["name"], op["field"])  # noqa: E731
                    truth = true_idempotents(op["name"], op["field"])
                if not fake.installed and token not in known:
                    c.raises(ValueError, call, f"{kind} without GAP")
                    continue
                got = call()
                c.equal(normal(got), normal(truth), f"{kind} after {token}")
                spoil(got)
                if token in known:
                    c.nontrivial()
                known.add(token)
                c.label(kind)


def normal(value: Any) -> Any:
    """Lists and tuples are interchangeable in results."""
    if isinstance(value, (list, tuple)):
        return [normal(x) for x in value]
    return value
