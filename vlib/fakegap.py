"""A stand-in for the GAP process and for web pages, at the boundary of the operating system."""

from __future__ import annotations

import ast
import contextlib
import io
import itertools
import os
import re
import subprocess
import urllib.error
import urllib.request
from collections.abc import Callable, Iterator
from typing import Any


class Fake:
    """State of the outside world; may be changed while the stand-in is active."""

    def __init__(
        self,
        answer: Callable[[str], str] | None = None,
        *,
        installed: bool = True,
        version: str = "4.12.2\n",
        packages: bool = True,
        pages: Callable[[str], str] | None = None,
        reply: str = "n",
    ) -> None:
        self.answer = answer or (lambda text: "")
        self.installed = installed
        self.version = version
        self.packages = packages
        self.pages = pages
        self.reply = reply
        self.stderr: Callable[[str], str] = lambda text: ""
        self.commands: list[str] = []  # everything sent to GAP
        self.urls: list[str] = []
        self.other: list[list[str]] = []  # other processes that were started
        self.prompts: list[str] = []
        self.other_stderr = ""

    def run(self, command: Any, *args: Any, **kwargs: Any) -> Any:
        if os.path.basename(str(command[0])) != "gap":
            self.other.append(list(command))
            return subprocess.CompletedProcess(command, 0, "", self.other_stderr)
        if not self.installed:
            raise FileNotFoundError(2, "No such file or directory: 'gap'")
        text = " ".join(str(part) for part in command[1:])
        if "GAPInfo.Version" in text:
            out, err = self.version, ""
        elif "TestPackageAvailability" in text:
            out, err = ("true" if self.packages else "fail"), ""
        else:
            self.commands.append(text)
            err = self.stderr(text)
            out = printed(text, self.answer(text))
        if not kwargs.get("text") and not kwargs.get("universal_newlines"):
            return subprocess.CompletedProcess(command, 0, out.encode(), err.encode())
        return subprocess.CompletedProcess(command, 0, out, err)

    def urlopen(self, url: Any, *args: Any, **kwargs: Any) -> Any:
        url = getattr(url, "full_url", url)
        self.urls.append(url)
        if self.pages is None:
            raise urllib.error.URLError("no network")
        page = self.pages(url)
        if page is None:
            raise urllib.error.HTTPError(url, 404, "not found", None, None)  # type: ignore
        return io.BytesIO(page.encode())

    def input(self, prompt: str = "") -> str:
        self.prompts.append(prompt)
        return self.reply


def printed(text: str, out: str) -> str:
    """GAP breaks long lines, unless it is told to print to a stream without formatting."""
    match = re.search(r"SetPrintFormattingStatus\(([^,]+),\s*false\s*\)", text)
    if match and ("*stdout*" in match.group(1) or not re.search(r"(?<!\w)Print\(", text)):
        return out
    lines = []
    for line in out.split("\n"):
        while len(line) > 79:
            lines.append(line[:78] + "\\")
            line = line[78:]
        lines.append(line)
    return "\n".join(lines)


def print_permutation(perm: Any) -> str:
    """A permutation (images of 0, 1, ...) as GAP prints it."""
    seen: set[int] = set()
    out = ""
    for start in range(len(perm)):
        cycle = []
        while start not in seen:
            seen.add(start)
            cycle.append(start)
            start = perm[start]
        if len(cycle) > 1:
            out += "(" + ",".join(str(x + 1) for x in cycle) + ")"
    return out or "()"


def automorphisms(rows: list[list[int]], q: int) -> list[tuple[int, ...]]:
    """All permutations of columns that preserve the row space."""
    from . import ff

    F = ff.get(q)
    matrix = F.arr(rows)
    reduced = F.rref(matrix)
    n = matrix.shape[1]
    # columns can only be exchanged if they agree about being zero
    out = []
    for perm in itertools.permutations(range(n)):
        image = reduced[:, list(perm)]
        if (F.rref(image) == reduced).all():
            out.append(tuple(perm))
    return out


def binary_automorphism_generators(rows: list[list[int]]) -> list[tuple[int, ...]]:
    """Generators of the group of all permutations of columns that preserve a binary row space.

    Such a permutation is a linear map of columns of a reduced matrix that preserves the number of
    times that each column occurs.  Searches for a strong generating set, one basis column at a time.
    """
    from . import ff

    F = ff.get(2)
    reduced = F.rref(F.arr(rows))
    r, n = reduced.shape
    columns = [sum(int(bit) << i for i, bit in enumerate(reduced[:, j])) for j in range(n)]
    classes: dict[int, list[int]] = {}
    for j, column in enumerate(columns):
        classes.setdefault(column, []).append(j)
    # basis columns are unit vectors; a class is decided once its highest basis column is
    decided = [[u for u in classes if u.bit_length() == i + 1] for i in range(r)]

    def image(u: int, images: list[int]) -> int:
        out = 0
        for i, v in enumerate(images):
            if u >> i & 1:
                out ^= v
        return out

    def extend(images: list[int]) -> list[int] | None:
        level = len(images)
        used = {image(u, images) for us in decided[:level] for u in us}
        if level == r:
            return images
        for v in classes:
            if v and v not in used and (found := attempt([*images, v])):
                return found
        return None

    def attempt(images: list[int]) -> list[int] | None:
        level = len(images) - 1
        used = {image(u, images) for us in decided[:level] for u in us}
        for u in decided[level]:
            w = image(u, images)
            if w in used or len(classes.get(w, [])) != len(classes[u]) or not w:
                return None
            used.add(w)
        return extend(images)

    maps: list[list[int]] = []
    for level in reversed(range(r)):
        fixed = [1 << i for i in range(level)]
        orbit = {1 << level}
        usable = [m for m in maps if m[:level] == fixed]
        for v in classes:
            if v and v not in orbit and (found := attempt([*fixed, v])):
                maps.append(found)
                usable.append(found)
                todo = list(orbit)
                orbit = set(todo)
                while todo:
                    u = todo.pop()
                    for m in usable:
                        if (w := image(u, m)) not in orbit:
                            orbit.add(w)
                            todo.append(w)
    out = []
    for m in maps:
        perm = [0] * n
        for u, places in classes.items():
            for a, b in zip(places, classes[image(u, m)]):
                perm[a] = b
        out.append(tuple(perm))
    for places in classes.values():
        for a, b in zip(places, places[1:]):
            perm = list(range(n))
            perm[a], perm[b] = b, a
            out.append(tuple(perm))
    return out


def automorphism_answer(text: str) -> str:
    """What GAP prints for the generators of the automorphism group of a code."""
    match = re.search(r"AutomorphismGroup\(\s*CheckMatCode\((.*),\s*GF\((\d+)\)\s*\)\s*\)", text)
    assert match, text
    rows, q = ast.literal_eval(match.group(1)), int(match.group(2))
    if q == 2:
        group = binary_automorphism_generators(rows)
    else:
        group = small_generators(automorphisms(rows, q))
    return "".join(print_permutation(perm) + "\n" for perm in group)


def small_generators(perms: list[tuple[int, ...]]) -> list[tuple[int, ...]]:
    """A few permutations that generate the same group."""
    from . import group

    chosen: list[tuple[int, ...]] = []
    generated = {tuple(range(len(perms[0])))}
    # start from complicated permutations, such that few are needed
    for perm in sorted(perms, key=lambda p: (-sum(i != j for i, j in enumerate(p)), p)):
        if perm not in generated:
            chosen.append(perm)
            generated = set(group.closure(chosen))
            generated.add(tuple(range(len(perm))))
    return chosen


def forget() -> None:
    """Forget what the library remembers about the outside world."""
    import qldpc.external.gap as gap

    for func in vars(gap).values():
        if hasattr(func, "cache_clear"):
            func.cache_clear()


@contextlib.contextmanager
def active(fake: Fake) -> Iterator[Fake]:
    import builtins

    saved = subprocess.run, urllib.request.urlopen, builtins.input
    check_output = subprocess.check_output
    subprocess.run = fake.run  # type: ignore
    subprocess.check_output = lambda *a, **k: fake.run(*a, **k).stdout  # type: ignore
    urllib.request.urlopen = fake.urlopen  # type: ignore
    builtins.input = fake.input  # type: ignore
    forget()
    try:
        yield fake
    finally:
        subprocess.run, urllib.request.urlopen, builtins.input = saved  # type: ignore
        subprocess.check_output = check_output
        forget()


@contextlib.contextmanager
def fresh_cache(path: str) -> Iterator[str]:
    """Point the default cache folder of the library to an empty folder, and remove it afterwards."""
    import shutil
    import tempfile

    saved = os.environ.get("XDG_CACHE_HOME")
    folder = tempfile.mkdtemp(dir=path, prefix="cache-")
    os.environ["XDG_CACHE_HOME"] = folder
    try:
        yield folder
    finally:
        if saved is None:
            del os.environ["XDG_CACHE_HOME"]
        else:
            os.environ["XDG_CACHE_HOME"] = saved
        shutil.rmtree(folder, ignore_errors=True)
