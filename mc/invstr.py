"""Reference evaluation of the catalogue's invariant strings (independent of lips): text -> value on a ref.Ref."""
import re
from .ref import Ref  # noqa
from .c07 import corners, gram, half

CHAIN = re.compile(r"([⟨\[])(\d)\|(?:(.*)\|)?(\d)([⟩\]])$")


def terms(t):
    t = t.strip("()")
    return [int(x) for x in re.findall(r"[+-]?\d", t)]


def value(R, text):
    if text[0] == "(" and "]-⟨" in text:
        x, y = text[1:-1].split("]-⟨")
        return value(R, x + "]") - value(R, "⟨" + y)
    m = CHAIN.match(text)
    if m:
        o, i, mid, j, c = m.groups()
        start, end = ("a" if o == "⟨" else "s", int(i)), ("a" if c == "⟩" else "s", int(j))
        if not mid:
            return R.ang(int(i), int(j)) if o == "⟨" else R.sqr(int(i), int(j))
        return R.chain(start, [terms(t) for t in mid.split("|")], end)
    kind, idx = text.split("_")
    if kind == "s":
        return R.s([int(c) for c in idx])
    if kind == "tr5":
        a, b, c, d = (int(x) for x in idx)
        up, dn = R.tr5([a], [b], [c], [d])
        return up - dn
    if kind == "Δ":
        cs = [[int(c) for c in g] for g in idx.split("|")] if "|" in idx else corners(R.n, tuple(int(c) for c in idx))
        return gram(R, cs)
    if kind in "ΩΠ":
        c0, c1, c2 = corners(R.n, tuple(int(c) for c in idx))
        s = lambda g: R.s(g)
        if kind == "Π":
            return s(c2 + [c0[0]]) - s(c2 + [c0[1]])
        return 2 * s(c2) * s(c1) - (s(c2) + s(c1) - s(c0)) * s(c2 + [c0[0]])
    raise KeyError(text)
