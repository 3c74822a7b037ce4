"""C24: points written for Mathematica parse back to the point: every sign, magnitude and vanishing part of every component; all sequences of saved points."""
import itertools
import os
import re
import shutil
import tempfile
from .common import Check, chunks
import mpmath
from lips import Particles, Particle
from . import ref
from .ref import arr, snapshot

FIELD = ref.make_field("mpc")
PARTS = ["0", "1", "-1", "1/3", "-2/7", "1e-20/3", "-1e25/7", "12345678901234567890", "-1e-5", "1e16"]
LEGS = [("3/7+2i", "-5/3", "1-1/3i", "2/9+7/11i"), ("-2+1/7i", "5/13i", "-3/4", "1/9-1i"), ("11/3", "1/3-1/5i", "2-2/3i", "-7/9"), ("1/17-3i", "2+5/7i", "-1/3+1/7i", "4/9")]


def part(s):
    a, _, b = s.partition("/")
    return mpmath.mpf(a) / (mpmath.mpf(b) if b else 1)


def number(s):
    m = re.fullmatch(r"([+-]?[\d/]+(?!i))?(?:([+-]?[\d/]+)i)?", s)
    return mpmath.mpc(part(m.group(1)) if m.group(1) else 0, part(m.group(2)) if m.group(2) else 0)


# ---- a small reader of Mathematica expressions: heads, lists, numbers with *^ exponents, I, + - *, parentheses

TOKEN = re.compile(r"\s*(?:(\d+\.?\d*|\.\d+)(?:\*\^([+-]?\d+))?|([A-Za-z]\w*)|(.))")


def tokens(text):
    out, pos = [], 0
    text = text.strip()
    while pos < len(text):
        m = TOKEN.match(text, pos)
        pos = m.end()
        if m.group(1):
            out.append(("num", m.group(1) + ("e" + m.group(2) if m.group(2) else "")))
        elif m.group(3):
            out.append(("sym", m.group(3)))
        else:
            out.append(("op", m.group(4)))
    return out + [("end", "")]


class Reader:
    def __init__(self, text):
        self.t, self.i = tokens(text), 0

    def peek(self, v=None):
        return self.t[self.i][1] == v and self.t[self.i][0] == "op" if v is not None else self.t[self.i]

    def take(self, v=None):
        if v is not None and not self.peek(v):
            raise ValueError("expected %s, found %s" % (v, self.t[self.i]))
        self.i += 1
        return self.t[self.i - 1]

    def args(self, close):
        out = []
        while not self.peek(close):
            out.append(self.expr())
            if not self.peek(close):
                self.take(",")
        self.take(close)
        return out

    def expr(self):
        x = self.term()
        while self.peek("+") or self.peek("-"):
            s = self.take()[1]
            y = self.term()
            x = x + y if s == "+" else x - y
        return x

    def term(self):
        x = self.factor()
        while self.peek("*") or self.peek()[0] in ("num", "sym") or self.peek("("):
            if self.peek("*"):
                self.take()
            x = x * self.factor()
        return x

    def factor(self):
        kind, v = self.peek()
        if kind == "op" and v in "+-":
            self.take()
            y = self.factor()
            return -y if v == "-" else y
        self.take()
        if kind == "num":
            return mpmath.mpf(v)
        if kind == "sym":
            if v == "I":
                return mpmath.mpc(0, 1)
            if self.peek("["):
                self.take()
                return (v,) + tuple(self.args("]"))
            raise ValueError("unknown symbol " + v)
        if v == "(":
            y = self.expr()
            self.take(")")
            return y
        if v == "{":
            return self.args("}")
        raise ValueError("unexpected %s" % v)

    def all(self):
        x = self.expr()
        if self.peek()[0] != "end":
            raise ValueError("trailing %s" % (self.t[self.i][1]))
        return x


def unwrap(x):
    """SetPrecision[x, p] and nested one-entry lists -> flat list of numbers"""
    if isinstance(x, list):
        return [z for y in x for z in unwrap(y)]
    if isinstance(x, tuple):
        if x[0] != "SetPrecision" or len(x) != 3:
            raise ValueError("unexpected head " + x[0])
        if x[2] < 15:
            raise ValueError("precision %s" % x[2])
        return [x[1]]
    return [x]


def close(x, y, eps):
    x, y = mpmath.mpc(x), mpmath.mpc(y)
    return abs(x.real - y.real) <= eps * abs(y.real) and abs(x.imag - y.imag) <= eps * abs(y.imag)


def declared(text):
    """[(label, groups...)] of the DeclareSpinorMomentum lines"""
    return [Reader(l).all() for l in text.split("\n") if l.strip()]


def check_momenta(ps, lab, res, eps):
    try:
        text = ps.four_momenta_for_mathematica()
        decl = declared(text)
    except Exception as e:
        res.fail(lab + " four-momenta", "%s: %s" % (type(e).__name__, str(e)[:200]))
        return
    if [d[0] for d in decl] != ["DeclareSpinorMomentum"] * len(ps) or [d[1] for d in decl] != list(range(1, len(ps) + 1)):
        res.fail(lab + " four-momenta", "declares %s" % [d[:2] for d in decl])
        return
    for p, d in zip(ps, decl):
        try:
            got = unwrap(d[2])
        except ValueError as e:
            res.fail(lab + " four-momenta", str(e))
            continue
        want = list(p.four_mom)
        if len(d) != 3 or len(got) != 4 or not all(close(x, y, eps) for x, y in zip(got, want)):
            res.fail(lab + " four-momenta", "leg %s written %s, is %s" % (d[1], [mpmath.nstr(x, 20) for x in got], [mpmath.nstr(x, 20) for x in want]))


def check_spinors(ps, lab, res):
    try:
        decl = declared(ps.four_momenta_for_mathematica(as_spinors=True))
    except Exception as e:
        res.fail(lab + " spinors", "%s: %s" % (type(e).__name__, str(e)[:200]))
        return
    if [d[0] for d in decl] != ["DeclareSpinorMomentum"] * len(ps) or [d[1] for d in decl] != [("Sp", k) for k in range(1, len(ps) + 1)]:
        res.fail(lab + " spinors", "declares %s" % [d[:2] for d in decl])
        return
    for p, d in zip(ps, decl):
        try:
            got = unwrap(d[2]), unwrap(d[3])
        except ValueError as e:
            res.fail(lab + " spinors", str(e))
            continue
        want = [p.r_sp_d[0, 0], p.r_sp_d[1, 0]], [p.l_sp_d[0, 0], p.l_sp_d[0, 1]]
        if len(d) != 4 or [len(g) for g in got] != [2, 2] or not all(close(x, y, mpmath.mpf("1e-14")) for x, y in zip(got[0] + got[1], want[0] + want[1])):
            res.fail(lab + " spinors", "leg %s written %s, is %s" % (d[1], [mpmath.nstr(x, 20) for x in got[0] + got[1]], [mpmath.nstr(x, 20) for x in want[0] + want[1]]))


def read_saved(path):
    """{(tilde?, leg, component): value}"""
    out = {}
    for line in open(path).read().split("\n"):
        if not line.strip():
            continue
        left, _, right = line.partition(" = ")
        m = re.search(r",\s*(\d+)\s*,\s*(\d+)\s*\]\s*$", left)
        if not m or not right.rstrip().endswith(";"):
            raise ValueError("line %s" % line[:80])
        k = ("Overscript" in left, int(m.group(1)), int(m.group(2)))
        if k in out:
            raise ValueError("%s twice" % (k,))
        out[k] = Reader(right.rstrip()[:-1]).all()
    return out


def check_saved(path, want, lab, res, eps):
    try:
        got = read_saved(path)
    except Exception as e:
        res.fail(lab, "%s: %s" % (type(e).__name__, str(e)[:200]))
        return
    if set(got) != set(want):
        res.fail(lab, "wrong components %s" % sorted(set(got) ^ set(want))[:6])
        return
    bad = [k for k in want if not close(got[k], want[k], eps)]
    if bad:
        res.fail(lab, "%s written %s, is %s" % (bad[0], mpmath.nstr(got[bad[0]], 20), mpmath.nstr(want[bad[0]], 20)))


def components(ps):
    return {(h, i, c + 1): (p.l_sp_d[0, c] if h else p.r_sp_d[c, 0]) for i, p in enumerate(ps, 1) for h in (False, True) for c in (0, 1)}


def build(legs):
    return Particles([ref.lips_particle(l, FIELD) for l in legs], field=FIELD, fix_mom_cons=False)


def generic(n):
    return [[number(x) * (1 + k // 4) for x in LEGS[k % 4]] for k in range(n)]


NAMES = ["", "⟨1|2⟩", "[1|2]", "⟨1|(2+3)|1]"]


def worker(shard, res):
    kind, dps = shard[0], shard[1]
    scratch = tempfile.mkdtemp(prefix="c24.")
    back = os.getcwd()
    os.chdir(scratch)
    mpmath.mp.dps = dps
    eps = mpmath.mpf(10) ** (5 - dps)
    try:
        if kind == "components":
            _, _, n, cases = shard
            for leg, sub in cases:
                legs = generic(n)
                for pos, (re_, im) in sub:
                    legs[leg][pos] = mpmath.mpc(part(re_), part(im))
                ps = build(legs)
                lab = "n=%d precision %d leg %d components %s" % (n, dps, leg + 1, sub)
                res.current = lab
                before = snapshot(ps)
                check_momenta(ps, lab, res, eps)
                check_spinors(ps, lab, res)
                ps.save_phase_space_point()
                check_saved("phase_space_cache/NoLimit1.m", components(ps), lab + " saved", res, eps)
                os.remove("phase_space_cache/NoLimit1.m")
                if snapshot(ps) != before:
                    res.fail(lab, "the point changed")
                res.case((n, dps, leg, str(sub)), "components", sample=lab)
                res.transitions += 3
        elif kind == "massive":
            for mom in shard[2]:
                v = [mpmath.mpc(part(a), part(b)) for a, b in mom]
                ps = Particles([Particle(arr(v), field=FIELD)], field=FIELD, fix_mom_cons=False)
                lab = "precision %d four-momentum %s" % (dps, mom)
                res.current = lab
                check_momenta(ps, lab, res, eps)
                res.case((dps, str(mom)), "four-momentum", sample=lab)
                res.transitions += 1
        elif kind == "histories":
            for hist in shard[2]:
                for d in os.listdir("."):
                    shutil.rmtree(d)
                files = {}
                first = {}
                for step, (name, k) in enumerate(hist):
                    ps = build(generic(4)[k:] + generic(4)[:k])
                    lab = "saves %s, step %d" % (hist, step + 1)
                    res.current = lab
                    ps.save_phase_space_point(name) if name else ps.save_phase_space_point()
                    now = {f: open("phase_space_cache/" + f).read() for f in os.listdir("phase_space_cache")}
                    if os.listdir(".") != ["phase_space_cache"]:
                        res.fail(lab, "files %s" % os.listdir("."))
                    changed = sorted(f for f in set(now) | set(files) if now.get(f) != files.get(f))
                    fresh = [f for f in changed if f not in files]
                    if len(changed) > 1 or [f for f in files if f not in now]:
                        res.fail(lab, "changes %s" % changed)
                    for f in changed:
                        check_saved("phase_space_cache/" + f, components(ps), lab, res, eps)
                        if f in first.values():
                            res.fail(lab, "overwrites the first point saved for %s" % f)
                    if name not in first:
                        if not fresh:
                            res.fail(lab, "no file for %s" % name)
                        else:
                            first[name] = fresh[0]
                    if not changed and not any(files[f] == now[f] for f in files):
                        res.fail(lab, "nothing saved")
                    files = now
                    res.transitions += 1
                res.case(str(hist), "saves", sample="saves %s" % (hist,))
    finally:
        os.chdir(back)
        shutil.rmtree(scratch)
        mpmath.mp.dps = 300


def main():
    ck = Check("C24")
    T = ck.thorough
    ck.rule = "every pair of real and imaginary parts from %d sizes and signs in every spinor component and every four-momentum component, pairs of components, 1 to 11 particles, three working precisions; all sequences of saves" % len(PARTS)
    pairs = list(itertools.product(PARTS, repeat=2))
    few = [("0", "0"), ("1", "0"), ("0", "-1"), ("-2/7", "1e-20/3"), ("1e-20/3", "-1e25/7"), ("-1e25/7", "0")]
    shards = []
    for n, dps in ((1, 300), (2, 300), (3, 300), (11, 300), (2, 50), (2, 15)):
        legs = range(n) if n < 4 else (0, 8, 9, 10)
        cases = [(leg, ((pos, v),)) for leg in legs for pos in range(4) for v in (pairs if n < 11 else few)]
        if n in (1, 2):
            cases += [(leg, ((a, v), (b, w))) for leg in range(n) for a, b in itertools.combinations(range(4), 2) for v, w in itertools.product(few if not T else pairs[::3], repeat=2)]
        for ch in chunks(cases, 8):
            shards.append(("components", dps, n, ch))
    one = [("1", "-1"), ("2/7", "0"), ("0", "3"), ("-5", "1/3")]
    for dps in (300, 50):
        moms = [tuple(v if k == pos else one[k] for k in range(4)) for pos in range(4) for v in pairs]
        moms += [q for q in itertools.product(few, repeat=4)] if T else [q for q in itertools.product(few[:4], repeat=4)]
        for ch in chunks(moms, 8):
            shards.append(("massive", dps, ch))
    hist = [h for k in (1, 2, 3) + ((4,) if T else ()) for h in itertools.product(itertools.product(NAMES, (0, 1)), repeat=k)]
    for ch in chunks(hist, 8):
        shards.append(("histories", 300, ch))
    ck.run(worker, shards)
    ck.assumptions += ["complex points only (the notation has no p-adic or finite-field numbers)", "spinor declarations are compared to double precision, which is how they are written"]
    ck.finish()


if __name__ == "__main__":
    main()
