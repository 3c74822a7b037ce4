"""C08: expressions against ordinary arithmetic: every atom in every context and spelling, every operator tree up to a size."""
import itertools
import re
import warnings
from fractions import Fraction
from .common import Check, chunks
import mpmath
import numpy
from lips import Particles
from . import history, ref
from .ref import el, Ref, lips_point, conserved_spinors, snapshot, same, same_arr
from .c07 import gram, tr5, corners, half
from .ref import two_dot, det, gdet

warnings.simplefilter("ignore")
SUP = dict(zip("0123456789", "⁰¹²³⁴⁵⁶⁷⁸⁹"))


def point(fname, n):
    field = ref.make_field(fname)
    sp = conserved_spinors(lambda x: el(field, x), n, 4)
    ps = lips_point(sp, field, internal_masses={"mt": el(field, 7), "mt2": "s_12", "μ": el(field, 3)})
    return ps, Ref(sp), field


def atoms(R, field):
    """(spellings, value) of every kind of building block at six points."""
    c = R.chain
    cs = corners(6, (1, 3, 5))
    A, B, C = cs
    PA, PB = R.mom(A, False), R.mom(B, False)
    out = [
        (["⟨1|2⟩", "⟨12⟩", "<1|2>", "<12>", "⟨ 1 | 2 ⟩"], R.ang(1, 2)),
        (["[3|4]", "[34]", "[3| 4]"], R.sqr(3, 4)),
        (["⟨1|2+3|4]", "⟨1|(2+3)|4]", "<1|2+3|4]"], c(("a", 1), [[2, 3]], ("s", 4))),
        (["[1|2-3|4⟩", "[1|(2-3)|4⟩", "[1|(2-3)|4>"], c(("s", 1), [[2, -3]], ("a", 4))),
        (["⟨1|2|3]", "⟨1|(2)|3]"], c(("a", 1), [[2]], ("s", 3))),
        (["⟨1|2|3|4⟩"], c(("a", 1), [[2], [3]], ("a", 4))),
        (["⟨1|2+3|4+5|6⟩", "⟨1|(2+3)|(4+5)|6⟩"], c(("a", 1), [[2, 3], [4, 5]], ("a", 6))),
        (["[1|2+3|4|5+6|2⟩"], c(("s", 1), [[2, 3], [4], [5, 6]], ("a", 2))),
        (["s_12", "s12", "S_12", "s_{12}"], R.s([1, 2])),
        (["s_123", "s123"], R.s([1, 2, 3])),
        (["tr5_1234", "tr5(1|2|3|4)"], tr5(R, [1], [2], [3], [4])),
        (["tr5(1+2|3|4|5)"], tr5(R, [1, 2], [3], [4], [5])),
        (["tr(1|2)"], R.tr([[1], [2]])),
        (["tr(1+2|3+4)", "tr((1+2)|(3+4))"], R.tr([[1, 2], [3, 4]])),
        (["tr(1|2|3|4)"], R.tr([[1], [2], [3], [4]])),
        (["Δ_12|34|56", "Δ_{12|34|56}"], gram(R, [(1, 2), (3, 4), (5, 6)])),
        (["Δ_1|23|456"], gram(R, [(1,), (2, 3), (4, 5, 6)])),
        (["Δ_135"], half(two_dot(PA, PB)) ** 2 - det(PA) * det(PB)),
        (["Ω_135"], 2 * R.s(C) * R.s(B) - (R.s(C) + R.s(B) - R.s(A)) * R.s(C + [A[0]])),
        (["Π_351"], R.s([1, 2, 3]) - R.s([1, 2, 4])),
        (["mt"], el(field, 7)),
        (["mt2"], R.s([1, 2])),
        (["μ"], el(field, 3)),
        (["m_1"], R.s([1])),
    ]
    return out


# contexts: text with {a}, {b}; value function; b ranges over a short list
def contexts(neg):
    out = [
        ("{a}", lambda a, b: a), ("({a})", lambda a, b: a), ("(({a}))", lambda a, b: a), ("+{a}", lambda a, b: a), ("-{a}", lambda a, b: -a),
        ("−{a}", lambda a, b: -a), ("-({a})", lambda a, b: -a),
        ("{a}+{b}", lambda a, b: a + b), ("{a}-{b}", lambda a, b: a - b), ("{b}-{a}", lambda a, b: b - a), ("{b} - {a}", lambda a, b: b - a), ("{b}−{a}", lambda a, b: b - a),
        ("{a}*{b}", lambda a, b: a * b), ("{b}*{a}", lambda a, b: a * b), ("{a} * {b}", lambda a, b: a * b), ("({a})*({b})", lambda a, b: a * b),
        ("({a})({b})", lambda a, b: a * b), ("({b})({a})", lambda a, b: a * b), ("{b}({a})", lambda a, b: a * b), ("({b}){a}", lambda a, b: a * b),
        ("2{a}", lambda a, b: 2 * a), ("2*{a}", lambda a, b: 2 * a), ("-3{a}", lambda a, b: -3 * a), ("12({a})", lambda a, b: 12 * a), ("({a})3", lambda a, b: 3 * a),
        ("{a}*3", lambda a, b: 3 * a), ("{a}/2", lambda a, b: a / 2), ("{a}/2*3", lambda a, b: a / 2 * 3), ("{a}*3/2", lambda a, b: a * 3 / 2),
        ("1/2{a}", lambda a, b: a / 2), ("1/2*{a}", lambda a, b: a / 2), ("3/4({a})", lambda a, b: a * 3 / 4), ("-5/3{a}", lambda a, b: -a * 5 / 3),
        ("3/4{a}-1/7{b}", lambda a, b: a * 3 / 4 - b / 7), ("{a}+1/2", lambda a, b: a * 1 + (a - a + 1) / 2), ("1-{a}", lambda a, b: 1 - a), ("{a}-1", lambda a, b: a - 1),
        ("({a}+{b})^2", lambda a, b: (a + b) * (a + b)), ("({a}+{b})**2", lambda a, b: (a + b) * (a + b)), ("({a}+{b})²", lambda a, b: (a + b) * (a + b)),
        ("({a}-{b})({a}+{b})", lambda a, b: (a - b) * (a + b)), ("2({a}-{b})", lambda a, b: 2 * (a - b)), ("({a}-{b})/2", lambda a, b: (a - b) / 2),
        ("{a}^2", lambda a, b: a * a), ("{a}**2", lambda a, b: a * a), ("{a}²", lambda a, b: a * a), ("{a}³", lambda a, b: a * a * a), ("({a})^3", lambda a, b: a * a * a),
        ("{a}^{{2}}", lambda a, b: a * a), ("-{a}^2", lambda a, b: -(a * a)), ("2{a}^2", lambda a, b: 2 * a * a), ("{b}+{a}^2*3", lambda a, b: b + a * a * 3),
        ("{b}^2-{a}^2", lambda a, b: b * b - a * a), ("{b}²{a}", lambda a, b: b * b * a), ("{a}^2{b}", lambda a, b: a * a * b),
        ("{a}-{b}-{a}*2", lambda a, b: a - b - 2 * a), ("{a}-({b}-{a})", lambda a, b: 2 * a - b),
        ("{a}+\n{b}", lambda a, b: a + b), (r"\scriptscriptstyle{a}+{b}", lambda a, b: a + b), ("{a}^0", lambda a, b: a - a + 1), ("{a}^1", lambda a, b: a), ("{a}^10", lambda a, b: pow10(a)),
    ]
    div = [
        ("{b}/{a}", lambda a, b: b / a), ("1/{a}", lambda a, b: 1 / a), ("1/({a})", lambda a, b: 1 / a), ("{b}/({a})", lambda a, b: b / a), ("({b})/({a})", lambda a, b: b / a),
        ("{b}/{a}*{b}", lambda a, b: b / a * b), ("{b}/({a}*{b})", lambda a, b: 1 / a), ("1/{a}/{b}", lambda a, b: 1 / a / b), ("1/({a}{b})" , lambda a, b: 1 / (a * b)),
        ("{b}/{a}^2", lambda a, b: b / (a * a)), ("({b}/{a})^2", lambda a, b: (b / a) * (b / a)), ("1/2/{a}", lambda a, b: 1 / (2 * a)), ("3/(2{a})", lambda a, b: 3 / (2 * a)),
        (r"\frac{{{b}}}{{{a}}}", lambda a, b: b / a), (r"\frac{{1}}{{2}}", lambda a, b: (a - a + 1) / 2), (r"1+\frac{{{b}+1}}{{{a}}}", lambda a, b: 1 + (b + 1) / a),
        ("{b}-{b}/{a}", lambda a, b: b - b / a),
    ]
    if neg:
        div += [("{a}^-1", lambda a, b: 1 / a), ("{a}^(-2)", lambda a, b: 1 / (a * a)), ("{b}*{a}**-1", lambda a, b: b / a), ("({a}{b})^-2", lambda a, b: 1 / (a * a * b * b))]
    return out, div


def pow10(a):
    t = a * a
    t = t * t * a
    return t * t


def normal(got, field):
    """Pure numbers may come back as int or Fraction: read them as field elements. Floats are not exact."""
    if isinstance(got, (int, Fraction)) and not isinstance(got, bool) and field.name not in ("rational",):
        return el(field, got)
    return got


def agree(got, want, field):
    got = normal(got, field)
    if hasattr(got, "shape"):
        return False
    if field.name != "mpc" and isinstance(got, (float, complex, mpmath.mpf, mpmath.mpc)):
        return False
    return same(got, want)


def ask(ps, field, res, label, string, want, cls, key=None):
    res.current = label
    try:
        got = ps.compute(string)
    except Exception as e:
        res.fail(key or label, "unexpected %s: %s" % (type(e).__name__, str(e)[:200]), string=string)
        return
    if not agree(got, want, field):
        res.fail(key or label, "got %s, ordinary arithmetic gives %s" % (str(got)[:150], str(want)[:150]), string=string)
    res.case((field.name, string), cls, sample=string)
    res.transitions += 1


def usable(text, ctx, spelling):
    """Spelling/context combinations that are not ambiguous text."""
    s = spelling
    if "\\frac" in ctx and ("{" in s):
        return False
    if ("{a}3" in ctx or "{b}3" in ctx):
        return False
    return True


def worker(shard, res):
    warnings.simplefilter("ignore")
    kind = shard[0]
    if kind == "ctx":
        _, fname, idx, bs, neg = shard
        ps, R, field = point(fname, 6)
        before = snapshot(ps)
        ats = atoms(R, field)
        lin, div = contexts(neg)
        for ai in idx:
            sps, a = ats[ai]
            for sp in sps:
                for bi in bs:
                    bsp, b = ats[bi][0][0], ats[bi][1]
                    todo = list(lin)
                    if not ref.is_zero(a):
                        todo += div
                    for ctx, f in todo:
                        if "{b}" not in ctx and bi != bs[0]:
                            continue
                        if ctx == "+{a}" and fname == "Qi":
                            continue        # the number library has no unary plus there
                        if not usable(None, ctx, sp):
                            continue
                        if re.search(r"\{a\}\{b\}|\{a\}\(\{b\}|\{b\}\(", ctx) and (sp[0] in "mμ" or bsp[0] in "mμ"):
                            continue        # juxtaposed letter names and calls are ambiguous
                        s = ctx.format(a=sp, b=bsp)
                        if re.search(r"[sSmM]_?\{?\d+\}?\s*\d", s.replace(sp, "").replace(bsp, "")):
                            continue
                        ask(ps, field, res, "%s %s" % (fname, s), s, f(a, b), ctx)
        if snapshot(ps) != before:
            res.fail("%s evaluation changed the point" % fname, "contexts of %s" % (idx,))
    elif kind == "five":
        _, fname = shard
        field = ref.make_field(fname)
        sp = conserved_spinors(lambda x: el(field, x), 5, 4)
        ps, R = lips_point(sp, field), Ref(sp)
        d5 = gdet([[two_dot(R.P[i], R.P[j]) for j in range(4)] for i in range(4)])
        lin, div = contexts(fname != "Qi")
        for ctx, f in lin + div:
            if ctx == "+{a}" and fname == "Qi":
                continue
            s = ctx.format(a="δ5", b="s_12")
            ask(ps, field, res, "%s %s" % (fname, s), s, f(d5, R.s([1, 2])), ctx)
        for i, j in itertools.permutations(range(1, 6), 2):
            s = "δ5-tr5_1234^2+⟨%d%d⟩[%d%d]+s_%d%d" % (i, j, i, j, i, j)
            w = R.ang(i, j) * R.sqr(i, j) + R.s([i, j])
            ask(ps, field, res, "%s %s" % (fname, s), s, w, "identity")
    elif kind == "tree":
        _, fname, trees = shard
        ps, R, field = point(fname, 6)
        before = snapshot(ps)
        leafs = {"2": el(field, 2), "3": el(field, 3), "A": R.ang(1, 2), "B": R.s([2, 3]), "C": R.chain(("a", 1), [[2, 3]], ("s", 4))}
        names = {"2": "2", "3": "3", "A": "⟨12⟩", "B": "s_23", "C": "⟨1|2+3|4]"}
        for t in trees:
            try:
                w = value(t, leafs)
            except ZeroDivisionError:
                continue
            if w is None:
                continue
            for s in renderings(t, names):
                ask(ps, field, res, "%s %s" % (fname, s), s, w, "tree%d" % size(t))
        if snapshot(ps) != before:
            res.fail("%s evaluation changed the point" % fname, "trees")
    elif kind == "sqrt":
        _, fname = shard
        ps, R, field = point(fname, 6)
        ang, sq, s23 = R.ang(1, 2), R.sqr(3, 4), R.s([2, 3])
        one = s23 - s23 + 1
        for text, sqv in (("⟨12⟩^2", ang * ang), ("s_23^2", s23 * s23), ("⟨12⟩^2[34]^2", ang * ang * sq * sq), ("4", one * 4), ("⟨12⟩^2/4", ang * ang / 4), ("s_23²", s23 * s23), ("9*s_23^2", 9 * s23 * s23), ("(⟨12⟩+s_23)^2", (ang + s23) * (ang + s23)), ("mt^2", 49 * one), ("tr5_1234^2", tr5(R, [1], [2], [3], [4]) ** 2)):
            label = "%s sqrt(%s)" % (fname, text)
            res.current = label
            try:
                r = normal(ps.compute("sqrt(%s)" % text), field)
            except Exception as e:
                res.fail(label, "unexpected %s: %s" % (type(e).__name__, str(e)[:200]))
                continue
            if not same(r * r, sqv):
                res.fail(label, "square of the root is %s, not %s" % (r * r, sqv))
            for ctx, f in (("sqrt({t})+s_23", lambda r: r + s23), ("2sqrt({t})", lambda r: 2 * r), ("s_23-2*sqrt({t})", lambda r: s23 - 2 * r), ("sqrt({t})^2", lambda r: r * r), ("s_23/sqrt({t})", lambda r: s23 / r),
                           ("sqrt({t})*s_23", lambda r: r * s23), ("-sqrt({t})", lambda r: -r), ("(sqrt({t})+1)(sqrt({t})-1)", lambda r: r * r - 1), ("1/2*sqrt({t})", lambda r: r / 2), ("sqrt( {t} )", lambda r: r), ("sqrt({t})sqrt({t})", lambda r: r * r)):
                s = ctx.format(t=text)
                if s.startswith("2sqrt") or ")sqrt(" in s:
                    continue            # not an accepted spelling
                ask(ps, field, res, "%s %s" % (fname, s), s, f(r), "sqrt")
    elif kind == "open":
        _, fname = shard
        ps, R, field = point(fname, 6)
        col = {"|%d⟩" % i: R.rd(i) for i in (1, 2, 6)}
        colS = {"|%d]" % i: R.lu(i) for i in (1, 3)}
        row = {"⟨%d|" % i: R.ru(i) for i in (1, 2, 5)}
        rowS = {"[%d|" % i: R.ld(i) for i in (2, 4)}
        row2 = {"⟨1|2+3|": R.chain(("a", 1), [[2, 3]], None), "⟨1|2|": R.chain(("a", 1), [[2]], None), "[1|2+3|4|": R.chain(("s", 1), [[2, 3], [4]], None), "⟨1|2+3|4+5|": R.chain(("a", 1), [[2, 3], [4, 5]], None)}
        col2 = {"|2+3|1⟩": R.chain(None, [[2, 3]], ("a", 1)), "|2+3|4|1]": R.chain(None, [[2, 3], [4]], ("s", 1)), "|2|1]": R.chain(None, [[2]], ("s", 1)), "|4+5|2+3|1⟩": R.chain(None, [[4, 5], [2, 3]], ("a", 1))}
        mat = {"|1+2|": R.chain(None, [[1, 2]], None), "|1|": R.chain(None, [[1]], None), "|1+2|3+4|": R.chain(None, [[1, 2], [3, 4]], None)}
        sc = {"s_23": R.s([2, 3]), "⟨12⟩": R.ang(1, 2), "[3|4]": R.sqr(3, 4), "⟨1|2+3|4]": R.chain(("a", 1), [[2, 3]], ("s", 4)), "tr5_1234": tr5(R, [1], [2], [3], [4])}
        shape = {id(d): k for d, k in ((col, "c"), (colS, "c"), (row, "r"), (rowS, "r"), (row2, "r"), (col2, "c"), (mat, "m"))}

        def want(v, k):
            return [[v[0]], [v[1]]] if k == "c" else [[v[0], v[1]]] if k == "r" else [[v[0], v[1]], [v[2], v[3]]]

        def chk(s, w):
            label = "%s %s" % (fname, s)
            res.current = label
            try:
                got = ps.compute(s)
            except Exception as e:
                res.fail(label, "unexpected %s: %s" % (type(e).__name__, str(e)[:200]), string=s)
                return
            if not same_arr(got, w):
                res.fail(label, "got %s, is %s" % (str(got)[:150], str(w)[:150]), string=s)
            res.case((field.name, s), "open", sample=s)
            res.transitions += 1
        for fam in (col, colS, row, rowS, row2, col2, mat):
            k = shape[id(fam)]
            for t, v in fam.items():
                for st, sv in sc.items():
                    for s, f in (("%s*%s" % (st, t), lambda x: sv * x), ("2*%s" % t, lambda x: 2 * x), ("-%s" % t, lambda x: -x), ("(%s)*%s" % (t, st), lambda x: sv * x), ("(%s)*%s^2" % (t, st), lambda x: sv * sv * x),
                                 ("(%s)/%s" % (t, st), lambda x: x / sv), ("1/2*%s" % t, lambda x: x / 2), ("%s(%s)" % ("3", t), lambda x: 3 * x)):
                        chk(s, want(tuple(f(x) for x in v), k))
                for t2, v2 in fam.items():
                    if t2 == t or fam in (mat,):
                        continue
                    for s, f in (("(%s)+(%s)" % (t, t2), lambda x, y: x + y), ("(%s)-(%s)" % (t, t2), lambda x, y: x - y), ("2*(%s)-3*(%s)" % (t, t2), lambda x, y: 2 * x - 3 * y),
                                 ("%s+%s" % (t, t2), lambda x, y: x + y), ("%s-%s" % (t, t2), lambda x, y: x - y)):
                        if ("|+|" in s or "|-|" in s) and False:
                            continue
                        chk(s, want(tuple(f(x, y) for x, y in zip(v, v2)), k))
        for c, r in ((col, row), (colS, rowS), (col, rowS), (colS, row), (col, row2), (col2, row), (colS, row2)):
            for (tc, vc), (tr, vr) in itertools.product(c.items(), r.items()):
                w = [[vc[0] * vr[0], vc[0] * vr[1]], [vc[1] * vr[0], vc[1] * vr[1]]]
                chk("%s%s" % (tc, tr), w)
                chk("(%s%s)" % (tc, tr), w)
                chk("3*%s%s" % (tc, tr), [[3 * x for x in q] for q in w])
                chk("(%s%s)*s_23" % (tc, tr), [[R.s([2, 3]) * x for x in q] for q in w])
                chk("%s%s-%s%s*s_23" % (tc, tr, tc, tr), [[x - R.s([2, 3]) * x for x in q] for q in w])


# --- operator trees -----------------------------------------------------------------------------
def trees(n, leaves, ops):
    if n == 1:
        for l in leaves:
            yield l
        return
    for k in range(1, n):
        for a in trees(k, leaves, ops):
            for b in trees(n - k, leaves, ops):
                for o in ops:
                    yield (o, a, b)


def unary(ts, exps):
    for t in ts:
        yield t
        yield ("-u", t)
        for e in exps:
            yield ("^", t, e)
            yield ("-u", ("^", t, e))
            yield ("^", ("-u", t), e)


def size(t):
    return 1 if isinstance(t, str) else sum(size(x) for x in t[1:] if not isinstance(x, int))


def value(t, leafs):
    if isinstance(t, str):
        return leafs[t]
    if t[0] == "-u":
        v = value(t[1], leafs)
        return None if v is None else -v
    if t[0] == "^":
        v = value(t[1], leafs)
        if v is None:
            return None
        r = v - v + 1
        for _ in range(abs(t[2])):
            r = r * v
        if t[2] < 0:
            if ref.is_zero(v):
                return None
            r = 1 / r
        return r
    a, b = value(t[1], leafs), value(t[2], leafs)
    if a is None or b is None:
        return None
    if t[0] == "+":
        return a + b
    if t[0] == "-":
        return a - b
    if t[0] == "*" or t[0] == ".":
        return a * b
    if ref.is_zero(b):
        return None
    return a / b


PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "-u": 3, "^": 4}


def render(t, names, mode):
    """mode: 'min' minimal parentheses, 'full' all, 'imp' implied multiplication where the text allows it, 'star' ** and spaces."""
    if isinstance(t, str):
        return names[t], 9
    if t[0] == "-u":
        s, p = render(t[1], names, mode)
        # -a is additive-like at the start; inside products keep parentheses
        if p <= 2 or (p == 3):
            s = "(%s)" % s
        return "-" + s, 3
    if t[0] == "^":
        s, p = render(t[1], names, mode)
        if p < 9 or mode == "full":
            s = "(%s)" % s
        e = str(t[2]) if mode != "full" else "(%d)" % t[2]
        return s + ("**" if mode == "star" else "^") + e, 4
    a, pa = render(t[1], names, mode)
    b, pb = render(t[2], names, mode)
    p = PREC[t[0]]
    if mode == "full":
        a, b = (a if pa == 9 else "(%s)" % a), (b if pb == 9 else "(%s)" % b)
    else:
        if pa < p or (pa == 3 and p == 2):
            a = "(%s)" % a
        if pb < p or (pb == p and t[0] in "-/") or pb == 3 or (pb == p and t[0] == "*" and "/" in b):
            b = "(%s)" % b
    op = t[0]
    if mode == "star":
        op = " %s " % op
    if mode == "imp" and op == "*":
        end, beg = a[-1], b[0]
        if (end in ")⟩]" and beg in "(⟨[s") or (end in ")" and beg.isdigit()) or (end.isdigit() and not re.search(r"s_\d+$|\^-?\d+$", a) and beg in "(⟨[s") or (re.search(r"s_\d+$", a) and beg in "⟨[s("):
            op = ""
    return a + op + b, p


def renderings(t, names):
    out = []
    for m in ("min", "full", "imp", "star"):
        s, p = render(t, names, m)
        if "--" in s or "+-" in s.replace("^-", "") and False:
            pass
        out.append(s)
    return list(dict.fromkeys(out))


def main():
    ck = Check("C08")
    th = ck.thorough
    ck.rule = "every building block x every spelling x every context; every operator tree with up to four leaves in four renderings"
    shards = []
    natoms = 24
    for fname, bs in (("F2147483647", (0, 1, 8, 2, 20, 6, 10, 15, 18, 3) if not th else range(23)), ("Z2147483647^3", (1, 8)), ("mpc", (0, 8, 2)), ("Q", (0, 8)), ("Qi", (0, 8))):
        for i in range(natoms):
            shards.append(("ctx", fname, [i], tuple(bs), fname != "Qi"))
        shards.append(("five", fname))
    for fname in ("F2147483647", "Z2147483647^3", "mpc"):
        shards.append(("sqrt", fname))
    for fname in ("F2147483647", "Z2147483647^3", "Q", "mpc"):     # gaussian rational x array is refused by the number library
        shards.append(("open", fname))
    ops = "+-*/"
    t3 = list(trees(1, "23ABC", ops)) + list(trees(2, "23ABC", ops)) + list(trees(3, "23AB", ops))
    un = [u for t in list(trees(1, "2AB", ops)) + list(trees(2, "2AB", ops)) for u in unary([t], (2, 3, -1, -2))]
    un2 = [(o, a, b) for o in ops for a in un if size(a) == 1 for b in un if size(b) == 1] + [(o, a, b) for o in ops for a in un for b in "2B"] + [(o, a, b) for o in ops for a in "2B" for b in un]
    for ch in chunks(t3 + un + un2, 32):
        shards.append(("tree", "F2147483647", ch))
    small = list(trees(2, "2AB", ops)) + list(trees(3, "2A", ops)) + un
    for f in ("mpc", "Q", "Z2147483647^3"):
        for ch in chunks(small, 4):
            shards.append(("tree", f, ch))
    t4 = list(trees(4, "23AB", ops)) if th else list(trees(4, "2AB", ops))
    for ch in chunks(t4, 64):
        shards.append(("tree", "F2147483647", ch))
    if th:
        for ch in chunks(list(trees(5, "2A", ops)), 128):
            shards.append(("tree", "F2147483647", ch))
    ck.run(worker, shards)
    ck.assumptions += ["implied multiplication has the precedence of *", "juxtaposed letter names, negative powers of gaussian rationals (number library) and square roots outside the field are not judged"]
    ck.run(history.worker, history.shards("C08", ck.thorough))
    ck.rule += "; all sequences of two of 25 changes to a point (thorough: three), everything observed before and between, against a fresh point"
    ck.finish()


if __name__ == "__main__":
    main()
