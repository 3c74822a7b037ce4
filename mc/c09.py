"""C09: malformed strings and disallowed syntax. All short strings over the notation's alphabets against an independent grammar,
all chains with a wrong closing bracket or an index out of range, all python constructs in all positions."""
import functools
import itertools
import os
import sys
import warnings
from .common import Check, chunks
from lips import Particles
from . import ref
from .ref import el, lips_point, conserved_spinors, snapshot

N = 3           # legs of the point: 1..3, so 9 and 0 are out of range
warnings.simplefilter("ignore")
EVENTS = []
WATCH = False
DANGER = ("os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "subprocess.Popen", "socket.", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chmod",
          "os.chown", "os.link", "os.symlink", "os.truncate", "os.utime", "os.putenv", "os.kill", "shutil.", "urllib.", "ctypes.", "import", "open", "pickle.", "code.__new__", "function.__new__",
          "sys.settrace", "builtins.input", "os.listdir", "os.scandir", "glob.glob", "object.__getattr__")


def hook(event, args):
    if WATCH and (event.startswith(DANGER)):
        EVENTS.append((event, str(args)[:200]))


# --- the notation, as a nondeterministic recogniser -------------------------------------------------
class Grammar:
    """Accepts exactly the strings of the notation with legs 1..n (implied multiplication included)."""

    def __init__(self, text, n, masses=()):
        self.s, self.n, self.masses = text, n, masses
        self.memo = {}

    def run(self, i):
        """End of the digit run starting at i (i itself if none)."""
        s = self.s
        while i < len(s) and s[i].isdigit():
            i += 1
        return i

    def leg(self, i):
        """Positions after a leg index starting at i."""
        j = self.run(i)
        if j == i or not (1 <= int(self.s[i:j]) <= self.n):
            return ()
        return (j,)

    def legsum(self, i, signs="+-"):
        out = set()
        todo = list(self.leg(i))
        while todo:
            j = todo.pop()
            if j in out:
                continue
            out.add(j)
            if j < len(self.s) and self.s[j] in signs:
                todo += self.leg(j + 1)
        return out

    def entry(self, i):
        out = set(self.legsum(i))
        if i < len(self.s) and self.s[i] == "(":
            for j in self.legsum(i + 1):
                if j < len(self.s) and self.s[j] == ")":
                    out.add(j + 1)
        return out

    def legs(self, i):
        """A run of single-digit legs."""
        j = self.run(i)
        if j == i or any(not 1 <= int(c) <= self.n for c in self.s[i:j]):
            return ()
        return (j,)

    def chain(self, i):
        """Closed, half-open and open chains starting at i."""
        s, out = self.s, set()
        if i >= len(s):
            return out
        starts = []                       # (position after the opening '|', chirality)
        if s[i] in "⟨[":
            kind = "a" if s[i] == "⟨" else "s"
            for j in self.leg(i + 1):
                if s[j:j + 1] in (("_", "d") if kind == "a" else ("^", "u")):     # massive spinor
                    j += 1
                if j < len(s) and s[j] == "|":
                    starts.append((j + 1, kind))
            # compact two-digit form
            if s[i + 1:i + 3].isdigit() and len(s[i + 1:i + 3]) == 2 and i + 3 < len(s) and s[i + 3] == ("⟩" if kind == "a" else "]") \
                    and all(1 <= int(c) <= self.n for c in s[i + 1:i + 3]):
                out.add(i + 4)
        elif s[i] == "|":
            starts.append((i + 1, None))
        todo = [(p, k, 0) for p, k in starts]
        seen = set()
        while todo:
            p, k, m = todo.pop()
            if (p, k, m % 2, m > 0) in seen:
                continue
            seen.add((p, k, m % 2, m > 0))
            if k is not None or m > 0:
                out.add(p)                # open at the end
            for j in self.leg(p):
                if s[j:j + 2] in ("_⟩", "d⟩", "^]", "u]"):
                    j += 1
                if j < len(s) and s[j] in "⟩]":
                    e = "a" if s[j] == "⟩" else "s"
                    if k is None or (e == k) == (m % 2 == 0):
                        out.add(j + 1)
            for j in self.entry(p):
                if j < len(s) and s[j] == "|":
                    todo.append((j + 1, k, m + 1))
        return out

    def atom(self, i):
        s, out = self.s, set()
        if i >= len(s):
            return out
        if s[i].isdigit():
            j = self.run(i)
            out.add(j)
            while s[j:j + 1] == "_" and self.run(j + 1) > j + 1:      # digit grouping
                j = self.run(j + 1)
                out.add(j)
        out |= self.chain(i)
        if s[i] == "(":
            for j in self.expr(i + 1):
                if j < len(s) and s[j] == ")":
                    out.add(j + 1)
        if s[i] in "sS":
            for k in (i + 1, i + 2) if s[i + 1:i + 2] == "_" else (i + 1,):
                if s[k:k + 1].isdigit():
                    out |= set(self.legs(k))
        if s[i] in "mM":
            k = i + 2 if s[i + 1:i + 2] == "_" else i + 1
            if s[k:k + 1].isdigit() and 1 <= int(s[k]) <= self.n:
                out.add(k + 1)
        for nm in self.masses:
            if s.startswith(nm, i):
                out.add(i + len(nm))
        if s.startswith("δ5", i):
            out.add(i + 2)
        if s[i] in "ΔΩΠ" and s[i + 1:i + 2] == "_":
            for j in self.legs(i + 2):
                if j - i == 5 and len(set(s[i + 2:j])) == 3:            # three distinct legs
                    out.add(j)
            if s[i] == "Δ":
                todo = [(j, 1) for j in self.legs(i + 2)]
                while todo:
                    j, m = todo.pop()
                    if m > 1:
                        out.add(j)
                    if j < len(s) and s[j] == "|":
                        todo += [(k, m + 1) for k in self.legs(j + 1)]
                        if m > 1 and self.run(j + 1) > j + 1:
                            out.add(self.run(j + 1))         # the last corner follows from momentum conservation
        if s.startswith("tr5_", i):
            for j in self.legs(i + 4):
                if j - i == 8:
                    out.add(j)
        for head, cnt in (("tr5(", 4), ("tr(", None)):
            if s.startswith(head, i):
                todo = [(i + len(head), 0)]
                seen = set()
                while todo:
                    p, m = todo.pop()
                    if (p, m) in seen:
                        continue
                    seen.add((p, m))
                    for j in self.entry(p) | (self.entry(p + 1) if s[p:p + 1] in ("+", "-") else set()):
                        if j < len(s) and s[j] == "|":
                            todo.append((j + 1, m + 1))
                        if j < len(s) and s[j] == ")" and (cnt is None or m + 1 == cnt):
                            out.add(j + 1)
        if s.startswith("sqrt(", i):
            for j in self.expr(i + 5):
                if j < len(s) and s[j] == ")":
                    out.add(j + 1)
        return out

    def power(self, i):
        out = set()
        for j in self.atom(i):
            out.add(j)
            for op in ("^", "**"):
                if self.s.startswith(op, j):
                    k = j + len(op)
                    while k < len(self.s) and self.s[k] in "+-":
                        k += 1
                    out |= self.power(k)
        return out

    def expr(self, i):
        """sign* power ((operator sign*)? power)*"""
        if i in self.memo:
            return self.memo[i]
        self.memo[i] = set()
        s, out = self.s, set()

        def signs(k):
            while k < len(s) and s[k] in "+-":
                k += 1
            return k
        todo, seen = list(self.power(signs(i))), set()
        while todo:
            j = todo.pop()
            if j in seen:
                continue
            seen.add(j)
            out.add(j)
            if j < len(s):
                if s[j] in "+-":
                    todo += self.power(signs(j + 1))
                if s[j] in "*/" and not s.startswith("**", j):
                    todo += self.power(signs(j + 1))
                if not (s[j].isdigit() and s[j - 1].isdigit()) or s[j - 2] in "mM" or s[j - 3:j - 1] in ("m_", "M_"):
                    todo += self.power(j)        # implied multiplication
        self.memo[i] = out
        return out

    def ok(self):
        return len(self.s) in self.expr(0)


def accepted(string, n, masses=()):
    t = string.replace("<", "⟨").replace(">", "⟩").replace(" ", "")
    return Grammar(t, n, masses).ok()


def the_point(n=N):
    field = ref.make_field("F2147483647")
    sp = conserved_spinors(lambda x: el(field, x), n, 2)
    return lips_point(sp, field, internal_masses={"mt": el(field, 5)})


def evaluate(ps, s):
    """('value', v) or ('raised', e)"""
    try:
        return "value", ps.compute(s)
    except Exception as e:
        return "raised", e
    except SystemExit as e:
        return "exit", e


def worker(shard, res):
    global WATCH
    warnings.simplefilter("ignore")
    kind = shard[0]
    if kind == "short":
        _, alphabet, prefix, length = shard
        ps = the_point()
        before = snapshot(ps)
        nv = nr = 0
        for t in itertools.product(alphabet, repeat=length - len(prefix)):
            s = prefix + "".join(t)
            res.current = s
            r, v = evaluate(ps, s)
            res.n_states += 1
            res.evaluations += 1
            if r == "value":
                nv += 1
                if not accepted(s, N, ("mt",)):
                    res.fail("short %r" % s, "malformed string evaluated to %s" % str(v)[:120], string=s)
            else:
                nr += 1
                if r == "exit":
                    res.fail("short %r" % s, "exits", string=s)
        res.outcomes["value"] += nv
        res.outcomes["rejected"] += nr
        if snapshot(ps) != before:
            res.fail("short strings %s %s" % (alphabet, prefix), "the point changed")
        if len(res.samples) < 1:
            res.samples.append("%s^%d after %r" % (alphabet, length, prefix))
    elif kind == "reject":
        _, n, strings, expect = shard
        ps = the_point(n)
        before = snapshot(ps)
        for s in strings:
            res.current = s
            r, v = evaluate(ps, s)
            res.case(s, r if r == "value" else type(v).__name__, sample=s)
            if r != "raised":
                res.fail("%d legs: %r" % (n, s), "%s: evaluated to %s" % (expect, str(v)[:150]), string=s)
            if snapshot(ps) != before:
                res.fail("%d legs: %r" % (n, s), "the point changed", string=s)
                ps = the_point(n)
    elif kind == "python":
        _, strings = shard
        ps = the_point(6)
        before = snapshot(ps)
        cwd = sorted(os.listdir("."))
        envb = dict(os.environ)
        sys.addaudithook(hook)
        evaluate(ps, "x.y")
        evaluate(ps, "sqrt(s_12^2)+numpy")
        for s in strings:
            res.current = s
            del EVENTS[:]
            WATCH = True
            r, v = evaluate(ps, s)
            WATCH = False
            res.case(s, r if r == "value" else type(v).__name__, sample=s)
            ev = [e for e in EVENTS if not (e[0] == "open" and ("'r'" in e[1] or "'rb'" in e[1]) and ".py" in e[1]) and e[0] != "import"]
            if ev or sorted(os.listdir(".")) != cwd or dict(os.environ) != envb or getattr(ps, "pwned", None) is not None or getattr(sys, "pwned", None) is not None:
                res.fail("side effect: %r" % s, "events %s" % ev[:3], string=s)
            if r != "raised":
                res.fail("python: %r" % s, "evaluated to %s" % str(v)[:150], string=s)
            if snapshot(ps) != before:
                res.fail("python: %r" % s, "the point changed", string=s)
                ps = the_point(6)


def bad_closings(n, kmax, mids):
    out = []
    for k in range(kmax + 1):
        for ms in itertools.product(mids, repeat=k):
            for s in "⟨[":
                good = {("⟨", 0): "⟩", ("⟨", 1): "]", ("[", 0): "]", ("[", 1): "⟩"}[(s, k % 2)]
                bad = "]" if good == "⟩" else "⟩"
                t = "|".join([s + "1"] + list(ms) + ["2" + bad])
                out += [t, "1*" + t, "(%s)" % t, "s_12+" + t, t + "+1", "2" + t, t.replace("⟨", "<").replace("⟩", ">"), "1*" + t.replace("⟨", "<").replace("⟩", ">")]
                if k == 0:
                    u = s + "12" + bad
                    out += [u, "1*" + u, "(%s)" % u]
    return out


def out_of_range(n):
    out = []
    for b in ("0", str(n + 1), "9"):
        for t in ("⟨1|%s⟩", "⟨%s|1⟩", "[%s|1]", "[1|%s]", "⟨1%s⟩", "[%s1]", "⟨1|%s|2]", "⟨%s|1|2]", "⟨1|2|%s]", "⟨1|2+%s|3]", "⟨1|(%s-2)|3]", "[1|2|%s|3]", "[1|2|3|%s]", "⟨%s|", "|%s⟩", "[%s|", "|%s]",
                  "|%s|", "|1+%s|", "⟨1|%s|", "⟨%s|1|", "|%s|1⟩", "|1|%s]", "s_%s", "s_1%s", "s_%s2", "s_12%s", "S1%s", "m_%s", "tr(1|%s)", "tr(%s|1)", "tr(1+%s|2)", "tr(1|2|3|%s)", "tr5_123%s", "tr5_%s123", "tr5(1|2|3|%s)", "tr5(1|%s|2|3)",
                  "Δ_1|2|%s", "Δ_1%s|2|3", "Δ_1|%s|23", "Δ_12%s", "Δ_%s12", "Δ_1%s3", "Ω_12%s", "Ω_%s23", "Π_12%s", "Π_%s13"):
            s = t % b
            if "Δ_1|2|%s" == t:
                continue            # the last corner is fixed by momentum conservation
            out += [s, "2*" + s, "(%s)" % s, s + "+1"]
    return out


UNBALANCED = ["(", ")", "(1", "1)", "((s_12)", "(s_12))", "(s_12", "s_12)", "(⟨1|2⟩", "⟨1|2⟩)", "⟨12", "12⟩", "[12", "12]", "⟨1|2+3|4", "[1|2+3|4", "⟨1|(2+3|4]", "⟨1|2+3)|4]", "⟨1|2+|3]", "⟨1|2++3|4]", "⟨1||2⟩", "⟨1|2||3]", "⟨|2⟩", "⟨⟩", "[]",
              "||", "|", "⟨", "⟩", "[", "]", "⟨|", "|⟩", "s_", "s", "S", "Δ_", "Δ", "Ω_", "Π_", "tr", "tr()", "tr(", "tr5", "tr5_", "tr5_123", "tr5_12345", "tr5(1|2|3)", "tr5(1|2|3|4|5)", "δ", "δ6", "1+", "1*", "*1", "/2", "1//2", "1/", "^2", "2^", "s_12^", "s_12**",
              "s_12***2", "1 +* 2", "⟨1|2⟩*", "*⟨1|2⟩", "sqrt(", "sqrt", "sqrt()", "sqrt)", "\\frac{1}{", "\\frac12", "{", "}", "{}", "s_12}", "{s_12", "", " ", "\n", "s_12,s_23", "s_12;s_23", "s_12:s_23", "s_12=1", "⟨a|b⟩", "⟨1|x⟩", "s_ab", "s_1a", "⟨1.5|2⟩", "⟨-1|2⟩", "⟨1|-2⟩", "s_-1",
              "1..2", "0x", "1e", "#", "s_12#", "# comment", "'", '"', "'s_12'", '"s_12"', "\\", "@", "s_12@", "$", "%", "&", "~", "!", "?", "`"]

PAYLOADS = ["__import__('os').system('touch pwned')", "__import__('os').mkdir('pwned')", "open('pwned','w')", "exec('import sys; sys.pwned=1')", "eval('1')", "().__class__", "().__class__.__bases__[0].__subclasses__()", "[].append(1)",
            "self", "self.field", "self[1]", "self[1].r2_sp", "self.append(1)", "self.pwned", "oPs", "oPs.field", "oPs.field.characteristic", "oPs.__class__", "oPs.image('213456')", "oPs.append(1)", "oPs.pop()", "oPs.__dict__", "oPs[1]", "oPs[1].r_sp_d", "oPs.__setattr__('pwned',1)",
            "oPs.field.random()", "oPs.field.__class__", "numpy", "numpy.pi", "numpy.load('x')", "numpy.save('pwned',1)", "numpy.ones(3)", "numpy.linalg.inv(1)", "numpy.block.__globals__", "numpy.os.system('touch pwned')", "numpy.array([1,2])", "numpy.fromfile('x')",
            "mpmath", "mpmath.pi", "os", "sys", "sys.exit()", "exit()", "quit()", "print(1)", "len('a')", "abs(1)", "max(1,2)", "sum([1])", "int('1')", "float('1')", "str(1)", "type(1)", "globals()", "locals()", "vars()", "dir()", "getattr(oPs,'field')", "setattr(oPs,'pwned',1)", "delattr(oPs,'field')",
            "lambda: 1", "(lambda: 1)()", "lambda x: x", "[x for x in (1,2)]", "{x for x in (1,2)}", "{1:2}", "{1,2}", "(x for x in (1,2))", "[1,2]", "[1]", "(1,2)", "(1,)", "[[1,2],[3,4]]", "1 if 1 else 2", "1 and 2", "1 or 2", "not 1", "1==1", "1!=1", "1<=2", "1>=2", "s_12==s_12", "s_12!=s_23", "1 in (1,2)", "1 is 1",
            "~1", "1|2", "1&2", "1<<2", "1>>2", "1//2", "1%2", "(x:=1)", "*s_12", "**s_12", "x", "e", "pi", "i", "j", "E", "a1", "foo", "foo(1)", "foo.bar", "foo[0]", "s_12.real", "s_12.n", "s_12.__class__", "⟨1|2⟩.n", "⟨1|.shape", "⟨1|.fill(0)", "(1).real", "1 .real", "1.0.real", "s_12[0]", "|1⟩[0]", "|1|[0]", "⟨1|[0]", "|1⟩[0][0]", "s_12()", "s_12(1)", "⟨1|2⟩()",
            "True", "False", "None", "...", "NotImplemented", "__name__", "__builtins__", "'a'", "\"a\"", "f'{1}'", "b'a'", "'a'*3", "r'x'", "yield", "await x", "yield 1", "import os", "pass", "del oPs", "return 1", "s_12:=1", "x=1", "1;2", "assert 1", "raise", "1\\\n+1x",
            "oPs('s_12').n", "oPs(s_12)", "oPs(1)", "oPs()", "oPs('s_12','s_12')", "oPs(x='s_12')", "oPs('mt').__class__", "oPs('__import__')", "oPs('self')", "oPs('self.field')", "oPs('self[1]')", "oPs('field')", "oPs('__class__')", "oPs('internal_masses')", "oPs('m__class__')", "oPs('multiplicity')", "multiplicity", "m2s", "ms", "total_mom", "make_analytical_d", "momentum_conservation_check", "mQ", "M_x", "μ", "m_", "m"]


def python_strings(th):
    ctxs = ["{}", "1+{}", "({})", "s_12*({})", "sqrt({})", "-({})", "2^({})", "tr({})", "⟨1|{}|2]", "⟨1|2+{}|3]", "|{}|", "s_{{{}}}", "oPs({})", "oPs('{}')", "oPs('⟨1|{}|2]')", "oPs('tr({})')", "oPs('|{}|')", "\\frac{{{}}}{{2}}", "numpy.linalg.det({})", "numpy.{}", "({}).real", "foo({})", "[{} for x in (1,)]",
            "'{}'", "{}.__class__"]
    out = []
    for p in PAYLOADS:
        for c in ctxs:
            s = c.format(p)
            if accepted(s, 6, ("mt",)) or (accepted(p, 6, ("mt",)) and c.startswith(("oPs('", "\\frac"))):
                continue
            if c == "oPs('|{}|')" and accepted("|%s|" % p, 6):
                continue
            out.append(s)
    return list(dict.fromkeys(out))


NOT_JUDGED = set()


def main():
    ck = Check("C09")
    th = ck.thorough
    ck.rule = "every string up to the stated length over each alphabet against an independent grammar; every wrong closing/out-of-range chain; every python construct in every position"
    shards = []
    L = 7 if th else 6
    for alphabet, top in (("19|⟨⟩[]+-()", L), ("10|⟨>(^/*s_", L - 1), ("s_10mt*^/()", L - 1), ("tr5_(1|9)+", L - 1), ("ΔΩδ5_1|9+*", L - 1), ("19|<>[]+(", L - 1)):
        for length in range(1, top + 1):
            if length < 3:
                shards.append(("short", alphabet, "", length))
            elif length < 5:
                shards += [("short", alphabet, a, length) for a in alphabet]
            else:
                shards += [("short", alphabet, a + b, length) for a in alphabet for b in alphabet]
    for n in (4, 6):
        for ch in chunks(list(dict.fromkeys(bad_closings(n, 4 if th else 3, ["3", "3+4", "(3-4)"]))), 4):
            shards.append(("reject", n, ch, "wrong closing bracket"))
        for ch in chunks(list(dict.fromkeys(out_of_range(n))), 4):
            shards.append(("reject", n, ch, "index out of range"))
    shards.append(("reject", 5, [c.format(u) for u in UNBALANCED for c in ("{}", "s_12+{}", "({})") if not accepted(c.format(u), 5)], "malformed"))
    for ch in chunks(python_strings(th), 16):
        shards.append(("python", ch))
    ck.run(worker, shards)
    ck.assumptions += ["a bra or ket next to a number is an implied product, so e.g. ⟨1|2 is accepted notation", "adding a number to a spinor is not judged"]
    ck.finish()


if __name__ == "__main__":
    main()
