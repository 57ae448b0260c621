"""C10: expressions evaluate with C precedence and associativity, repeatably."""

from __future__ import annotations

import re

from vse.core import b_eq, b_le, b_lt, op_add, op_and, op_inv, op_mul, op_neg, op_or, op_shl, op_shr, op_sub, op_xor, code_it, r_ite
from vse.run import Job

WITNESSES = ["evaluated", "divided", "shifted", "literal", "identifier", "repeated", "sizeof", "define", "error", "gap"]
BOUNDS = (
    "every expression with one or two binary operators and selected ones with three (thorough: every one with three) over symbolic identifier values of 12 (with multiplications 6) bits and both signs, "
    "every unary prefix up to two deep on every operand and every parenthesisation; literals of every base with up to 4 (thorough 6) symbolic digits and every u/l suffix; identifiers including the spellings of operators and literals, "
    "resolved in the context, the constants or both; every placement of blanks and tabs around the tokens; the same object evaluated up to six times over changing contexts, constants and failures; "
    "sizeof of built-in, multi-word and user types; expressions in #define"
)
ASSUMPTIONS = ["/ and % only on a non-negative dividend and a positive divisor, shifts only by non-negative counts, as the property states"]

OPS = ["|", "^", "&", "<<", ">>", "+", "-", "*", "/", "%"]
TOKEN = re.compile(r"\s*(?:(0[xX][0-9a-fA-F]+|0[bB][01]+|[0-9]+)[uUlL]*|([A-Za-z_][A-Za-z0-9_]*|<<|>>|[-|^&+*/%~()]))")


class Outside(Exception):
    """Division by zero and the like: outside the property."""


# -- the reference: C's grammar, by recursive descent ---------------------------------------------------------
class Ref:
    def __init__(self, env, text, values, sizes=None):
        self.env, self.values, self.sizes = env, values, sizes or {}
        self.toks, pos = [], 0
        text = text.strip()
        while pos < len(text):
            m = TOKEN.match(text, pos)
            self.toks.append(m.group(1) or m.group(2))
            pos = m.end()
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def next(self):
        self.i += 1
        return self.toks[self.i - 1]

    def binary(self, ops, sub):
        v = sub()
        while self.peek() in ops:
            op = self.next()
            v = self.apply(op, v, sub())
        return v

    def or_(self):
        return self.binary(("|",), self.xor)

    def xor(self):
        return self.binary(("^",), self.and_)

    def and_(self):
        return self.binary(("&",), self.shift)

    def shift(self):
        return self.binary(("<<", ">>"), self.add)

    def add(self):
        return self.binary(("+", "-"), self.mul)

    def mul(self):
        return self.binary(("*", "/", "%"), self.unary)

    def unary(self):
        t = self.peek()
        if t == "-":
            self.next()
            return op_neg(self.unary())
        if t == "~":
            self.next()
            return op_inv(self.unary())
        return self.primary()

    def primary(self):
        t = self.next()
        if t == "(":
            v = self.or_()
            assert self.next() == ")"
            return v
        if t == "sizeof" and self.peek() == "(":
            self.next()
            name = []
            while self.peek() != ")":
                name.append(self.next())
            self.next()
            return self.sizes[" ".join(name)]
        if t[0].isdigit():
            return int(t, 8) if t[0] == "0" and t.isdigit() else int(t, 0)
        return self.values[t]

    def apply(self, op, a, b):
        env = self.env
        if op in "/%":
            if not env.branch(b_le(0, a)) or not env.branch(b_lt(0, b)):
                raise Outside
            env.reach("divided")
            x, y = env.mkint(a), env.mkint(b)
            return env.raw(x // y if op == "/" else x % y)
        if op in ("<<", ">>"):
            if not env.branch(b_le(0, b)) or not env.branch(b_le(b, 40)):
                raise Outside
            env.reach("shifted")
            if type(b) is int and type(a) is int:
                return a << b if op == "<<" else a >> b
            return shl(env, a, b, op)
        return {"|": op_or, "^": op_xor, "&": op_and, "+": op_add, "-": op_sub, "*": op_mul}[op](a, b)

    def value(self):
        v = self.or_()
        assert self.i == len(self.toks), self.toks
        return v


def shl(env, a, b, op):
    x, y = env.mkint(a), env.mkint(b)
    return env.raw(x << y if op == "<<" else x >> y)


def fresh(env, cs, text):
    return env.lib.expression.Expression(cs, text)


def decide(env, cs, text, values, context, consts=None, sizes=None):
    """One evaluation against the reference."""
    try:
        want = Ref(env, text, {**(consts or {}), **values}, sizes).value()
    except Outside:
        return
    r = env.call(lambda: fresh(env, cs, text).evaluate(context))
    env.check(r.ok, "evaluating a well-formed expression raised", lambda: f"{text!r} with {context}: {r!r}")
    env.check(b_eq(env.raw(r.value), want), "value of the expression", lambda: f"{text!r} with {context} -> {r.value!r}, C gives {env.mkint(want)!r}")
    env.observe("value", r.value)
    env.reach("evaluated")


class Counts(Ref):
    """Which identifiers take part in a shift count (their values stay small)."""

    def __init__(self, text):
        super().__init__(None, text, None)
        self.counts = set()
        self.value()

    def unary(self):
        while self.peek() in ("-", "~"):
            self.next()
        return self.primary()

    def primary(self):
        t = self.next()
        if t == "(":
            v = self.or_()
            self.next()
            return v
        if t == "sizeof" and self.peek() == "(":
            while self.next() != ")":
                pass
            return set()
        return set() if t[0].isdigit() else {t}

    def apply(self, op, a, b):
        if op in ("<<", ">>"):
            self.counts |= b
        return a | b


def numbers(env, names, text):
    """Symbolic values: small where the expression multiplies, tiny where they are shift counts."""
    lim = 1 << (6 if text.count("*") > 1 or "<<" in text and "*" in text else 12)
    low = 0 if ("/" in text or "%" in text) else -lim
    counts = Counts(text).counts
    return {n: env.int(n, -2, 3) if n in counts else env.int(n, low, lim - 1) for n in names}


PARENS = {
    2: ["{a} {o} {b}", "({a} {o} {b})", "({a}) {o} ({b})"],
    3: ["{a} {o} {b} {p} {c}", "({a} {o} {b}) {p} {c}", "{a} {o} ({b} {p} {c})", "({a} {o} {b} {p} {c})", "{a} {o} ((({b}))) {p} ({c})", "(({a} {o} {b})) {p} {c}", "{s}({a} {o} {b}) {p} {c}", "{a} {o} {s}({b} {p} {c})"],
    4: [
        "{a} {o} {b} {p} {c} {q} {d}", "({a} {o} {b}) {p} ({c} {q} {d})", "{a} {o} ({b} {p} {c}) {q} {d}", "{a} {o} ({b} {p} {c} {q} {d})", "{a} {o} ({b} {p} ({c} {q} {d}))",
        "(({a} {o} {b}) {p} {c}) {q} {d}", "{a} {o} (({b} {p} {c}) {q} {d})",
    ],
}  # fmt: skip
PREFIX = ["", "-", "~", "-~", "~-", "- -", "~~"]


def flat(env, op, shapes, prefixes, second, third=None, blanks=True):
    """``a op b op2 c``: the operators after the first, parentheses and unary prefixes are choices."""
    n = 2 + (second is not None) + (third is not None)
    p = env.choice("op2", second) if second else None
    q = env.choice("op3", third) if third else None
    shape = env.choice("shape", shapes)
    pre = env.choice("prefix", prefixes)
    names = "abcd"[:n]
    parts = dict(zip("abcd", names))
    signs = ["-", "~"] if "{s}" in shape else [""]
    sign = env.choice("sign", signs)
    for at, u in pre:
        parts[names[at]] = u + names[at]
    text = shape.format(o=op, p=p, q=q, s=sign, **parts)
    if not blanks:
        text = text.replace(" ", "") if "- -" not in text and "- -" not in shape else text
        text = text.replace("--", "- -")
    env.tag = text
    cs = env.lib.cstruct()
    vals = numbers(env, names, text)
    decide(env, cs, text, {k: env.raw(v) for k, v in vals.items()}, vals)


def literal(env, base, digits, suffixes, shape):
    """Every literal of the base with this many digits."""
    alpha = {"0x": "0123456789abcdefABCDEF", "0X": "0123456789abcdefABCDEF", "0b": "01", "0B": "01", "0": "01234567", "": "0123456789"}[base]
    n = {"0x": 16, "0X": 16, "0b": 2, "0B": 2, "0": 8, "": 10}[base]
    d = env.text("digits", digits, alpha)
    if base == "":
        if digits > 1:
            env.assume(env.no(env.ceq(env.canon(d[:1]), env.canon("0"))))
    v = 0
    for c in env.codes(d):
        c = code_it(c)
        x = r_ite(b_le(c, 57), op_sub(c, 48), op_add(op_sub(op_and(c, 0xDF), 65), 10))
        v = op_add(op_mul(v, n), x)
    suffix = env.choice("suffix", suffixes)
    lit = base + d + suffix
    cs = env.lib.cstruct()
    a = env.int("a", 0, 7 if shape == "times" else 1 << 12)
    before, after, fn = {
        "alone": ("", "", lambda: v),
        "plus": ("a + ", "", lambda: op_add(env.raw(a), v)),
        "minus": ("", "-a", lambda: op_sub(v, env.raw(a))),
        "neg": ("-", "", lambda: op_neg(v)),
        "paren": ("(", ")", lambda: v),
        "mask": ("a&~", "", lambda: op_and(env.raw(a), op_inv(v))),
        "times": ("", "*a+1", lambda: op_add(op_mul(v, env.raw(a)), 1)),
        "blank": (" \t", " ", lambda: v),
    }[shape]
    text = before + lit + after
    want = fn()
    env.tag = f"{base}{'#' * digits}{suffix} {shape}"
    r = env.call(lambda: fresh(env, cs, text).evaluate({"a": a}))
    env.check(r.ok, "evaluating a well-formed literal raised", lambda: f"{text!r}: {r!r}")
    env.check(b_eq(env.raw(r.value), want), "value of the literal", lambda: f"{text!r} -> {r.value!r}, should be {env.mkint(want)!r}")
    env.observe("value", r.value)
    env.reach("literal")


IDENTS = "a u U l ul x X b B o e E f0 b0 x1F u8 _ _u __x a_1 sizeof_ sizeofx uint32 CONST Z9z uu lu abcdef e10 o7".split()


def identifier(env, names, where):
    """Identifiers resolve in the context first, then in the constants."""
    name = env.choice("name", names)
    shape = env.choice("shape", ["N", "-N", "~N", "N - 1", "1 - N", "1-N", "-N - N", "N*N", "(N)-N", "- -N", "7 & ~N", "k - N", "N - k", "-k", "k - 1", "-(k - N)", "k|N", "N<<1", "sizeof(uint16) - N", "N - sizeof(uint16)"])
    text = shape.replace("N", name)
    if name == "k" or (where == "const" and "k" in shape):
        pass
    env.tag = f"{text} {where}"
    x, y, k = env.int("x", -500, 500), env.int("y", -500, 500), env.int("k", -500, 500)
    cs = env.lib.cstruct()
    ctx = {"k": k}
    consts = {}
    if where in ("context", "both", "unused"):
        ctx[name] = x
    if where in ("const", "both"):
        cs.consts[name] = y
        consts[name] = env.raw(y)
    if where == "extra":
        # values that the expression does not mention must not matter
        ctx = {n: env.int(f"i{i}", -9, 9) for i, n in enumerate(["u", "uu", "x", "sizeofx", "uint16", "__u", "o", "e1"])}
        ctx["k"] = k
        ctx[name] = x
    vals = {n: env.raw(v) for n, v in ctx.items()}
    decide(env, cs, text, vals, ctx, consts, {"uint16": 2})
    env.reach("identifier")


def repeat(env, texts, order):
    """The same object over changing contexts, constants and failures, against a fresh object each time."""
    text = env.choice("text", texts)
    env.tag = f"{text} {order}"
    cs = env.lib.cstruct()
    names = sorted(set(re.findall(r"\b[a-zA-Z]\w*\b", text)) - {"sizeof", "uint16"})
    lim = 40 if "*" in text or "<<" in text else 1000
    one = {n: env.int(f"1{n}", 0, lim) for n in names}
    two = {n: env.int(f"2{n}", 0, lim) for n in names}
    three = {n: env.int(f"3{n}", 0, lim) for n in names}
    e = fresh(env, cs, text)
    shown = repr(e)
    steps = {
        "same": [one, one, one],
        "two": [one, two, one, two],
        "fail": [{}, one, {}, two],
        "partial": [dict(list(one.items())[1:]), one, dict(list(two.items())[:-1]), two],
        "const": ["c1", one, "c1", "c2", None, one],
        "none": [None, one, None],
    }[order]
    for i, ctx in enumerate(steps):
        if isinstance(ctx, str):
            cs.consts.update({"c1": two, "c2": three}[ctx])
            ctx = None
        other = fresh(env, cs, text)
        a = env.call(lambda: e.evaluate(ctx) if ctx is not None or i % 2 else e.evaluate())
        b = env.call(lambda: other.evaluate(ctx))
        env.check(a.ok == b.ok, "a used expression behaves differently from a fresh one", lambda: f"{text!r}, evaluation {i} with {ctx}: {a!r} vs {b!r}")
        if a.ok:
            env.check(b_eq(env.raw(a.value), env.raw(b.value)), "evaluating again gives another value", lambda: f"{text!r}, evaluation {i} with {ctx}: {a.value!r} vs {b.value!r}")
            try:
                want = Ref(env, text, {n: env.raw(v) for n, v in {**cs.consts, **(ctx or {})}.items()}, {"uint16": 2}).value()
                env.check(b_eq(env.raw(a.value), want), "value of the expression", lambda: f"{text!r}, evaluation {i} with {ctx} -> {a.value!r}")
            except Outside:
                pass
            env.reach("repeated")
        else:
            env.check(type(a.exc) is type(b.exc) and str(a.exc) == str(b.exc), "another error", lambda: f"{a!r} vs {b!r}")
            env.reach("error")
    env.check(repr(e) == shown, "the text of the expression changed")


def sizeof(env, endian):
    """sizeof of every kind of type."""
    cs = env.load("struct S { uint8 a; uint32 b; }; typedef uint16 ARR[3]; typedef S *PS; enum E : uint16 { A }; union U { uint8 a; uint64 b; }; typedef struct { char x[5]; } TS, TS2;", endian=endian, pointer="uint32")
    sizes = {"S": 5, "ARR": 6, "PS": 4, "E": 2, "U": 8, "TS": 5, "TS2": 5, "uint8": 1, "uint24": 3, "uint48": 6, "uint128": 16, "double": 8, "wchar": 2, "char": 1, "unsigned int": 4, "unsigned long long": 8, "unsigned char": 1, "DWORD": 4, "__int64": 8, "long long": 8}
    t = env.choice("type", list(sizes))
    shape = env.choice("shape", ["sizeof(T)", "sizeof ( T )", "-sizeof(T)", "a - sizeof(T)", "sizeof(T) - a", "sizeof(T) * a + sizeof(uint24)", "a-sizeof(T)-1", "~sizeof(T)", "(sizeof(T))", "a << sizeof(uint8) + sizeof(T)", "2*(sizeof(T)+a)"])
    text = shape.replace("T", t)
    env.tag = text
    a = env.int("a", -100, 100)
    cs.consts["uint8"] = 77  # the operand of sizeof is a type, whatever else has the name
    decide(env, cs, text, {"a": env.raw(a)}, {"a": a}, {}, sizes)
    env.reach("sizeof")


def gaps(env, text, at):
    """Blanks and tabs between tokens change nothing."""
    toks = text.split()
    cs = env.lib.cstruct()
    out = ""
    for i, t in enumerate(toks):
        n = env.choice(f"n{i}", [0, 1, 2]) if i in at else 1
        if n == 0 and out and (str(out[-1:]) + t[0] == "--"):
            n = 1
        out = out + (env.text(f"g{i}", n, " \t") if n else "") + t
    end = env.text("end", 1, " \t")
    out = out + end if 99 in at else out
    env.tag = text
    names = sorted(set(re.findall(r"\b[a-zA-Z]\w*\b", text)) - {"sizeof", "uint16", "x1F", "b101", "ul"})
    vals = {n: env.int(n, 0, 60) for n in names}
    try:
        want = Ref(env, text, {k: env.raw(v) for k, v in vals.items()}, {"uint16": 2}).value()
    except Outside:
        return
    r = env.call(lambda: fresh(env, cs, out).evaluate(vals))
    env.check(r.ok, "spacing made an expression fail", lambda: f"{out!r}: {r!r}")
    env.check(b_eq(env.raw(r.value), want), "spacing changes the value", lambda: f"{out!r} -> {r.value!r}")
    env.observe("value", r.value)
    env.reach("gap")


DEFINES = ["A + B * 2", "A - B - 1", "A << 1 | B", "-A", "(A + B) * (A - B)", "~A & 0xff", "A & B ^ A | B", "010 + A", "sizeof(uint32) + A", "0x10", "0b101", "017", "12", "-12", "10UL", "0xFFu", "A", "(A)", "(-A)", "A - -B", "1 + 2", "2 - 3 - 4", "100 / 7 % 4", "1 << 2 + 3"]  # fmt: skip


def define(env, texts):
    """Constants are defined by expressions over earlier constants."""
    text = env.choice("text", texts)
    env.tag = text
    cs = env.lib.cstruct()
    a, b = env.int("A", 0, 100), env.int("B", 0, 100)
    cs.consts["A"], cs.consts["B"] = a, b
    cs.load(f"#define X {text}\n#define Y X + 1\n#define Z (X * 2) - Y\n")
    want = Ref(env, text, {"A": env.raw(a), "B": env.raw(b)}, {"uint32": 4}).value()
    env.observe("X", cs.consts["X"])
    for n, w in (("X", want), ("Y", op_add(want, 1)), ("Z", op_sub(op_mul(want, 2), op_add(want, 1)))):
        got = cs.consts[n]
        env.check(b_eq(env.raw(got), w), "value of a constant", lambda: f"{n} of {text!r} with A={a} B={b}: {got!r}")
        env.check(b_eq(env.raw(getattr(cs, n)), w), "a constant as an attribute", lambda: n)
    env.reach("define")


def jobs(tier, lib):
    quick = tier == "quick"
    none = [()]
    for op in OPS:
        yield Job(flat, {"op": op, "shapes": PARENS[2], "prefixes": [((0, u), (1, v)) for u in PREFIX for v in PREFIX], "second": None}, cost=10)
        for i in range(0, 10, 5):
            sec = OPS[i : i + 5]
            yield Job(flat, {"op": op, "shapes": PARENS[3], "prefixes": [(), ((0, "-"),), ((1, "-"),), ((2, "~"),)] + ([((0, "~"), (1, "-"), (2, "-"))] if not quick else []), "second": sec}, cost=20)
            yield Job(flat, {"op": op, "shapes": PARENS[3][:3], "prefixes": [(), ((1, "~"),), ((0, "-"), (2, "-"))], "second": sec, "blanks": False}, cost=20)
        for sec in OPS:
            shapes = PARENS[4] if not quick else PARENS[4][:2]
            third = OPS
            yield Job(flat, {"op": op, "shapes": shapes, "prefixes": none if quick else [(), ((1, "-"), (3, "~"))], "second": [sec], "third": third}, cost=20)
    for sec in "&+*":
        yield Job(flat, {"op": "<<", "shapes": PARENS[4], "prefixes": none, "second": [sec], "third": ["-", "|", ">>"]}, cost=20)
        yield Job(flat, {"op": "-", "shapes": PARENS[4], "prefixes": none, "second": [sec], "third": ["-", "|", "/"]}, cost=20)
    suf = ["", "u", "U", "l", "L", "ul", "UL", "lu", "LU", "ll", "LL", "ull", "ULL", "llu", "LLU", "uL", "Ul", "Lu", "lU", "uLL", "Ull", "LLu", "llU"]
    for base in ("", "0", "0x", "0X", "0b", "0B"):
        for digits in range(1, (4 if quick else 6) + 1):
            yield Job(literal, {"base": base, "digits": digits, "suffixes": suf if digits < 3 else suf[:2], "shape": "alone"}, cost=10)
        for shape in ("plus", "minus", "neg", "paren", "mask", "times", "blank"):
            yield Job(literal, {"base": base, "digits": 2, "suffixes": ["", "u", "ULL", "L"], "shape": shape}, cost=10)
    for where in ("context", "const", "both", "extra"):
        for i in range(0, len(IDENTS), 7):
            yield Job(identifier, {"names": IDENTS[i : i + 7], "where": where}, cost=10)
    texts = ["a - b", "-a", "-a - -b", "~a * b + 1", "a * (b - c) + -c", "(a + b) * c - sizeof(uint16)", "a << 2 | b & c", "- - a", "-(a - -b) - c", "a / (b + 1) % 3", "u - 1", "-u + u", "a - u"]
    for order in ("same", "two", "fail", "partial", "const", "none"):
        yield Job(repeat, {"texts": texts, "order": order}, cost=10)
    yield Job(sizeof, {"endian": "<"})
    for text in ["a + b * - c", "- a - - b", "( a + 0x1F ) << 2", "sizeof ( uint16 ) * a", "~ a & 10 | b >> 1", "017 - a % 7", "0b101 ^ b"]:
        n = len(text.split())
        at = list(range(n)) if n <= 6 else list(range(0, n, 2))
        yield Job(gaps, {"text": text, "at": [*at[:4], 99]}, cost=10)
        yield Job(gaps, {"text": text, "at": at[4:] or [0]}, cost=10)
    yield Job(define, {"texts": DEFINES})


_ = (op_shl, op_shr)
