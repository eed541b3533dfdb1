"""Random building blocks for datasets (all JSON-able)."""
import math

ALLOC = "allocatable product"


def q(r):
    """Rational of the specification -> number (int if integral)."""
    n, d = int(r[0]), int(r[1])
    if d == 0:
        return None
    return n // d if n % d == 0 else n / d


def pick(rnd, *xs):
    return xs[rnd.randrange(len(xs))]


def amount(rnd, zero=0.1, neg=0.3, dyadic=False, extreme=0.15):
    """A number with many shapes: ints, dyadics, arbitrary doubles, extremes."""
    if rnd.random() < zero:
        return pick(rnd, 0, 0.0)
    if dyadic:
        x = rnd.randrange(1, 33) / pick(rnd, 1, 1, 2, 4)
    else:
        k = rnd.random()
        if k < 0.3:
            x = rnd.randrange(1, 12)
        elif k < 0.5:
            x = rnd.randrange(1, 64) / 8
        elif k < 1 - extreme:
            x = rnd.uniform(0.001, 50)
        else:
            x = pick(rnd, 1e-14, 1e-9, 1e-6, 1e-3, 1e6, 1e9, 3.6e12, 0.999999999, 1.0000000001, 1 - 1e-13, 1, 1.0)
    return -x if rnd.random() < neg else x


def uncertainty(rnd, amt, p=0.5):
    """A distribution consistent with the amount, or none."""
    if rnd.random() > p:
        return None
    t = pick(rnd, "lognormal", "normal", "triangular", "uniform", "undefined")
    a = abs(amt)
    if t == "lognormal":
        if not amt:
            return None
        v = pick(rnd, 0.0006, 0.01, 0.2, 0.5)
        return {"type": t, "mean": a, "mu": math.log(a), "negative": amt < 0, "variance": v,
                "variance with pedigree uncertainty": v + pick(rnd, 0, 0.04)}
    if t == "normal":
        v = pick(rnd, 0.0625, 0.5, 2) * (a or 1)
        return {"type": t, "mean": amt, "variance": v, "variance with pedigree uncertainty": v * pick(rnd, 1, 1.5)}
    w = pick(rnd, 0.25, 0.5, 1, 3) * (a or 1)
    if t == "triangular":
        return {"type": t, "minimum": amt - w, "mode": amt, "maximum": amt + w * pick(rnd, 1, 0.5, 2)}
    if t == "uniform":
        return {"type": t, "minimum": amt - w, "maximum": amt + w}
    return {"type": t, "minimum": amt - w, "maximum": amt + 2 * w}


def with_unc(rnd, e, p=0.5):
    u = uncertainty(rnd, e["amount"], p)
    if u:
        e["uncertainty"] = u
    return e


def price(a):
    return {"name": "price", "amount": a, "unit": "EUR2005", "id": "38f94dd1-d5aa-41b8-b182-c0c42985d9dc"}


def tv(a):
    return {"name": "true value relation", "amount": a, "unit": "dimensionless", "id": "tv"}


NAMES = ["steel", "Steel", "steel, low-alloyed", "zinc oxide", "blé", "2,3-dimethylbutan", "heat", "refinery gas",
         "manure, liquid, cattle", "steel scrap", "copper'", "x-ray (medical)", "waste paper", "a", "A", "biogas"]


def names(rnd, n):
    return rnd.sample(NAMES, n)


def wrap(excs, i="d1", name="act", type_="transforming activity", params=None, **kw):
    d = {"id": i, "name": name, "type": type_, "location": kw.pop("location", "GLO"), "filepath": i + ".spold",
         "start date": "2001-01-01", "end date": "2010-12-31", "access restricted": "public",
         "economic scenario": "Business-as-Usual", "technology level": "current", "dataset author": "x", "data entry": "y",
         "parameters": params or [], "exchanges": excs}
    d.update(kw)
    return d


# ------------------------------------------------------------------ formulas
def render(f):
    t = f[0]
    if t == "n":
        v = q(f[1])
        return "(%r)" % v if v < 0 else "%r" % v
    if t == "v":
        return f[1]
    if t in "+-*/" and len(t) == 1:
        return "(%s %s %s)" % (render(f[1]), t, render(f[2]))
    if t == "neg":
        return "(-%s)" % render(f[1])
    if t == "abs":
        return "abs(%s)" % render(f[1])
    if t == "pow":
        return "(%s ** %d)" % (render(f[1]), f[2])
    if t == "if":
        rel = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "=="}[f[1][0]]
        return "(%s if %s %s %s else %s)" % (render(f[2]), render(f[1][1]), rel, render(f[1][2]), render(f[3]))
    raise ValueError(t)


class Inexact(Exception):
    pass


def evalf(f, env):
    """Exact evaluation of a formula; raises Inexact when a double cannot hold
    an intermediate value (so that the order of evaluation cannot matter) and
    ZeroDivisionError for division by zero."""
    from fractions import Fraction
    t = f[0]
    if t == "n":
        return Fraction(q(f[1]))
    if t == "v":
        return env[f[1]]
    if t == "neg":
        return -evalf(f[1], env)
    if t == "abs":
        return abs(evalf(f[1], env))
    if t == "pow":
        x = evalf(f[1], env) ** f[2]
    elif t == "if":
        a, b = evalf(f[1][1], env), evalf(f[1][2], env)
        c = {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b}[f[1][0]]
        return evalf(f[2], env) if c else evalf(f[3], env)
    else:
        a, b = evalf(f[1], env), evalf(f[2], env)
        x = a + b if t == "+" else a - b if t == "-" else a * b if t == "*" else a / b
    if abs(x) > 2 ** 40 or (x and abs(x) < Fraction(1, 2 ** 40)) or Fraction(float(x)) != x:
        raise Inexact
    return x


def evalz(f, env):
    try:
        return evalf(f, env)
    except ZeroDivisionError:
        from fractions import Fraction
        return Fraction(0)


def rat(x):
    from fractions import Fraction
    f = Fraction(x)
    return [f.numerator, f.denominator]


def fnum(x):
    """Fraction with exact double -> int or float"""
    return int(x) if x.denominator == 1 else float(x)


def ast(rnd, vars_, depth=3, div=True, dens=()):
    """Random formula over vars_; divides by powers of two, by dens, or by zero."""
    k = rnd.random()
    if depth == 0 or k < 0.2:
        if vars_ and rnd.random() < 0.65:
            return ["v", rnd.choice(vars_)]
        return ["n", rat(pick(rnd, 0, 1, 2, 3, 0.5, 0.25, 5, -1, 10))]
    sub = lambda: ast(rnd, vars_, depth - 1, div, dens)
    if k < 0.42:
        return ["+", sub(), sub()]
    if k < 0.62:
        return ["*", sub(), sub()]
    if k < 0.72:
        return ["-", sub(), sub()]
    if k < 0.78:
        return ["/", sub(), ["n", rat(pick(rnd, 1, 2, 4, 0.5))]]
    if k < 0.84 and div:
        if dens:
            return ["/", sub(), ["v", rnd.choice(list(dens))]]
        v = ["v", rnd.choice(vars_)] if vars_ else ["n", [1, 1]]
        return ["/", sub(), ["-", v, v]]
    if k < 0.87:
        return ["neg", sub()]
    if k < 0.90:
        return ["abs", sub()]
    if k < 0.93:
        return ["pow", sub(), 2]
    return ["if", [pick(rnd, "lt", "le", "gt", "ge", "eq"), sub(), sub()], sub(), sub()]
