"""P20: coordinates (Coord, CoordTexts, CoordTrace)."""
import json
import math
import struct
from fractions import Fraction

import core
import pbf_checks

UNIT = 10**7
LO, HI = -2**31, 2**31 - 1
NOT_NUMBERS = ["", " ", "-", "+", ".", "-.", "nan", "NaN", "-nan", "inf", "-inf", "infinity", "1e", "1e+", "e5", "1e400", "-1e400", "1e5e5", "1.e", "0x1", "1_0",
               "1 ", " 1", "\t1", "1\n", "1,5", "１", "1d", "1f", "--1", "+-1", "1-", "north", "1°", "1.5.2", "1'", "\"1\"", "null", "None", "1\u0000", "1e3.5", "51°28'40\"N"]


def many(c, items, size=1000):
    """Outcomes of conversions, in order; a crash is reported and yields None"""
    cases = [{"op": "coord", "axis": items[k]["axis"], "what": "many", "items": items[k:k + size]} for k in range(0, len(items), size)]
    out = []
    for case, r in zip(cases, c.run_cases(cases)):
        bad = core.bad_run(r)
        if bad:
            c.fail(f"converting coordinates: {bad}", case)
            out += [None] * len(case["items"])
        else:
            out += r
    return out


def value_problem(v):
    """A value must be shown as itself and survive the way to degrees, or text, and back"""
    n = v["inner"]
    for k, what in (("deg", "degrees"), ("s", "text")):
        try:
            x = Fraction(v[k])
        except ValueError:
            return f"{n} is {v[k]!r} in {what}"
        if abs(x * UNIT - n) * 100 > 1:
            return f"{n} is {v[k]} in {what}"
    if not v["same64"]:
        return f"{n}: into f64 is not degrees()"
    for k, what in (("back", "degrees"), ("sback", "text"), ("dback", "debug text")):
        if v[k] != n:
            return f"{n} comes back as {v[k]} from {what}"
    if v["jback"] != [n, n]:
        return f"{n} comes back as {v['jback']} from its serialised form"
    if not v["idegsame"]:
        return f"{n}: lat_lon_inner_to_degrees is not degrees()"
    for y, o, p, eq, lt in v["cmp"]:
        sign = (n > y) - (n < y)
        if (o, p, eq, lt) != (sign, sign, n == y, n < y):
            return f"{n} compared with {y} is {o}, {p}, equal: {eq}, less: {lt}"


def judge(c, it, o, allowed, neg):
    c.validated += 1
    if o is None:
        return
    if "panic" in o:
        c.fail(f"{it['axis']} {it['what']} {it['s']!r} panics", it, allowed, o)
    elif "err" in o:
        if ["no"] not in allowed:
            c.fail(f"{it['axis']} {it['what']} {it['s']!r} is rejected", it, allowed, o)
    else:
        n = o["ok"]["inner"]
        if not any(len(a) == 2 and (-1 if neg else 1) * (a[0] * UNIT + a[1]) == n for a in allowed):
            c.fail(f"{it['axis']} {it['what']} {it['s']!r} became {n}", it, allowed, o)
        else:
            bad = value_problem(o["ok"])
            if bad:
                c.fail(f"{it['axis']} {it['what']} {it['s']!r}: {bad}", it, allowed, o)


def replay(c, recs):
    items, meta = [], []
    for k, r in enumerate(recs):
        axes = ("lat", "lon") if c.thorough else (("lat", "lon")[k % 2],)
        for axis in axes:
            items.append({"op": "coord", "axis": axis, "what": "text", "s": r["text"]})
            meta.append(r)
            if r["out"] != [["no"]] or "number" in r:
                # as a number, it is the nearest double: no tie becomes anything else than a tie
                items.append({"op": "coord", "axis": axis, "what": "num", "s": r["text"]})
                meta.append(r)
    for it, r, o in zip(items, meta, many(c, items)):
        judge(c, it, o, r["out"], r["neg"])


def denotes(x):
    """A rational, as CoordTrace wants it"""
    neg, x = x < 0, abs(x)
    if x >= 100000:
        return {"num": True, "neg": neg, "w": 99999, "f": [0, 0], "dust": True}
    units = math.floor(x * UNIT)
    thousandths = (x * UNIT - units) * 1000
    return {"num": True, "neg": neg, "w": units // UNIT, "f": [units % UNIT, math.floor(thousandths)], "dust": thousandths.denominator != 1}


def resolvable(x):
    """Not closer to a tie, or to the end of the range, than double precision resolves (unless exactly on it)"""
    t = abs(x) * UNIT * 2
    near = abs(t - round(t))
    return near == 0 or near > Fraction(1, 10**5) or abs(x) > 10**5


def random_input(c):
    """[kind, text given to the harness, the exact number]"""
    rng = c.rng
    kind = rng.choice(["text", "text", "num", "num32", "num32", "inner"])
    base = rng.choice([rng.uniform(-180, 180), rng.uniform(-215, 215), rng.uniform(-1, 1), rng.uniform(-1e-5, 1e-5), rng.choice([-1, 1]) * 214.7483647 + rng.uniform(-3e-7, 3e-7),
                       rng.choice([0, 90, -90, 180, -180, 128, -64, 16]) + rng.uniform(-2e-6, 2e-6), rng.uniform(-1000, 1000), rng.choice([-1, 1]) * 10.0 ** rng.randint(-320, 308)])
    if kind == "inner":
        # half way or exact: dyadic multiples of the unit
        n = rng.choice([rng.randint(LO, HI), rng.randint(-1000, 1000), HI - rng.randint(0, 3), LO + rng.randint(0, 3)])
        x = Fraction(n * 10 + rng.choice([0, 0, 1, 4, 5, 6, 9]), 10 * UNIT)
        s = f"{'-' if x < 0 else ''}{abs(x.numerator * (10 * UNIT // x.denominator)) // (10 * UNIT)}.{abs(x.numerator * (10 * UNIT // x.denominator)) % (10 * UNIT):08d}"
        return "text", s, x
    if kind == "num32":
        v = struct.unpack("f", struct.pack("f", max(-3e38, min(3e38, base))))[0]
        if rng.random() < 0.4:
            v = struct.unpack("f", struct.pack("f", rng.choice([-1, 1]) * rng.randint(1, 2**24) * 2.0 ** rng.randint(-34, -14)))[0]
        return kind, repr(v), Fraction(v)
    if kind == "num":
        return kind, repr(base), Fraction(base)
    s = rng.choice(["%r", "%.7f", "%.8f", "%.9f", "%.3e", "%.10e", "%+.7f", "%.0f", "%012.6f"]) % base
    if rng.random() < 0.1 and "e" in s:
        s = s.replace("e", "E")
    return "text", s, Fraction(s)


def traces(c, n, length):
    items, exact = [], []
    for _ in range(n * length):
        while True:
            kind, s, x = random_input(c)
            if resolvable(x):
                break
        items.append({"op": "coord", "axis": c.rng.choice(["lat", "lon"]), "what": kind, "s": s})
        exact.append(denotes(x))
        if c.rng.random() < 0.03:
            items.append({"op": "coord", "axis": c.rng.choice(["lat", "lon"]), "what": "text", "s": c.rng.choice(NOT_NUMBERS)})
            exact.append({"num": False, "neg": False, "w": 0, "f": [0, 0], "dust": False})
    got = many(c, items)
    trs, origin = [], []
    for k in range(0, len(items), length):
        ev = []
        for it, e, o in zip(items[k:k + length], exact[k:k + length], got[k:k + length]):
            if o is None:
                continue
            if "panic" in o:
                c.fail(f"{json.dumps(it)} panics", it)
                continue
            e = dict(e, out=["no"])
            if "ok" in o:
                v = o["ok"]["inner"]
                bad = value_problem(o["ok"])
                if bad:
                    c.fail(f"{it['axis']} {it['what']} {it['s']!r}: {bad}", it, None, o)
                # one zero: its sign is not seen
                if v != 0 and (v < 0) != e["neg"]:
                    e["out"] = ["no", "no"]
                else:
                    e["out"] = [abs(v) // UNIT, abs(v) % UNIT]
            ev.append(e)
        trs.append({"e": ev})
        origin.append((items[k:k + length], got[k:k + length]))

    def spoil(t):
        t = json.loads(json.dumps(t))
        e = c.rng.choice(t["e"])
        e["out"] = [e["out"][0], (e["out"][1] + 2) % UNIT] if len(e["out"]) == 2 else [1, 2]
        return t

    pbf_checks.validate(c, "CoordTrace", trs, origin, spoil, lambda t: len(t["e"]))


def sweep(c, ranges, text):
    """Representable values to degrees (and text) and back"""
    cases = [{"op": "coord", "axis": axis, "what": "sweep", "from": a, "to": b, "text": text} for axis in ("lat", "lon") for a, b in ranges]
    total = 0
    for case, r in zip(cases, c.run_cases(cases)):
        bad = core.bad_run(r)
        if bad or r.get("bad") or "n" not in r:
            c.fail(f"representable values of {case['axis']} {case['from']}..{case['to']}: {bad or r}", case, "each comes back unchanged", r)
        else:
            total += r["n"]
    c.validated += total
    c.notes["values_round_trip" + ("_text" if text else "")] = total


def pieces(a, b, size):
    return [(x, min(x + size - 1, b)) for x in range(a, b + 1, size)]


def p20(c):
    digits = "{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}"
    junk = '{" ", ",", "x", "_"}'
    short = c.tlc("CoordTexts", "CoordShort", consts={"Digits": c.pick("{0, 1, 5, 9}", "{0, 1, 4, 5, 9}"), "MaxWhole": 100, "MaxFrac": 4, "MaxMore": c.pick(5, 6), "Junk": junk})
    replay(c, pbf_checks.sample_records(c, short, c.pick(60000, 10**7)))
    long1 = c.tlc("CoordTexts", "CoordLong", consts={"Digits": digits, "MaxWhole": 215, "MaxFrac": 9, "MaxMore": c.pick(3, 4), "Junk": "{}"})
    long2 = c.tlc("CoordTexts", "CoordLong", consts={"Digits": "{0, 4, 5, 9}", "MaxWhole": 215, "MaxFrac": 11, "MaxMore": c.pick(4, 5), "Junk": '{" "}'})
    replay(c, long1)
    replay(c, long2)
    for s in NOT_NUMBERS:
        for axis in ("lat", "lon"):
            it = {"op": "coord", "axis": axis, "what": "text", "s": s}
            judge(c, it, many(c, [it])[0], [["no"]], False)
    items = [{"op": "coord", "axis": a, "what": w, "s": s} for a in ("lat", "lon") for w in ("num", "num32") for s in ("NaN", "inf", "-inf", "1e38", "-1e38", "215", "-215", "1e11")]
    for it, o in zip(items, many(c, items)):
        judge(c, it, o, [["no"]], False)
    traces(c, c.pick(300, 6000), 60)
    if c.thorough:
        sweep(c, pieces(LO, HI, 2**24), False)
        starts = [c.rng.randint(LO, HI - 2**20) for _ in range(600)]
        sweep(c, pieces(LO, LO + 2**24, 2**22) + pieces(-2**24, 2**24, 2**22) + pieces(HI - 2**24, HI, 2**22) + [(s, s + 2**20) for s in starts], True)
    else:
        starts = [c.rng.randint(LO, HI - 2**17) for _ in range(60)]
        near = [(x - 2**16, x + 2**16) for x in (0, 900000000, -900000000, 1800000000, -1800000000, 2**24, -2**24, 2**30, -2**30)]
        ends = [(LO, LO + 2**17), (HI - 2**17, HI)]
        sweep(c, ends + near + [(s, s + 2**15) for s in starts], True)
        sweep(c, pieces(-2**23, 2**23, 2**21) + [(s, s + 2**17) for s in starts], False)
    c.sample({"text": long1[-1]})
