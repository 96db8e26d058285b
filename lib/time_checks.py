"""P19: time stamps (Time, TimeOrder, TimeTrace)."""
import json
import re

import core
import pbf_checks

AHEAD, BEHIND = "{0, 1, 60, 330, 345, 840, 1439}", "{1, 210, 480, 720, 1439}"
TEXT = re.compile(r"^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:Z|([+-])(\d\d):(\d\d))$")


def text(t, rng=None):
    """[year, month, day, second of the day, offset] as ISO text"""
    y, mo, d, s, off = t
    z = "Z" if off == 0 and (rng is None or rng.random() < 0.7) else f"{'-' if off < 0 else '+'}{abs(off) // 60:02d}:{abs(off) % 60:02d}"
    return f"{y:04d}-{mo:02d}-{d:02d}T{s // 3600:02d}:{s // 60 % 60:02d}:{s % 60:02d}{z}"


def parse(s):
    m = TEXT.match(s)
    if not m:
        return None
    y, mo, d, h, mi, se = map(int, m.groups()[:6])
    off = 0
    if m.group(7):
        off = (int(m.group(8)) * 60 + int(m.group(9))) * (-1 if m.group(7) == "-" else 1)
    return [y, mo, d, h * 3600 + mi * 60 + se, off]


def num(day, sec):
    return day * 86400 + sec


def conversions(c, recs, thin=1):
    """What the calendar says of each day, in both directions"""
    items, meta = [], []
    for r in recs:
        for t in r["t"]:
            n, day = num(r["day"], t["s"]), r["day"]
            if t["text"][4] == 0:
                items.append({"what": "conv", "a": {"num": n}})
                meta.append((n, t["text"], "num"))
            if thin > 1 and r["day"] % thin:
                continue
            s = text(t["text"], c.rng)
            items.append({"what": "conv", "a": {"iso": s}})
            meta.append((n, t["text"], "iso"))
            items.append({"what": "parse", "s": s})
            meta.append((n, t["text"], "parse"))
    size = 400
    cases = [{"op": "time", "what": "many", "items": items[i:i + size]} for i in range(0, len(items), size)]
    for k, (case, r) in enumerate(zip(cases, c.run_cases(cases))):
        bad = core.bad_run(r)
        if bad:
            c.fail(f"converting time stamps: {bad}", case)
            continue
        for it, (n, t, how), o in zip(case["items"], meta[k * size:], r):
            c.validated += 1
            what = check_conversion(n, t, how, it, o)
            if what:
                c.fail(f"{json.dumps(it.get('a', it.get('s')))}: {what}", it, {"epoch": n, "text": text(t)}, o)


def check_conversion(n, t, how, it, o):
    if o == "panic":
        return "panics"
    if how == "parse":
        return None if o != "err" and o["ok"] in ({"num": n}, {"iso": it["s"]}) else f"parsed as {o}"
    if o["num"] != n:
        return f"is {o['num']} as a number, not {n}"
    if o["serde"] != [it["a"], it["a"]]:
        return f"comes back as {o['serde']} from its serialised form"
    if o["util"] != (n if how == "iso" else o["iso"]):
        return f"is {o['util']} by the conversion function"
    if how == "iso":
        return None if o["iso"] == it["a"]["iso"] and o["disp"] == o["iso"] else f"is {o['iso']} (shown as {o['disp']}) as text"
    for k in ("iso", "disp"):
        if o[k] != text(t) and (not isinstance(o[k], str) or parse(o[k]) != t):
            return f"is {o[k]} as text, not {text(t)}"


SIGN = {-1: ("lt", False, True, True, True, False, False), 0: ("eq", True, False, False, True, False, True),
        1: ("gt", False, True, False, False, True, True)}


def stamp(p, rng=None):
    return {"num": num(p["day"], p["sec"])} if p["num"] else {"iso": text(p["text"], rng)}


def order(c, recs):
    items = [{"what": "cmp", "a": stamp(r["a"], c.rng), "b": stamp(r["b"], c.rng)} for r in recs]
    size = 400
    cases = [{"op": "time", "what": "many", "items": items[i:i + size]} for i in range(0, len(items), size)]
    for k, (case, r) in enumerate(zip(cases, c.run_cases(cases))):
        bad = core.bad_run(r)
        if bad:
            c.fail(f"comparing time stamps: {bad}", case)
            continue
        for it, rec, o in zip(case["items"], recs[k * size:], r):
            c.validated += 1
            if o == "panic" or tuple(o) != SIGN[rec["o"]]:
                c.fail(f"{json.dumps(it['a'])} compared with {json.dumps(it['b'])}: {o}, not {SIGN[rec['o']]}", it, SIGN[rec["o"]], o)


def traces(c, n, length):
    """Random time stamps over all years, converted and compared; TLC judges the records"""
    def rnd(base=None):
        if base is not None and c.rng.random() < 0.6:
            day, sec = base
            sec += c.rng.choice([0, 0, 1, -1, 60, 3600, -3600, 86399])
            day, sec = day + sec // 86400, sec % 86400
        else:
            day, sec = c.rng.choice([c.rng.randint(-719000, 2932000), c.rng.randint(-1000, 30000)]), c.rng.randrange(86400)
        return day, sec

    cases, meta = [], []
    for _ in range(n):
        items, base = [], rnd()
        for _ in range(length):
            p = rnd(base)
            if c.rng.random() < 0.4:
                items.append({"what": "conv", "a": {"num": num(*p)}})
                continue
            q = rnd(p)
            side = lambda x: {"num": num(*x)} if c.rng.random() < 0.4 else {"iso": iso_near(x, c.rng)}
            items.append({"what": "cmp", "a": side(p), "b": side(q)})
        cases.append({"op": "time", "what": "many", "items": items})
    trs, origin = [], []
    for case, r in zip(cases, c.run_cases(cases)):
        bad = core.bad_run(r)
        if bad:
            c.fail(f"time stamps: {bad}", case)
            continue
        ev = []
        for it, o in zip(case["items"], r):
            if o == "panic":
                c.fail(f"{json.dumps(it)} panics", it)
            elif it["what"] == "conv":
                v = it["a"]["num"]
                ev.append({"c": "conv", "text": parse(str(o["iso"])) or [0, 1, 1, 0, 0], "day": v // 86400, "sec": v % 86400})
            else:
                f = lambda x: [x["num"] // 86400, x["num"] % 86400] if "num" in x else parse(x["iso"])
                ev.append({"c": "cmp", "a": f(it["a"]), "b": f(it["b"]), "o": {"lt": -1, "eq": 0, "gt": 1}.get(o[0], 9)})
        trs.append({"e": ev})
        origin.append((case, r))

    def spoil(t):
        t = json.loads(json.dumps(t))
        e = c.rng.choice(t["e"])
        if e["c"] == "conv":
            e["sec"] = (e["sec"] + 1) % 86400
        else:
            e["o"] = 1 if e["o"] == 0 else 0
        return t

    pbf_checks.validate(c, "TimeTrace", trs, origin, spoil, lambda t: len(t["e"]))


def iso_near(p, rng):
    """A text around the instant: its fields are not computed from it, TLC finds out what it denotes"""
    day, sec = p
    import datetime
    d = datetime.date.fromordinal(day + datetime.date(1970, 1, 1).toordinal())
    return text([d.year, d.month, d.day, sec, rng.choice([0, 0, 60, -60, 330, 840, -720, 1])], rng)


def p19(c):
    years = sorted({1, 4, 100, 1582, 1600, 1899, 1900, 1901, 1904, 1968, 1969, 1970, 1972, 1999, 2000, 2004, 2024, 2037, 2038, 2100, 2105, 2106,
                    2400, 9998} | {c.rng.randint(1, 9998) for _ in range(8)})
    near = {"Ahead": AHEAD, "Behind": BEHIND}
    sec = lambda n: "{0, 86399, " + ", ".join(str(c.rng.randrange(86400)) for _ in range(n)) + "}"
    recs = c.tlc("Time", consts={"Years": "{" + ", ".join(map(str, years)) + "}", "Span": 370, "Seconds": sec(1), **near})
    if not c.thorough:
        for r in recs:
            if r["date"][1:] not in ([1, 1], [12, 31], [2, 28], [2, 29], [3, 1]):
                r["t"] = c.rng.sample(r["t"], 6)
    conversions(c, recs)
    c.notes["days"] = len(recs)
    if c.thorough:
        # the whole calendar, in turns
        for turn in range(0, 10000, 2000):
            recs = c.tlc("Time", consts={"Years": "{" + ", ".join(map(str, range(turn, turn + 2000, 50))) + "}", "Span": 18270,
                                         "Seconds": "{" + str(c.rng.randrange(86400)) + "}", "Ahead": "{0}", "Behind": "{}"})
            conversions(c, recs, 5)
            c.notes["days"] += len(recs)
            recs = None
    # days since 0000-01-01: the epoch, its neighbourhood, ends of months, leap days, 2038 and 2106, far ones
    days = [719528, 719527, 719528 + 11016, 719528 + 24855, 719528 + 49710, 719528 - 25567, 366 + 365, 3652000, c.rng.randint(400, 3650000)]
    recs = c.tlc("TimeOrder", consts={"Days": "{" + ", ".join(map(str, c.pick(days[:6], days))) + "}", "Deltas": c.pick("{0, 1, 3600}", "{0, 1, 60, 3600, 18000}"),
                                      "Ahead": c.pick("{0, 60, 345}", "{0, 60, 345, 840}"), "Behind": c.pick("{60}", "{60, 720}")})
    order(c, recs)
    c.notes["pairs_compared"] = len(recs)
    traces(c, c.pick(150, 2000), 30)
    c.sample({"pair": recs[0]})
