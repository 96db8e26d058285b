"""P27: objects are values (ObjCopy, ObjCopyHist, ObjCopyTrace)."""
import json

import core
import obj_checks
import pbf
import pbf_checks
import writer_checks
import xmldoc

NOT = "-"      # kind of a slot without an object
KINDS = '{"n", "w", "r"}'
LONG = obj_checks.LONG
ZONES = [("Z", 0), ("+00:00", 0), ("+02:00", 7200), ("-05:30", -19800), ("+14:00", 50400)]


class Conc(obj_checks.Conc):
    """The same instant in many ways"""

    def __init__(self, rng=None):
        super().__init__(rng)
        self.rng = rng

    def stamp(self, x):
        t = self.when(x)
        k = 0 if self.rng is None else self.rng.random()
        if k < 0.5 or not 10**6 < t < 2 * 10**11:
            return {"num": t}
        z, s = self.rng.choice(ZONES)
        return {"iso": xmldoc.iso(t + s)[:-1] + z}


def readable(o, e):
    return (o["t"] != "n" or o["ll"]) and all((e[k] or 0) < 2**31 for k in ("ver", "uid", "cs"))


def concrete(conc, o):
    e = conc.want(o)
    return dict(e, ts=None if o["ts"] == obj_checks.NONE else {"num": conc.when(o["ts"])})


def xml_of(objs):
    """A document with these objects"""
    q = lambda s: "".join(f"&#{ord(ch)};" if ch in "&<>\"'\n\t\r" or ord(ch) > 126 else ch for ch in str(s))
    out = ['<osm version="0.6">']
    for d in objs:
        at = [("id", d["id"]), ("version", d["ver"]), ("visible", "false" if d["del"] else "true"), ("changeset", d["cs"]),
              ("timestamp", None if d["ts"] is None else xmldoc.iso(d["ts"]["num"])), ("uid", d["uid"]), ("user", d["user"])]
        if d["t"] == "n" and d["ll"]:
            at += [("lat", xmldoc.deg_text(d["ll"][0])), ("lon", xmldoc.deg_text(d["ll"][1]))]
        name = LONG[d["t"]]
        out.append(f"<{name} " + " ".join(f'{k}="{q(v)}"' for k, v in at if v is not None) + ">")
        out += [f'<nd ref="{r}"/>' for r in d.get("nodes", [])]
        out += [f'<member type="{LONG[t]}" ref="{r}" role="{q(role)}"/>' for t, r, role in d.get("mem", [])]
        out += [f'<tag k="{q(k)}" v="{q(v)}"/>' for k, v in d["tags"]]
        out.append(f"</{name}>")
    return "".join(out + ["</osm>"]).encode()


def in_xml(o, e, conc):
    t = None if o["ts"] == obj_checks.NONE else conc.when(o["ts"])
    text = [e["user"] or ""] + [s for kv in e["tags"] for s in kv] + [r for _, _, r in e.get("mem", [])]
    return (t is None or 0 <= t < 2 * 10**11) and all(ch in "\n\t\r" or ord(ch) >= 32 and ch not in "\ufffe\uffff" for s in text for ch in s)


def variants(c):
    out = [(rp, wrap, how) for rp in ("arc", "string") for wrap in (False, True) for how in ("set", "shared", "mixed")]
    out += [("string", wrap, "xml") for wrap in (False, True)]
    if c.hook:
        out += [("rc", False, "set"), ("rc", True, "set")]
    return out


def kinds_of(rec_slots, steps=()):
    return {o["t"] for o in rec_slots} - {NOT}


def case_of(conc, start, hist, variant, rng):
    rp, wrap, how = variant
    kinds = kinds_of(start)
    wrap = wrap or len(kinds) != 1
    slots, groups, n = [], [], 0
    for k, o in enumerate(start):
        if o["t"] == NOT:
            slots.append(None)
            continue
        e = concrete(conc, o)
        ok = (readable(o, e) and (how != "xml" or in_xml(o, e, conc)))
        if how != "set" and ok and not (how == "mixed" and rng is not None and rng.random() < 0.4):
            kv = ["needed", "always", "mixed"][k % 3] if rng is None else rng.choice(["always", "needed", "mixed"])
            groups.append((e, kv))
            slots.append({"nth": n})
            n += 2 if kv == "mixed" and o["t"] == "n" and how != "xml" else 1
            continue
        full = dict(e, ll=e.get("ll"), nodes=e.get("nodes", []), mem=e.get("mem", []), ts=None if e["ts"] is None else conc.stamp(o["ts"]))
        if rp == "string" and (k % 2 if rng is None else rng.random() < 0.5):
            slots.append({"built": full})
            continue
        slots.append({"from": full, "t": o["t"], "seed": writer_checks.SEEDS[o["t"]]})
    steps = []
    for p in hist:
        i, j = p["i"] - 1, p["j"] - 1
        if p["op"] == "copy":
            ways = ["clone", "clone_from", "inner_from", "swapped"]
            steps.append([ways[(i + 2 * j + len(steps)) % 4] if rng is None else rng.choice(ways), i, j])
        elif p["op"] == "drop":
            steps.append(["drop", 0, j])
        else:
            steps.append(["edit", 0, j, conc.call(p["x"], rng)])
    case = {"op": "copy", "repr": rp, "wrap": wrap, "t": min(kinds, default="n"), "slots": slots, "steps": steps}
    if groups:
        case["file"] = (xml_of([e for e, _ in groups]) if how == "xml" else pbf.objects_file(groups)).hex()
        case["xml"] = how == "xml"
    return case


def name(case):
    return f"{case['repr']} objects{' (as any object)' if case['wrap'] else ''}"


def observations(c, case, r):
    bad = core.bad_run(r)
    if bad is None and isinstance(r, dict):
        bad = "panics: " + str(r.get("panic", r))[:200]
    if bad is None and "panic" in r[-1]:
        bad = f"step {len(r) - 1} ({json.dumps(case['steps'][len(r) - 2])[:200]}) panics: {r[-1]['panic'][:200]}"
    if bad is None and len(r) != len(case["steps"]) + 1:
        bad = "steps are missing"
    if bad:
        c.fail(f"{name(case)}: {bad}", case, observed=r)
        return None
    return r


def check(c, case, conc, rec, obs):
    for n, (want, eq, o) in enumerate(zip(rec["x"], rec["eq"], obs)):
        after = f"{name(case)} after {json.dumps(case['steps'][:n][-4:], ensure_ascii=False)[:300]}"
        for k, (x, have) in enumerate(zip(want, o["o"])):
            if x["t"] == NOT:
                if have is not None:
                    return c.fail(f"{after}: slot {k} holds something", case, None, have)
                continue
            e = conc.want(x)
            d = "nothing there" if have is None else xmldoc.diff(e, have)
            if d:
                return c.fail(f"{after}: slot {k}: {d}", case, e, have)
        for i, row in enumerate(eq):
            for j, same in enumerate(row):
                held = want[i]["t"] != NOT and want[j]["t"] != NOT
                if o["eq"][i][j] != same or o["ne"][i][j] != (held and not same):
                    return c.fail(f"{after}: slots {i} and {j} hold {'equal' if same else 'different'} objects, but == is {o['eq'][i][j]}, != is {o['ne'][i][j]}",
                                  case, [want[i], want[j]], [o["o"][i], o["o"][j]])
        c.events += 1


def replay(c, recs, vs, k):
    cases, meta = [], []
    for n, rec in enumerate(recs):
        for j in range(k):
            rng = None if (n + j) % 4 == 0 else c.rng
            conc = Conc(rng)
            case = case_of(conc, rec["s"], rec["h"], vs[(n + 5 * j) % len(vs)], rng)
            cases.append(case)
            meta.append((conc, rec))
    for case, (conc, rec), r in zip(cases, meta, c.run_cases(cases)):
        c.validated += 1
        obs = observations(c, case, r)
        if obs is not None:
            check(c, case, conc, rec, obs)
    if cases:
        c.sample({"case": name(cases[-1]), "steps": cases[-1]["steps"], "equal": meta[-1][1]["eq"][-1]})


# ---------------------------------------------------------------- long random histories, as traces

EMPTY = {"t": NOT, "id": 0, "ver": -1, "del": False, "cs": -1, "ts": -1, "uid": -1, "user": -1, "tags": [], "ll": [], "nodes": [], "mem": []}


def near(rng, o):
    """The same object, but for a detail"""
    o = json.loads(json.dumps(o))
    k = rng.choice(["id", "ver", "del", "cs", "ts", "uid", "user", "tags", "rest", "none"])
    if k == "del":
        o["del"] = not o["del"]
    elif k == "tags":
        def other():
            if o["tags"]:
                rng.choice(o["tags"])[1] = 6

        rng.choice([o["tags"].reverse, o["tags"].clear, lambda: o["tags"] and o["tags"].pop(), other])()
    elif k == "rest":
        f = {"n": "ll", "w": "nodes", "r": "mem"}[o["t"]]
        if o[f] and rng.random() < 0.5:
            # one component of one entry
            i = rng.randrange(len(o[f]))
            if f == "mem":
                j = rng.randrange(3)
                o[f][i][j] = rng.randint(1, 3) if j == 0 else rng.randint(0, 5)
            else:
                o[f][i] = rng.randint(0, 5)
        else:
            rng.choice([o[f].reverse, o[f].clear if f != "ll" else o[f].reverse])()
    elif k != "none":
        o[k] = rng.randint(0 if k in ("id", "user") else -1, 9)
    return o


def traces(c, n, length, vs):
    cases, meta = [], []
    for i in range(n):
        t = "nwr"[i % 3]
        first = obj_checks.random_start(c.rng, t)
        width = c.rng.choice([2, 3, 3, 4, 6])
        start = [first] + [c.rng.choice([EMPTY, near(c.rng, first), near(c.rng, first), first,
                                         obj_checks.random_start(c.rng, t if c.rng.random() < 0.7 else c.rng.choice("nwr"))])
                           for _ in range(width - 1)]
        held = [o["t"] for o in start]
        hist = []
        for _ in range(c.rng.randint(1, length)):
            full = [k for k, h in enumerate(held) if h != NOT]
            k = c.rng.random()
            if not full:
                break
            if k < 0.3:
                a = c.rng.choice(full)
                b = c.rng.choice([x for x in range(width) if x != a])
                hist.append({"op": "copy", "i": a + 1, "j": b + 1, "x": call("")})
                held[b] = held[a]
            elif k < 0.36 and len(full) > 1:
                b = c.rng.choice(full)
                hist.append({"op": "drop", "i": 0, "j": b + 1, "x": call("")})
                held[b] = NOT
            else:
                b = c.rng.choice(full)
                present = tuple(k for k, _ in start[b]["tags"])
                x = obj_checks.random_call(c.rng, held[b], present=present)
                hist.append({"op": "edit", "i": 0, "j": b + 1, "x": x})
                # and the same to another, so that equal ones stay so
                if c.rng.random() < 0.3:
                    d = c.rng.choice(full)
                    if held[d] == held[b]:
                        hist.append({"op": "edit", "i": 0, "j": d + 1, "x": x})
        conc = Conc(c.rng)
        cases.append(case_of(conc, start, hist, c.rng.choice(vs), c.rng))
        meta.append((conc, start, hist))
    trs, origin = [], []
    for case, (conc, start, hist), r in zip(cases, meta, c.run_cases(cases)):
        obs = observations(c, case, r)
        if obs is None:
            continue
        trs.append({"s": start, "h": hist, "e": [{"eq": o["eq"], "ne": o["ne"], "o": [EMPTY if x is None else conc.abstract(x) for x in o["o"]]}
                                                 for o in obs]})
        origin.append((case, obs))

    def spoil(t):
        t = json.loads(json.dumps(t))
        e = c.rng.choice(t["e"])
        if c.rng.random() < 0.5:
            f = c.rng.choice(["eq", "ne"])
            a = c.rng.randrange(len(e["o"]))
            b = c.rng.randrange(len(e["o"]))
            e[f][a][b] = not e[f][a][b]
        else:
            o = c.rng.choice(e["o"])
            o["uid"] = 97
        return t

    pbf_checks.validate(c, "ObjCopyTrace", trs, origin, spoil, lambda t: len(t["h"]))


def call(c):
    return {"c": c, "a": 0, "b": 0, "n": [], "m": []}


def p27(c):
    vs = variants(c)
    for cfg, length, n, k in c.pick((("Detail", 0, 1000, 3), ("Pairs", 0, 6000, 2), ("Few", 2, 5000, 1), ("Two", 3, 1500, 1)),
                                    (("Detail", 0, 1000, 20), ("Pairs", 0, 20000, 4), ("Few", 3, 40000, 2), ("Two", 4, 20000, 2))):
        recs = c.tlc("ObjCopyHist", "ObjCopy" + cfg, consts={"N": length, "Kinds": KINDS})
        c.notes[f"histories_{cfg}"] = len(recs)
        replay(c, pbf_checks.sample_records(c, recs, n), vs, k)
    traces(c, c.pick(500, 4000), c.pick(20, 40), vs)
