"""P12, P13: what the readers of OSM XML and change files deliver (XmlDoc, XmlRead, XmlTrace)."""
import json

import core
import pbf_checks
import xmldoc

DRAIN = [["drain"], ["next"], ["next"]]


def compare(c, case, what, items, expected, fields):
    for i, (o, e) in enumerate(zip(items, expected)):
        d = xmldoc.diff(e, o, fields)
        if d:
            c.fail(f"{what}: object {i}: {d}", case, e, o)
            return False
    if len(items) != len(expected):
        c.fail(f"{what}: {len(items)} objects instead of {len(expected)}", case,
               [[e["t"], e["id"]] for e in expected][:50], [[o["t"], o["id"]] for o in items][:50])
        return False
    c.events += len(items)
    return True


def wrap(doc, rng):
    """The same elements in sections that change nothing about them"""
    out, i = [], 0
    while i < len(doc):
        n = rng.randint(1, 3)
        out.append({"n": rng.choice(["create", "modify"]), "a": [], "c": doc[i:i + n]})
        i += n
    return out


def replay(c, recs, readers, fields, styles, plain=True):
    cases, meta = [], []
    for rec in recs:
        for k in range(styles + (1 if plain else 0)):
            rng = c.rng if k or not plain else None
            conc, style = xmldoc.XConc(rng), xmldoc.Style(rng)
            exp = [conc.expect(x) for x in rec["x"]]
            for rd in readers:
                doc = wrap(rec["d"], c.rng) if rd == "osc" and len(readers) == 2 and c.rng.random() < 0.8 else rec["d"]
                data = xmldoc.render(doc, conc, style, {"xml": "osm", "osc": "osmChange"}[rd])
                cases.append({"op": "read", "reader": rd, "via": "stream", "data": data.hex(), "calls": DRAIN, "sched": {}})
                meta.append(exp)
    for case, exp, r in zip(cases, meta, c.run_cases(cases)):
        c.validated += 1
        items = pbf_checks.outcome(c, r, case, case["reader"])
        if items is not None:
            compare(c, case, case["reader"], items, exp, fields)
    if cases:
        c.sample({"document": bytes.fromhex(cases[-1]["data"]).decode("utf-8", "replace")[:300], "expected": meta[-1][:2]})


# ---------------------------------------------------------------- size (XmlStretch)

OBJ_NAMES = ("node", "way", "relation")


def txt(x, j):
    return x if x <= 0 else x + 10 * j


def num(x, n, j):
    return x if x < 0 else x * n + j


def stretch_doc(q, doc):
    def kid(e, j):
        f = lambda n, v: txt(v, j) if n in ("k", "v", "role") else num(v, q["c"], j) if n == "ref" else v
        return {**e, "a": [[n, f(n, v)] for n, v in e["a"]]}

    def element(e, j):
        f = lambda n, v: txt(v, j) if n == "user" else num(v, q["o"], j) if n == "id" else v
        return {**e, "a": [[n, f(n, v)] for n, v in e["a"]], "c": pbf_checks.run_of(e["c"], q["c"], kid)}

    def seq(es):
        out = []
        for e in es:
            if e["n"] in OBJ_NAMES:
                out += [element(e, j) for j in range(q["o"])]
            elif e["n"] in ("create", "modify", "delete"):
                out.append({**e, "c": seq(e["c"])})
            else:
                out.append(e)
        return out

    return seq(doc) * q["f"]


def stretch_out(q, xs):
    return pbf_checks.run_of(xs, q["o"], lambda x, j: {
        **x, "id": num(x["id"], q["o"], j), "user": txt(x["user"], j),
        "tags": pbf_checks.run_of(x["tags"], q["c"], lambda t, m: [txt(t[0], m), txt(t[1], m)]),
        "nodes": pbf_checks.run_of(x["nodes"], q["c"], lambda r, m: num(r, q["c"], m)),
        "mem": pbf_checks.run_of(x["mem"], q["c"], lambda t, m: [t[0], num(t[1], q["c"], m), txt(t[2], m)])}) * q["f"]


def stretch_records(c, cfg="XmlStretch"):
    recs = c.tlc("XmlStretch", cfg, consts={"N": 1})
    for r in recs:
        if stretch_doc(r["q"], r["d"]) != r["dq"] or stretch_out(r["q"], r["x"]) != r["xq"]:
            raise core.ToolError(f"not stretched as in XmlStretch: {json.dumps(r)[:500]}")
    seen = {json.dumps(r["d"], sort_keys=True): r for r in recs if r["x"]}
    return [seen[k] for k in sorted(seen)]


PLAN = [("o", 300), ("o", 1030), ("o", 9000), ("o", 20000), ("c", 300), ("c", 2500), ("c", 15000), ("c", 66000), ("f", 300), ("f", 3000),
        ("s", 300), ("s", 1200), ("s", 9000), ("s", 70000)]


def stretchings(rng, recs, n):
    """(record, q, text to add to all texts): in each something is large"""
    size = lambda r, q, fill: sum(
        100 + 40 * q["c"] * len(x["tags"] + x["nodes"] + x["mem"]) + 2 * fill * q["c"] * len(x["tags"] + x["mem"])
        for x in r["x"]) * q["o"] * q["f"]
    out = []
    for i in range(n):
        d, v = PLAN[i % len(PLAN)]
        for _ in range(200):
            r = rng.choice(recs)
            q, fill = {"o": 1, "c": 1, "f": 1}, 0
            if d == "s":
                fill = v
            else:
                q[d] = v
            if v < 2000 and rng.random() < 0.5:
                e = rng.choice("oc")
                q[e] = max(q[e], rng.choice([2, 7, 100]))
            if d in "cs" and not any(x["tags"] + x["nodes"] + x["mem"] for x in r["x"]):
                continue
            if v == 66000 and any(x["tags"] for x in r["x"]):
                continue  # to set so many tags takes too long
            if size(r, q, fill) < (9_000_000 if v == 66000 else 3_000_000):
                out.append((r, q, long_text(rng, fill)))
                break
    return out


def long_text(rng, n):
    piece = rng.choice(["f", "&", "ä<", "日本", "x y;", "🗺", "a&amp;b\n"])
    return (piece * (n // len(piece) + 1))[:n]


def sized(c, recs, n, readers, fields):
    cases, meta = [], []
    for r, q, fill in stretchings(c.rng, recs, n):
        conc, style = xmldoc.XConc(c.rng), xmldoc.Style(c.rng)
        conc.ida, conc.idb = c.rng.choice([(1, 0), (-1, 0), (1000003, 7), (1, 2**40)])
        conc.fill = fill
        style.long = 20000 if r["d"] and len(stretch_doc(q, r["d"])) < 100 else 0
        exp = [conc.expect(x) for x in stretch_out(q, r["x"])]
        for rd in readers:
            data = xmldoc.render(stretch_doc(q, r["d"]), conc, style, {"xml": "osm", "osc": "osmChange"}[rd])
            cases.append({"op": "read", "reader": rd, "via": "stream", "data": data.hex(), "calls": pbf_checks.LONG_DRAIN, "sched": {}})
            meta.append((exp, q, fill))
    for case, (exp, q, fill), r in zip(cases, meta, c.run_cases(cases, 120)):
        c.validated += 1
        what = f"{case['reader']}, stretched {q} texts + {len(fill)}"
        items = pbf_checks.outcome(c, r, case, what)
        if items is not None:
            compare(c, case, what, items, exp, fields)
    c.notes["stretched_documents"] = len(cases)
    c.notes["longest_document"] = max(len(x["data"]) // 2 for x in cases)


# ---------------------------------------------------------------- random documents, as traces


def random_doc(rng, n, sections):
    v = lambda bad=0.1, hi=8: xmldoc.BAD if rng.random() < bad else rng.randint(1, hi)
    nid = [0]

    def kid():
        k = rng.random()
        if k < 0.35:
            a = [["k", rng.randint(0, 9)], ["v", rng.randint(0, 9)]]
            if rng.random() < 0.1:
                a.pop(rng.randint(0, 1))
            return el("tag", a)
        if k < 0.6:
            return el("nd", [["ref", v()]] if rng.random() < 0.95 else [])
        if k < 0.85:
            a = [["type", v(0.1, 3)], ["ref", v()], ["role", rng.randint(0, 9)]]
            if rng.random() < 0.15:
                a.pop(rng.randint(0, 2))
            return el("member", a)
        if k < 0.92:
            return el("unknown", [["k", 1], ["v", 2], ["ref", 3]], [el("#", [])] if rng.random() < 0.5 else [])
        return el("#", [])

    def el(n, a, c=()):
        a = list(a)
        rng.shuffle(a)
        return {"n": n, "a": a, "c": list(c)}

    def obj():
        nid[0] += 1
        a = []
        k = rng.random()
        if k < 0.85:
            a.append(["id", nid[0]])
        elif k < 0.93:
            a.append(["id", xmldoc.BAD])
        for name in ("version", "changeset", "uid", "lat", "lon"):
            if rng.random() < 0.6:
                a.append([name, v()])
        if rng.random() < 0.4:
            a.append(["visible", rng.choice([0, 1, 1, xmldoc.BAD])])
        for name in ("user", "timestamp"):
            if rng.random() < 0.5:
                a.append([name, rng.randint(1, 9)])
        return el(rng.choice(["node", "way", "relation"]), a, [kid() for _ in range(rng.choice([0, 0, 1, 3, rng.randint(4, 12), 150 if rng.random() < 0.05 else 2]))])

    def some(n):
        out = []
        for _ in range(n):
            k = rng.random()
            if k < 0.85:
                out.append(obj())
            elif k < 0.93:
                out.append(el("note", [["id", 3], ["lat", 4]], [kid() for _ in range(rng.randint(0, 2))]))
            else:
                out.append(el("#", []))
        return out

    if not sections:
        return some(rng.randint(0, n))
    return [{"n": rng.choice(["create", "modify", "delete", "delete"]), "a": [], "c": some(rng.randint(0, max(1, n // 3)))}
            for _ in range(rng.randint(0, 6))]


def abstract(o, conc):
    """An observed object in the values of the specification; 99 for what is none of them"""
    ints = {conc.id(x): x for x in range(0, 200)}
    uints = {conc.uint(x): x for x in range(0, 20)}
    texts = {conc.text(x): x for x in range(0, 10)}
    inner = {conc.inner(x): x for x in range(0, 20)}
    opt = lambda x, m: -1 if x is None else m.get(x, 99)
    when = {conc.when(x): x for x in range(0, 99)}
    return {"t": {"n": "node", "w": "way", "r": "relation"}[o["t"]], "id": ints.get(o["id"], 9999), "ver": opt(o["ver"], uints),
            "cs": opt(o["cs"], uints), "uid": opt(o["uid"], uints), "user": opt(o["user"], texts),
            "ts": opt(xmldoc.instant(o["ts"]), when), "del": o["del"],
            "ll": [inner.get(x, 9999) for x in o.get("ll") or []],
            "tags": [[texts.get(k, 99), texts.get(w, 99)] for k, w in o["tags"]],
            "nodes": [ints.get(x, 9999) for x in o.get("nodes", [])],
            "mem": [["nwr".index(t) + 1, ints.get(x, 9999), texts.get(r, 99)] for t, x, r in o.get("mem", [])]}


def traces(c, n, size, readers, sections, level):
    cases, meta = [], []
    for _ in range(n):
        doc = random_doc(c.rng, size, sections)
        conc, style = xmldoc.XConc(c.rng), xmldoc.Style(c.rng)
        for rd in readers:
            data = xmldoc.render(doc, conc, style, {"xml": "osm", "osc": "osmChange"}[rd])
            cases.append({"op": "read", "reader": rd, "via": "stream", "data": data.hex(), "calls": DRAIN, "sched": {}})
            meta.append((doc, conc))
    trs, origin = [], []
    for case, (doc, conc), r in zip(cases, meta, c.run_cases(cases)):
        items = pbf_checks.outcome(c, r, case, case["reader"])
        if items is None:
            continue
        trs.append({"d": doc, "obs": [abstract(o, conc) for o in items], "level": level})
        origin.append((case, items))

    def spoil(t):
        t = json.loads(json.dumps(t))
        k = c.rng.random()
        o = c.rng.choice(t["obs"])
        if k < 0.4 and level == "all":
            o["tags"] = o["tags"] + [[1, 1]]
        elif k < 0.7:
            o["del"] = not o["del"]
        else:
            t["obs"].remove(o)
        return t

    pbf_checks.validate(c, "XmlTrace", trs, origin, spoil, lambda t: len(t["obs"]))


def p12(c):
    total = 0
    for cfg, n, k in (("XmlSeq", c.pick(2, 3), 2500), ("XmlAttr", c.pick(1, 2), 1800), ("XmlKid", c.pick(1, 2), 2500)):
        recs = c.tlc("XmlRead", cfg, consts={"N": n})
        total += len(recs)
        recs = pbf_checks.sample_records(c, recs, c.pick(k, k * 8))
        replay(c, recs, ("xml", "osc"), xmldoc.FIELDS, c.pick(1, 3))
    c.notes["documents_model_checked"] = total
    sized(c, stretch_records(c), c.pick(26, 130), ("xml", "osc"), xmldoc.FIELDS)
    traces(c, c.pick(80, 500), c.pick(12, 25), ("xml", "osc"), False, "all")


def p13(c):
    recs = c.tlc("XmlRead", "XmlSection", consts={"N": c.pick(2, 2)})
    c.notes["documents_model_checked"] = len(recs)
    replay(c, pbf_checks.sample_records(c, recs, c.pick(4000, 9000)), ("osc",), ("t", "id", "del"), c.pick(1, 4))
    sized(c, stretch_records(c, "XmlStretchSection"), c.pick(26, 130), ("osc",), ("t", "id", "del"))
    traces(c, c.pick(120, 1000), c.pick(12, 30), ("osc",), True, "del")
