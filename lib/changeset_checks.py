"""P14, P15, P16: what the two readers of changeset dumps deliver (Changeset, ChangesetDocs, ChangesetTrace)."""
import bz2
import json

import core
import pbf_checks
import xml_checks
import xmldoc
from xmldoc import BAD, NONE

DRAIN = [["drain"], ["next"], ["next"]]
BAD_UINT = ["", "abc", "1.5", "0x10", "99999999999999999999999", "1e3", "-1", "1,000", "-"]
BAD_UID = ["", "abc", "1.5", "99999999999999999999999", "-", "--1", "1_0"]
BAD_OPEN = ["", "maybe", "TRUE?", "10", "truefalse"]


class Conc(xmldoc.XConc):
    def __init__(self, rng=None):
        super().__init__(rng)
        self.ida, self.idb = (1, 0) if rng is None else rng.choice([(1, 0), (1, 1000), (7, 2**31), (1, 2**32 - 200)])
        self.uida = 1 if rng is None else rng.choice([1, -1, 1000003, 2**33])
        self.cnta = 1 if rng is None else rng.choice([1, 1, 1000, 2**40])

    def attr(self, el, k, x):
        if el == "changeset":
            if k in ("id", "num_changes", "comments_count"):
                if x == BAD:
                    return self.bad(BAD_UINT)
                return str(self.id(x) if k == "id" else x * self.cnta)
            if k == "uid":
                return self.bad(BAD_UID) if x == BAD else str(x * self.uida)
            if k == "open":
                return self.bad(BAD_OPEN) if x == BAD else ("true" if x else "false")
            if k in ("created_at", "closed_at"):
                return self.stamp(x)
        if k in ("k", "v", "user"):
            return self.text(x)
        return f"other {x} <&>"

    def want(self, x):
        """A result of the specification, as the harness shows it"""
        if not x["ok"]:
            return "error"
        tags = [[self.text(k), self.text(v)] for k, v in x["tags"]]
        if "created" not in x:
            return {"id": self.id(x["id"]), "tags": tags}
        opt = lambda v, f: None if v == NONE else f(v)
        return {"id": self.id(x["id"]), "created": self.when(x["created"]), "closed": opt(x["closed"], self.when),
                "open": bool(x["open"]), "uid": opt(x["uid"], lambda v: v * self.uida), "user": opt(x["user"], self.text),
                "num": x["num"] * self.cnta, "com": x["com"] * self.cnta, "tags": sorted(tags, key=lambda t: t[0].encode())}

    def abstract(self, got):
        """And the other way round; 99 for what is no value of the dump"""
        if got == "error":
            return {"ok": False}
        ids = {self.id(x): x for x in range(0, 200)}
        texts = {self.text(x): x for x in range(0, 10)}
        tags = [[texts.get(k, 99), texts.get(v, 99)] for k, v in got["tags"]]
        if "created" not in got:
            return {"ok": True, "id": ids.get(got["id"], 9999), "tags": tags}
        cnt = {x * self.cnta: x for x in range(0, 20)}
        uid = {x * self.uida: x for x in range(0, 20)}
        when = {self.when(x): x for x in range(0, 99)}
        opt = lambda v, m: NONE if v is None else m.get(v, 99)
        return {"ok": True, "id": ids.get(got["id"], 9999), "created": opt(got["created"], when), "closed": opt(got["closed"], when),
                "open": int(got["open"]), "uid": opt(got["uid"], uid), "user": opt(got["user"], texts),
                "num": opt(got["num"], cnt), "com": opt(got["com"], cnt), "tags": tags}


class Style(xmldoc.Style):
    def __init__(self, rng=None):
        super().__init__(rng)
        self.enc = "utf-8"

    def filler(self):
        if self.rng is None:
            return "<!-- c -->"
        f = self.long_filler()
        if f:
            return f
        return self.rng.choice([" ", "\n  ", "<!-- <changeset id=\"1\"/> -->", "<!--</changeset>-->", "<?pi <changeset> ?>", "text &amp; more",
                                "<![CDATA[</changeset><tag k='9' v='8'/>]]>", "\r\n", "&#32;", "<!---->", "&lt;tag k=\"1\"/&gt;"])


def render(doc, conc, style):
    """The dump, and where each of its top level elements ends"""
    rng = style.rng

    def one(e, depth):
        if e["n"] == "#":
            return style.filler()
        name = e["n"]
        if rng and name in ("unknown", "bounds"):
            name = rng.choice(["bounds", "note", "changesets", "Changeset", "center", "foo"])
        body = "".join(("\n" + "  " * depth if style.indent else "") + one(k, depth + 1) for k in e["c"])
        if not body and "s" in e:
            a = style.attrs([(k, conc.attr(e["n"], k, v)) for k, v in e["a"]])
            return f"<{name}{a}{style.ws(' ')}/>" if e["s"] else f"<{name}{a}{style.ws()}></{name}{style.ws()}>"
        return style.element(name, [(k, conc.attr(e["n"], k, v)) for k, v in e["a"]], body)

    head = '<?xml version="1.0" encoding="UTF-8"?>\n'
    bom = b""
    if rng:
        head = rng.choice(["", head, "<?xml version='1.0'?>", '<?xml version="1.0" encoding="utf-8" standalone="yes"?>\n'])
        head += rng.choice(["", "", "<!-- head -->\n", "<!DOCTYPE osm>\n", "<?x y?>"])
        bom = b"\xef\xbb\xbf" if rng.random() < 0.1 else b""
    pairs = [("version", "0.6"), ("license", "x")] if rng is None or rng.random() < 0.7 else []
    out = bom + (head + f"<osm{style.attrs(pairs)}>").encode()
    ends = []
    for e in doc:
        if style.indent:
            out += b"\n  "
        if rng and rng.random() < style.noise:
            out += style.filler().encode()
        out += one(e, 2).encode()
        ends.append(len(out))
    out += b"</osm>" if rng is None else rng.choice(["</osm>", "\n</osm>\n", "</osm ><!-- end -->"]).encode()
    return out, ends


def got(items):
    """What the harness reported, with instants instead of time stamps"""
    out = []
    for i in items:
        if "err" in i:
            out.append("error")
            continue
        o = dict(i["ok"])
        if o.pop("queries", True) is not True:
            o["queries"] = "disagree with the tags"
        for k in ("created", "closed"):
            if k in o:
                o[k] = xmldoc.instant(o[k])
        out.append(o)
    return out


def is_err(x):
    return x == "error"


def compare(c, case, what, items, want, exact, tail=False):
    """exact: errors count too. tail: there may be errors after what is wanted."""
    have = got(items)
    if not exact:
        have, want = [x for x in have if not is_err(x)], [x for x in want if not is_err(x)]
    for i, (h, w) in enumerate(zip(have, want)):
        if h != w:
            return c.fail(f"{what}: result {i} is {json.dumps(h)[:300]}, not {json.dumps(w)[:300]}", case, w, h)
    extra = have[len(want):]
    if len(have) < len(want) or (extra and not (tail and all(is_err(x) for x in extra))):
        return c.fail(f"{what}: {len(have)} results instead of {len(want)}", case, want[:20], have[:20])
    c.events += len(have)


def case_of(rd, data, c, bz=None):
    """rd: full | tags. The tag reader reads compressed files only."""
    if rd == "tags":
        return {"op": "read", "reader": "cst", "via": "file", "data": bz2.compress(data, 1).hex() if bz is None else bz.hex(),
                "calls": DRAIN, "sched": {}}
    k = c.rng.random()
    if bz is None and k < 0.8:
        return {"op": "read", "reader": "cs", "via": "stream", "data": data.hex(), "calls": DRAIN, "sched": {}}
    return {"op": "read", "reader": "cs" if k < 0.5 else "cs_bz2", "via": "file" if k < 0.5 else "stream",
            "data": (bz2.compress(data, 1) if bz is None else bz).hex(), "calls": DRAIN, "sched": {}}


WHAT = {"full": "changeset reader", "tags": "tag reader"}


def replay(c, recs, styles):
    cases, meta = [], []
    for rec in recs:
        for k in range(styles + 1):
            rng = c.rng if k else None
            conc = Conc(rng)
            data, _ = render(rec["d"], conc, Style(rng))
            cases.append(case_of(rec["r"], data, c))
            if cases[-1]["reader"] == "cs" and cases[-1]["via"] == "stream" and c.rng.random() < 0.3:
                cases[-1]["reader"] = "csn"
            meta.append((rec, [conc.want(x) for x in rec["x"]]))
    for case, (rec, want), r in zip(cases, meta, c.run_cases(cases)):
        c.validated += 1
        items = pbf_checks.outcome(c, r, case, WHAT[rec["r"]])
        if items is not None:
            compare(c, case, WHAT[rec["r"]], items, want, rec["r"] == "full")
    if cases:
        c.sample({"dump": bytes.fromhex(cases[-1]["data"]).decode("utf-8", "replace")[:300], "expected": meta[-1][1][:2]})


# ---------------------------------------------------------------- size (ChangesetStretch)


def stretch_dump(q, d):
    txt, num = xml_checks.txt, xml_checks.num

    def kid(e, j):
        return {**e, "a": [[n, txt(v, j) if n in ("k", "v") else v] for n, v in e["a"]]} if e["n"] == "tag" else e

    def element(e, j):
        f = lambda n, v: num(v, q["o"], j) if n == "id" else txt(v, j) if n == "user" else v
        return {**e, "a": [[n, f(n, v)] for n, v in e["a"]], "c": pbf_checks.run_of(e["c"], q["c"], kid)}

    out = []
    for e in d:
        out += [element(e, j) for j in range(q["o"])] if e["n"] == "changeset" else [e]
    return out * q["f"]


def stretch_results(q, xs):
    def one(x, j):
        if not x["ok"]:
            return x
        y = {**x, "id": xml_checks.num(x["id"], q["o"], j),
             "tags": pbf_checks.run_of(x["tags"], q["c"], lambda t, m: [xml_checks.txt(t[0], m), xml_checks.txt(t[1], m)])}
        if "user" in x:
            y["user"] = xml_checks.txt(x["user"], j)
        return y

    return pbf_checks.run_of(xs, q["o"], one) * q["f"]


def stretch_records(c, rds):
    recs = c.tlc("ChangesetStretch", consts={"N": 1, "Cut": "FALSE"})
    for r in recs:
        if stretch_dump(r["q"], r["d"]) != r["dq"] or stretch_results(r["q"], r["x"]) != r["xq"]:
            raise core.ToolError(f"not stretched as in ChangesetStretch: {json.dumps(r)[:500]}")
    seen = {json.dumps([r["d"], r["r"]], sort_keys=True): r for r in recs if r["d"] and r["r"] in rds}
    return [seen[k] for k in sorted(seen)]


def stretchings(rng, recs, n):
    plan = [("o", 300), ("o", 1030), ("o", 10050), ("c", 300), ("c", 2500), ("f", 300), ("f", 2000), ("s", 300), ("s", 9000), ("s", 70000)]
    size = lambda r, q, fill: sum(
        250 + 40 * q["c"] * len(e["c"]) + fill * (1 + 2 * q["c"] * len(e["c"])) for e in r["d"]) * q["o"] * q["f"]
    for i in range(n):
        d, v = plan[i % len(plan)]
        for _ in range(200):
            r = rng.choice(recs)
            q, fill = {"o": 1, "c": 1, "f": 1}, 0
            if d == "s":
                fill = v
            else:
                q[d] = v
            if v < 2000 and rng.random() < 0.5:
                e = rng.choice("oc")
                q[e] = max(q[e], rng.choice([2, 7, 100]))
            if d in "cs" and not any(e["c"] for e in r["d"]):
                continue
            if size(r, q, fill) < 5_000_000:
                yield r, q, xml_checks.long_text(rng, fill)
                break


def sized(c, recs, n, cut=False):
    cases, meta = [], []
    for r, q, fill in stretchings(c.rng, recs, n):
        conc, style = Conc(c.rng), Style(c.rng)
        conc.fill = fill
        conc.ida, conc.idb = c.rng.choice([(1, 0), (1, 1000), (7, 2**31)])
        doc = stretch_dump(q, r["d"])
        style.long = 20000 if len(doc) < 100 else 0
        want = [conc.want(x) for x in stretch_results(q, r["x"])]
        data, ends = render(doc, conc, style)
        if cut:
            k = c.rng.randrange(len(data))
            whole = [e for e in doc[:sum(1 for e in ends if e <= k)] if e["n"] == "changeset"]
            want = want[:len(whole) if r["r"] == "full" else sum(1 for e in whole if not e["s"] and tags_ok(e))]
            data = data[:k]
        cases.append(dict(case_of(r["r"], data, c), calls=pbf_checks.LONG_DRAIN))
        meta.append((r["r"], want, q, fill))
    for case, (rd, want, q, fill), r in zip(cases, meta, c.run_cases(cases, 120)):
        c.validated += 1
        what = f"{WHAT[rd]}, stretched {q} texts + {len(fill)}" + (", cut" if cut else "")
        items = pbf_checks.outcome(c, r, case, what)
        if items is not None:
            compare(c, case, what, items, want, rd == "full", cut)
    c.notes["stretched_dumps"] = len(cases)


# ---------------------------------------------------------------- random dumps, as traces


def random_dump(rng, n):
    def el(n, a, c=()):
        a = list(a)
        rng.shuffle(a)
        return {"n": n, "a": a, "c": list(c), "s": False}

    def kid(keys):
        k = rng.random()
        if k < 0.6:
            key = rng.randint(0, 9)
            if key not in keys:
                keys.add(key)
                a = [["k", key], ["v", rng.randint(0, 9)]]
                if rng.random() < 0.06:
                    a.pop(rng.randint(0, 1))
                return el("tag", a, [el("#", [])] if rng.random() < 0.1 else [])
        if k < 0.8:
            return el("discussion", [], [el("comment", [["uid", 8], ["user", 4], ["id", 1]], [el("text", [], [el("#", [])])])
                                         for _ in range(rng.randint(0, 3))])
        if k < 0.9:
            return el("unknown", [["k", 1], ["v", 2], ["id", 3]])
        return el("#", [])

    def changeset(i):
        v = lambda p=0.03, hi=9: BAD if rng.random() < p else rng.randint(0, hi)
        a = []
        for k in ("id", "created_at", "open", "num_changes", "comments_count"):
            if rng.random() < 0.97:
                a.append([k, i if k == "id" and rng.random() < 0.97 else rng.randint(0, 30) if k == "created_at" else
                          v(0.03, 1) if k == "open" else v()])
        if rng.random() < 0.6:
            a.append(["uid", v()])
        for k in ("user", "closed_at", "min_lat"):
            if rng.random() < 0.6:
                a.append([k, rng.randint(1, 9)])
        keys = set()
        e = el("changeset", a, [kid(keys) for _ in range(rng.choice([0, 0, 1, 2, rng.randint(3, 8)]))])
        e["s"] = not e["c"] and rng.random() < 0.5
        return e

    out = []
    for i in range(rng.randint(0, n)):
        k = rng.random()
        out.append(changeset(i + 1) if k < 0.9 else el("bounds", [["id", 4]]) if k < 0.95 else el("#", []))
    return out


def traces(c, n, size, readers, cut):
    cases, meta = [], []
    for _ in range(n):
        doc = random_dump(c.rng, size)
        conc = Conc(c.rng)
        data, ends = render(doc, conc, Style(c.rng))
        m = NONE
        if cut:
            k = c.rng.randint(0, len(data))
            data, m = data[:k], sum(1 for e in ends if e <= k)
        for rd in readers:
            cases.append(case_of(rd, data, c))
            meta.append((doc, conc, rd, m))
    trs, origin = [], []
    for case, (doc, conc, rd, m), r in zip(cases, meta, c.run_cases(cases)):
        items = pbf_checks.outcome(c, r, case, WHAT[rd])
        if items is None:
            continue
        have = got(items)
        if any(not is_err(x) and "queries" in x for x in have):
            c.fail("the queries of a changeset disagree with its tags", case, None, have)
            continue
        trs.append({"d": doc, "r": rd, "m": m, "obs": [conc.abstract(x) for x in have]})
        origin.append((case, items))

    def spoil(t):
        t = json.loads(json.dumps(t))
        oks = [o for o in t["obs"] if o["ok"]]
        if not oks:
            t["obs"].insert(0, {"ok": True, "id": 77, "tags": []} if t["r"] == "tags" else
                            {"ok": True, "id": 77, "tags": [], "created": 1, "closed": 1, "open": 1, "uid": 1, "user": 1, "num": 1, "com": 1})
            return t
        o = c.rng.choice(oks)
        k = c.rng.random()
        if k < 0.3:
            o["tags"] = o["tags"] + [[1, 1]]
        elif k < 0.6:
            o["id"] += 50
        else:
            t["obs"].remove(o)
        return t

    pbf_checks.validate(c, "ChangesetTrace", trs, origin, spoil, lambda t: len(t["obs"]))


def p14(c):
    total = 0
    for cfg, n, k in (("Seq", c.pick(2, 2), 2000), ("Attr", c.pick(2, 3), 2500), ("Kid", c.pick(1, 2), 1500)):
        recs = c.tlc("ChangesetDocs", "Changeset" + cfg, consts={"N": n, "Cut": "FALSE"})
        recs = [r for r in recs if r["r"] == "full"]
        total += len(recs)
        replay(c, pbf_checks.sample_records(c, recs, c.pick(k, k * 8)), c.pick(1, 3))
    c.notes["dumps_model_checked"] = total
    sized(c, stretch_records(c, ("full",)), c.pick(30, 150))
    traces(c, c.pick(100, 500), c.pick(12, 25), ("full",), False)


def p16(c):
    total = 0
    for cfg, n, k in (("Seq", c.pick(2, 2), 2500), ("Attr", c.pick(1, 2), 1000), ("Kid", c.pick(1, 2), 1500)):
        recs = c.tlc("ChangesetDocs", "Changeset" + cfg, consts={"N": n, "Cut": "FALSE"})
        recs = [r for r in recs if r["r"] == "tags"]
        total += len(recs)
        replay(c, pbf_checks.sample_records(c, recs, c.pick(k, k * 8)), c.pick(1, 3))
    c.notes["dumps_model_checked"] = total
    sized(c, stretch_records(c, ("tags",)), c.pick(30, 150))
    traces(c, c.pick(100, 500), c.pick(12, 25), ("tags",), False)
    both(c, c.pick(300, 3000), c.pick(10, 25))


def both(c, n, size):
    """The two readers on the same dump: where the full reader delivers a changeset, its tags are those of the tag reader"""
    cases, docs = [], []
    for _ in range(n):
        doc = random_dump(c.rng, size)
        data, _ = render(doc, Conc(c.rng), Style(c.rng))
        docs.append(doc)
        cases += [case_of("full", data, c), case_of("tags", data, c)]
    res = c.run_cases(cases)
    for k, doc in enumerate(docs):
        full = pbf_checks.outcome(c, res[2 * k], cases[2 * k], WHAT["full"])
        tags = pbf_checks.outcome(c, res[2 * k + 1], cases[2 * k + 1], WHAT["tags"])
        if full is None or tags is None:
            continue
        full, tags = got(full), [x for x in got(tags) if not is_err(x)]
        elements = [e for e in doc if e["n"] == "changeset"]
        if len(full) != len(elements):
            c.fail("changeset reader: not one result per changeset", cases[2 * k], len(elements), full[:20])
            continue
        want = [[x["id"], x["tags"]] for e, x in zip(elements, full) if not e["s"] and not is_err(x)]
        have = [[x["id"], sorted(x["tags"], key=lambda t: t[0].encode())] for x in tags]
        i = 0
        for h in have:
            if i < len(want) and h == want[i]:
                i += 1
        if i < len(want):
            c.fail("the tag reader does not deliver a changeset as the full reader does", cases[2 * k + 1], want[i], have[:20])
        c.events += len(want)


# ---------------------------------------------------------------- P15


def cuts(c, sizes, groups):
    """Dumps of the model, cut at every byte (or at many), against what the model says of what was complete"""
    by = {}
    for cfg, n in sizes:
        recs = c.tlc("ChangesetDocs", "Changeset" + cfg, consts={"N": n, "Cut": "TRUE"})
        for r in recs:
            by.setdefault((json.dumps(r["d"]), r["r"]), {})[r["n"]] = r["x"]
    keys = sorted(by)
    c.notes["dumps_cut_in_the_model"] = len(keys)
    keys = keys if len(keys) <= groups else c.rng.sample(keys, groups)
    cases, meta = [], []
    for j, key in enumerate(keys):
        rng = c.rng if j % 3 else None
        conc = Conc(rng)
        data, ends = render(json.loads(key[0]), conc, Style(rng))
        at = range(len(data) + 1)
        if not (c.thorough and j % 4 == 0) and len(data) > 60:
            at = sorted(set(c.rng.sample(at, 40)) | {e for e in ends} | {e - 1 for e in ends} | {len(data)})
        for k in at:
            m = sum(1 for e in ends if e <= k)
            case = case_of(key[1], data[:k], c)
            if key[1] == "full" and c.rng.random() < 0.5:
                case = {"op": "read", "reader": "cs", "via": "stream", "data": data[:k].hex(), "calls": DRAIN,
                        "sched": {"chunks": [c.rng.choice([1, 2, 7, 64])]}}
            cases.append(case)
            meta.append((key[1], [conc.want(x) for x in by[key][m]], k, len(data)))
    for case, (rd, want, k, size), r in zip(cases, meta, c.run_cases(cases)):
        c.validated += 1
        items = pbf_checks.outcome(c, r, case, f"{WHAT[rd]}, cut at byte {k} of {size}")
        if items is not None:
            compare(c, case, f"{WHAT[rd]}, cut at byte {k} of {size}", items, want, rd == "full", True)
    c.sample({"cut_dump": bytes.fromhex(cases[0]["data"]).decode("utf-8", "replace")[:300], "expected": meta[0][1][:2]})
    c.notes["cut_positions"] = c.notes.get("cut_positions", 0) + len(cases)


def compressed_cuts(c, dumps, per):
    """Compressed dumps of several streams, cut: whatever was compressed before the stream that is cut must be delivered"""
    cases, meta = [], []
    for _ in range(dumps):
        conc = Conc(c.rng)
        doc = random_dump(c.rng, 10)
        data, ends = render(doc, conc, Style(c.rng))
        parts = sorted(c.rng.sample(range(len(data)), min(len(data) - 1, c.rng.choice([0, 1, 3]))))
        streams, sizes = [], []
        for a, b in zip([0] + parts, parts + [len(data)]):
            streams.append(bz2.compress(data[a:b], 1))
            sizes.append((b, sum(len(s) for s in streams)))
        whole = b"".join(streams)
        for rd in ("full", "tags"):
            base = case_of(rd, data, c, whole)
            cases.append(base)
            meta.append((rd, None, len(whole), base))
            for k in c.rng.sample(range(len(whole)), min(per, len(whole))):
                cases.append(dict(base, data=whole[:k].hex()))
                got_bytes = max([b for b, z in sizes if z <= k], default=0)
                # how many elements are wholly within the streams that are there
                meta.append((rd, doc[:sum(1 for e in ends if e <= got_bytes)], k, base))
    results = c.run_cases(cases)
    ref = None
    for case, (rd, doc, k, _), r in zip(cases, meta, results):
        what = f"{WHAT[rd]}, compressed dump" + ("" if doc is None else f" cut at byte {k}")
        items = pbf_checks.outcome(c, r, case, what)
        c.validated += 1
        if doc is None:
            ref = None if items is None else got(items)
            continue
        if items is None or ref is None:
            continue
        have = got(items)
        if rd == "tags":
            # errors of the tag reader are not one per changeset
            have, full = [x for x in have if not is_err(x)], [x for x in ref if not is_err(x)]
            low = sum(1 for e in doc if e["n"] == "changeset" and not e["s"] and tags_ok(e))
        else:
            full, low = ref, sum(1 for e in doc if e["n"] == "changeset")
            while len(have) > low and is_err(have[-1]):
                have.pop()
        if have != full[:len(have)]:
            c.fail(f"{what}: not a prefix of what the whole dump gives", case, full, have)
        elif len(have) < low:
            c.fail(f"{what}: {len(have)} results, although {low} complete ones come before the cut", case, full, have)
        c.events += len(have)


def tags_ok(e):
    a = dict(map(tuple, e["a"]))
    return a.get("id", BAD) != BAD and all(
        {"k", "v"} <= {k for k, _ in t["a"]} for t in e["c"] if t["n"] == "tag")


def garbage(c, n):
    """Whatever the input: reading it ends"""
    cases = []
    for _ in range(n):
        data, _ = render(random_dump(c.rng, 6), Conc(c.rng), Style(c.rng))
        data = bytearray(data)
        for _ in range(c.rng.choice([0, 1, 1, 2, 8])):
            if not data:
                break
            i, k = c.rng.randrange(len(data)), c.rng.random()
            if k < 0.4:
                data[i] = c.rng.choice(b"<>&\"'/=!?-[] \x00\xff" + bytes([c.rng.randrange(256)]))
            elif k < 0.6:
                del data[i:i + c.rng.randint(1, 20)]
            elif k < 0.8:
                j = c.rng.randrange(len(data))
                data[i:i] = data[j:j + c.rng.randint(1, 60)]
            else:
                data[i:i] = c.rng.choice([b"<changeset>", b"</changeset>", b"</osm>", b"<tag>", b"<!--", b"<![CDATA[", b"<?", b"&x;", b"<"])
        data = bytes(data)
        if c.rng.random() < 0.1:
            data = bytes(c.rng.randrange(256) for _ in range(c.rng.randint(0, 200)))
        for rd in ("full", "tags"):
            z = bytearray(bz2.compress(data, 1))
            k = c.rng.random()
            if k < 0.2 and z:
                z[c.rng.randrange(len(z))] ^= 1 << c.rng.randrange(8)
            elif k < 0.3:
                z = data
            elif k < 0.4:
                z = z + data[:20]
            cases.append(case_of(rd, data, c, bytes(z) if k < 0.4 else None))
    for fail in (0, 1, 40, 300):
        for chunk in (1, 1000):
            data, _ = render(random_dump(c.rng, 6), Conc(c.rng), Style(c.rng))
            for rd, d in (("cs", data), ("cs_bz2", bz2.compress(data, 1))):
                for once in (True, False):
                    cases.append({"op": "read", "reader": rd, "via": "stream", "data": d.hex(), "calls": DRAIN,
                                  "sched": {"fail_at": fail, "once": once, "chunks": [chunk]}})
    for case, r in zip(cases, c.run_cases(cases)):
        bad = core.bad_run(r)
        if bad:
            c.fail(f"{case['reader']}: {bad}", case)
        elif "calls" not in r:
            c.fail(f"{case['reader']}: does not open: {r.get('msg')}", case, observed=r)
        elif r["calls"][0]["end"] != "none":
            c.fail(f"{case['reader']}: iterating does not end: {r['calls'][0]['end']} {r['calls'][0].get('msg', '')[:200]}", case,
                   observed=r["calls"][0]["items"][:3])
        c.validated += 1
    c.notes["damaged_or_failing_inputs"] = len(cases)


def p15(c):
    cuts(c, c.pick((("Seq", 1), ("Attr", 0), ("Kid", 0)), (("Seq", 2), ("Attr", 1), ("Kid", 1))), c.pick(300, 2500))
    sized(c, stretch_records(c, ("full", "tags")), c.pick(40, 200), True)
    traces(c, c.pick(150, 800), c.pick(8, 15), ("full", "tags"), True)
    compressed_cuts(c, c.pick(12, 100), c.pick(40, 120))
    garbage(c, c.pick(800, 8000))
