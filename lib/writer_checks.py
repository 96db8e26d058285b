"""P08-P11: the writers of OSM XML and change files."""
import json

import core
import pbf
import pbf_checks
import xml_checks
import xmldoc

ROOT = {"xml": "osm", "osc": "osmChange"}
NAMES = {"n": "node", "w": "way", "r": "relation"}
ESC_HINT = "&<>\"'\t\n\r"


def random_text(rng, n=12):
    """Any text XML can represent"""
    out = []
    for _ in range(rng.randint(0, n)):
        k = rng.random()
        if k < 0.4:
            out.append(rng.choice("&<>\"'\t\n\r ;#]"))
        elif k < 0.6:
            out.append(rng.choice("abcxyz019=-_/!?"))
        elif k < 0.75:
            out.append(rng.choice(["&amp;", "<!--", "-->", "]]>", "\r\n", "&#10;", "<?", "/>", "\"/><node id=\"1\"/>", "  "]))
        else:
            lo, hi = rng.choice([(0x20, 0x7E), (0x80, 0xFF), (0x7F, 0x9F), (0x100, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF)])
            out.append(chr(rng.randint(lo, hi)))
    return "".join(out)


class WConc(xmldoc.XConc):
    """For writing: wider values, and texts of any kind"""

    def __init__(self, rng=None):
        super().__init__(rng)
        self.frac, self.zone = "", 0
        if rng is not None:
            self.deg = rng.choice([15000000, 1, -1, 12345678, -100000000, 899999999, 1073741823, -1073741824, 214748364, 7])
            self.num = rng.choice([1, 1, 1000, 429496729])
            if rng.random() < 0.5:
                ts = [""]
                while len(ts) < 10:
                    t = random_text(rng)
                    if t not in ts:
                        ts.append(t)
                self.texts = ts


def describe(e, rng, reprs):
    """A description for the harness of a concrete object (as expected when read back)"""
    d = {k: v for k, v in e.items() if k != "ts"}
    d["ts"] = None
    if e["ts"] is not None:
        k = rng.random() if rng else 0
        d["ts"] = {"num": e["ts"]} if k < 0.5 else {"iso": xmldoc.iso(e["ts"])}
        if k > 0.9 and 0 < e["ts"] < 4e9:
            h = rng.randint(-12, 14)
            d["ts"] = {"iso": xmldoc.iso(e["ts"] + 3600 * h)[:-1] + f"{h:+03d}:00"}
    rp = rng.choice(reprs) if rng else "string"
    dup = len({t[0] for t in e["tags"]}) < len(e["tags"])
    # PBF files have signed numbers there, and no nodes without position
    readable = (e["t"] != "n" or e["ll"] is not None) and all((e[k] or 0) < 2**31 for k in ("ver", "uid", "cs"))
    if dup or (rp.startswith("read") and not readable):
        if not readable:
            # repeated keys: neither setters nor, with this content, PBF make that
            d["tags"] = e["tags"] = [t for i, t in enumerate(e["tags"]) if t[0] not in [x[0] for x in e["tags"][:i]]]
            rp = "string"
        elif not rp.startswith("read"):
            rp = rng.choice(["read_string", "read_arc"]) if rng else "read_string"
    d["repr"] = rp
    if rp == "arc":
        d["seed"] = SEEDS[e["t"]]
    elif rp.startswith("read"):
        d["ts"] = None if e["ts"] is None else {"num": e["ts"]}
        d["seed"] = pbf.one_object(d).hex()
    return d


BLANK = {"id": 1, "ver": None, "ts": None, "cs": None, "uid": None, "user": None, "del": False, "tags": [], "ll": [0, 0],
         "nodes": [], "mem": []}
SEEDS = {t: pbf.one_object({**BLANK, "t": t}).hex() for t in "nwr"}


def reprs(c):
    return ["string", "string", "arc", "read_string", "read_arc"] + (["rc"] if c.hook else [])


# ---------------------------------------------------------------- P08


def write_and_read(c, items):
    """items: (writer, expected objects, calls). Yields (case, expected, outcome of reading)"""
    items = list(items)
    cases = [{"op": "write", "writer": w, "sink": {}, "calls": calls} for w, _, calls in items]
    docs = []
    for case, (w, exp, _), r in zip(cases, items, c.run_cases(cases)):
        bad = core.bad_run(r)
        if bad or "doc" not in r:
            c.fail(f"writing {w}: {bad or r}", case)
            continue
        wrong = [x for x in r["calls"] if x["r"] != "ok"]
        if wrong:
            c.fail(f"writing {w}: a call does not succeed", case, "ok", wrong[0])
            continue
        docs.append((case, exp, r["doc"]))
    rc = [{"op": "read", "reader": case["writer"], "via": "stream", "data": d, "calls": pbf_checks.LONG_DRAIN, "sched": {}}
          for case, _, d in docs]
    for (case, exp, d), r in zip(docs, c.run_cases(rc)):
        case = dict(case, document=bytes.fromhex(d).decode("utf-8", "replace")[:2000])
        yield case, exp, d, r


END = b"\n</osm>"


def closed_twice(case, d):
    """The known finding: XMLWriter ends the document once more for each close, and when dropped"""
    return case["writer"] == "xml" and any(x[0] in ("close", "from_iter") for x in case["calls"]) and \
        bytes.fromhex(d).endswith(END + END)


def check_round(c, items, fields=xmldoc.FIELDS):
    for case, exp, d, r in write_and_read(c, items):
        c.validated += 1
        if closed_twice(case, d) and "calls" in r:
            got = r["calls"][0]
            if xml_checks.compare(c, case, case["writer"], got["items"], exp, fields) and got["end"] != "none":
                c.fail("a document closed explicitly does not read to its end", case, "none", got["end"], key="xml-double-close")
            continue
        items_ = pbf_checks.outcome(c, r, case, case["writer"])
        if items_ is not None:
            xml_checks.compare(c, case, case["writer"], items_, exp, fields)


def ending(rng, w):
    k = rng.random()
    if w == "osc" and k < 0.4:
        return [["close"]]
    if w == "xml" and k < 0.05:
        return [["close"]]  # the known finding
    return [["drop"]] if k < 0.7 else []


def round_items(c, recs, concs):
    items = []
    for rec in recs:
        for k in range(concs):
            rng = c.rng if k or concs == 1 else None
            for w in ("xml", "osc"):
                conc = WConc(rng)
                exp = [conc.expect(o) for o in rec["o"]]
                calls = [["obj", describe(e, c.rng, reprs(c))] for e in exp]
                if w == "xml" and c.rng.random() < 0.1:
                    calls.insert(0, ["hdr", "note", random_text(c.rng)])
                items.append((w, exp, calls + ending(c.rng, w)))
    return items


def sized_items(c, recs, n):
    """Sequences of many objects, objects with much in them, long texts (stretched as in XmlStretch: what is written
    is what must be read, however much of it there is)"""
    recs = [{"x": r["o"]} for r in recs if r["o"] and all(len({k for k, _ in o["tags"]}) == len(o["tags"]) for o in r["o"])]
    for r, q, fill in xml_checks.stretchings(c.rng, recs, n):
        conc = WConc(c.rng)
        conc.fill = fill
        exp = [conc.expect(o) for o in xml_checks.stretch_out(q, r["x"])]
        for w in ("xml", "osc"):
            yield w, exp, [["obj", describe(e, c.rng, reprs(c))] for e in exp] + [["drop"]]


def random_objs(rng, n):
    v = lambda hi=6: rng.choice([-1, rng.randint(0, hi)])
    out = []
    for i in range(rng.randint(0, n)):
        t = rng.choice(["node", "way", "relation"])
        keys = rng.sample(range(0, 10), rng.choice([0, 0, 1, 3, 8]))
        if rng.random() < 0.1:
            keys = keys + keys[:1]
        out.append({"t": t, "id": i, "ver": v(), "cs": v(), "uid": v(), "user": v(9), "ts": v(), "del": rng.random() < 0.2,
                    "ll": [rng.randint(0, 2), rng.randint(0, 2)] if t == "node" and (rng.random() < 0.8 or len(set(keys)) < len(keys)) else [],
                    "tags": [[k, rng.randint(0, 9)] for k in keys],
                    "nodes": [rng.randint(0, 50) for _ in range(rng.choice([0, 1, 4, 20]))] if t == "way" else [],
                    "mem": [[rng.randint(1, 3), rng.randint(0, 50), rng.randint(0, 9)] for _ in range(rng.choice([0, 1, 3, 9]))]
                    if t == "relation" else []})
    return out


def round_traces(c, n, size):
    items, meta = [], {}
    for _ in range(n):
        objs = random_objs(c.rng, size)
        w = c.rng.choice(["xml", "osc"])
        conc = WConc(c.rng)
        if any(len({t[0] for t in o["tags"]}) < len(o["tags"]) for o in objs):
            conc.num = 1  # such objects come from PBF
        calls = [["obj", describe(conc.expect(o), c.rng, reprs(c))] for o in objs]
        items.append((w, (objs, conc), calls + [["drop"]]))
    trs, origin = [], []
    for case, (objs, conc), d, r in write_and_read(c, items):
        got = pbf_checks.outcome(c, r, case, case["writer"])
        if got is None:
            continue
        try:
            tree = abstract_tree(xmldoc.expat_tree(bytes.fromhex(d)), conc)
        except Exception as e:
            c.fail(f"the document is not well-formed: {e}", case)
            continue
        trs.append({"o": objs, "ch": case["writer"] == "osc", "d": tree, "obs": [xml_checks.abstract(o, conc) for o in got]})
        origin.append((case, got))

    def spoil(t):
        t = json.loads(json.dumps(t))
        o = c.rng.choice(t["obs"])
        c.rng.choice([lambda: t["obs"].remove(o), lambda: o.update(ver=77), lambda: o["tags"].append([1, 1]),
                      lambda: o.update({"del": not o["del"]})])()
        return t

    pbf_checks.validate(c, "XmlRoundTrace", trs, origin, spoil, lambda t: len(t["obs"]))


def abstract_tree(e, conc):
    """What an independent parser sees, in the values of the specification (999: none of them)"""
    ids = {str(conc.id(x)): x for x in range(0, 200)}
    uints = {str(conc.uint(x)): x for x in range(0, 20)}
    texts = {conc.text(x): x for x in range(0, 10)}
    types = {v: k for k, v in xmldoc.TYPES.items()}

    def deg(s):
        n = round(float(s) * 1e7)
        return {conc.inner(x): x for x in range(0, 20)}.get(n, 999)

    def when(s):
        t = xmldoc.instant({"iso": s})
        return t - conc.ts0 if isinstance(t, int) and abs(t - conc.ts0) < 99 else 999

    def val(k, s):
        if k in ("id", "ref"):
            return ids.get(s, 999)
        if k in ("version", "changeset", "uid"):
            return uints.get(s, 999)
        if k in ("lat", "lon"):
            return deg(s)
        if k == "visible":
            return {"true": 1, "false": 0}.get(s, 999)
        if k == "timestamp":
            return when(s)
        if k == "type":
            return types.get(s, 999)
        return texts.get(s, 999)

    def one(e):
        return {"n": e[0], "a": sorted([k, val(k, v)] for k, v in e[1].items()), "c": [one(x) for x in e[2]]}

    return [one(x) for x in e[2]]


def p08(c):
    total, all_recs = 0, []
    for cfg, n, k in (("XmlRoundField", c.pick(1, 2), 1500), ("XmlRoundKid", c.pick(1, 2), 1200), ("XmlRoundList", c.pick(1, 2), 500)):
        recs = c.tlc("XmlRound", cfg, consts={"N": n})
        total += len(recs)
        all_recs += recs
        check_round(c, round_items(c, pbf_checks.sample_records(c, recs, c.pick(k, k * 6)), c.pick(2, 4)))
    c.notes["object_sequences_model_checked"] = total
    check_round(c, sized_items(c, all_recs, c.pick(26, 130)))
    round_traces(c, c.pick(120, 800), c.pick(12, 30))
    # however the draws went: the known finding
    e = {k: v for k, v in dict(BLANK, t="n", tags=[["a", "b"]]).items() if k not in ("nodes", "mem")}
    d = describe(e, None, ["string"])
    check_round(c, [("xml", [e], [["obj", d], ["close"], ["drop"]])])


# ---------------------------------------------------------------- P10

SLOTS = ("id", "visible", "version", "user", "uid", "changeset", "timestamp", "lat", "lon")


def text_obj(i, t, u):
    """An object with these texts in its places"""
    d = dict(BLANK, id=i, t="nwr"[i % 3], ll=None, user=t if i % 2 else u, ts={"iso": u if i % 2 else t},
             tags=[[t, u]] if i % 4 < 2 else [[u, t]], mem=[])
    if t != u and i % 5 == 0:
        d["tags"] = [[t, u], [u, t]]
    if d["t"] == "r":
        d["mem"] = [["n", 1, t], ["w", 2, u], ["r", 3, t + u]]
        if i % 4 == 0:
            d["tags"] = []
    if d["t"] == "w":
        d["nodes"] = [i, 7]
    return d


def check_tree(tree, w, objs, hdrs):
    """What is wrong with what the independent parser sees, or None"""
    def attrs(e, exp, optional=()):
        for k, v in exp.items():
            if e[1].get(k) != v:
                return f"{e[0]}: attribute {k} is {e[1].get(k)!r}, not {v!r}"
        extra = set(e[1]) - set(exp) - set(optional)
        if extra:
            return f"{e[0]}: unintended attributes {sorted(extra)}"
        return None

    if tree[0] != ROOT[w]:
        return f"root is {tree[0]}"
    bad = attrs(tree, hdrs, ("version", "generator"))
    if bad:
        return bad
    els = tree[2]
    if w == "osc":
        for s in els:
            if s[0] not in ("create", "modify") or s[1]:
                return f"unintended element {s[0]}"
        els = [e for s in els for e in s[2]]
    if len(els) != len(objs):
        return f"{len(els)} objects instead of {len(objs)}"
    for e, o in zip(els, objs):
        if e[0] != NAMES[o["t"]]:
            return f"{e[0]} instead of {NAMES[o['t']]}"
        bad = attrs(e, {"id": str(o["id"]), "user": o["user"], "timestamp": o["ts"]["iso"]}, ("visible",))
        if bad:
            return bad
        exp = [("nd", {"ref": str(n)}) for n in o["nodes"]] if o["t"] == "w" else []
        exp += [("member", {"type": NAMES[t], "ref": str(r), "role": role}) for t, r, role in o["mem"]]
        exp += [("tag", {"k": k, "v": v}) for k, v in o["tags"]]
        # where the tags stand among the others means nothing
        got = sorted(e[2], key=lambda x: ["nd", "member", "tag"].index(x[0]) if x[0] in ("nd", "member", "tag") else 9)
        if [x[0] for x in got] != [x[0] for x in exp]:
            return f"children {[x[0] for x in got]} instead of {[x[0] for x in exp]}"
        for x, (_, a) in zip(got, exp):
            bad = attrs(x, a)
            if bad:
                return bad
            if x[2]:
                return f"{x[0]} has children"
    return None


def raw_tags(data):
    """[(attribute names, source text of the attributes)] of each start tag, found without decoding anything"""
    import xml.parsers.expat

    starts = []
    p = xml.parsers.expat.ParserCreate()
    p.ordered_attributes = True
    p.StartElementHandler = lambda n, a: starts.append((p.CurrentByteIndex, n, a))
    p.Parse(data, True)
    for at, n, a in starts:
        i, q = at + 1 + len(n), None
        while q or data[i:i + 1] != b">":
            ch = data[i:i + 1]
            q = None if ch == q else (ch if q is None and ch in (b'"', b"'") else q)
            i += 1
        src = data[at + 1 + len(n):i]
        if src.endswith(b"/"):
            src = src[:-1]
        yield n, a[::2], a[1::2], src.decode() + ">"


def text_cases(c, pairs, per):
    cases, meta = [], []
    for j in range(0, len(pairs), per):
        for w in ("xml", "osc"):
            objs = [text_obj(i, t, u) for i, (t, u) in enumerate(pairs[j:j + per], start=j)]
            hdrs = {}
            if w == "xml":
                hdrs = {f"h{i}": x for i, x in enumerate(x for p in pairs[j:j + 4] for x in p)}
                if j % 3 == 0:
                    hdrs["generator"] = pairs[j][0]
            calls = [["hdr", k, v] for k, v in hdrs.items()]
            calls += [["obj", dict(o, repr=c.rng.choice(["string", "string", "arc"] + (["rc"] if c.hook else [])), seed=SEEDS[o["t"]])]
                      for o in objs]
            cases.append({"op": "write", "writer": w, "sink": {}, "calls": calls + [["drop"]]})
            meta.append((w, objs, hdrs))
    return cases, meta


def check_texts(c, pairs, per=50, traces=None):
    cases, meta = text_cases(c, pairs, per)
    for case, (w, objs, hdrs), r in zip(cases, meta, c.run_cases(cases)):
        c.validated += len(objs)
        bad = core.bad_run(r) or next((x for x in r["calls"] if x["r"] != "ok"), None)
        if bad:
            c.fail(f"writing {w}: {bad}", case)
            continue
        data = bytes.fromhex(r["doc"])
        try:
            tree = xmldoc.expat_tree(data)
        except Exception as e:
            c.fail(f"{w}: the document is not well-formed: {e}", case, None, data.decode("utf-8", "replace")[:3000])
            continue
        bad = check_tree(tree, w, objs, hdrs)
        c.events += len(objs) * 5
        if bad:
            c.fail(f"{w}: {bad}", case, None, data.decode("utf-8", "replace")[:3000])
        elif traces is not None:
            byid = {str(o["id"]): o for o in objs}
            for n, names, vals, src in raw_tags(data):
                if n in ("node", "way", "relation") and "id" in names:
                    o = byid[vals[names.index("id")]]
                    want = {"user": o["user"], "timestamp": o["ts"]["iso"]}
                    kids = iter(o["mem"])
                    tags = iter(o["tags"])
                elif n == ROOT[w]:
                    want = hdrs
                elif n == "member":
                    want = {"role": next(kids)[2]}
                elif n == "tag":
                    want = dict(zip("kv", next(tags)))
                else:
                    continue
                traces.append(({"t": [list(map(ord, want.get(k, v))) for k, v in zip(names, vals)], "w": list(map(ord, src))}, case, src))
    return cases


def p10(c):
    recs = c.tlc("XmlText", consts={"MaxLen": c.pick(3, 4), "MaxOther": 1})
    c.notes["text_pairs_model_checked"] = len(recs)
    recs = pbf_checks.sample_records(c, recs, c.pick(30000, 300000))
    pairs = [tuple("".join(map(chr, t)) for t in r["t"]) for r in recs]
    # the same texts, with other characters in the place of the ordinary ones
    other = str.maketrans({"a": "\u0085", "\u00e9": "\U0010fffd"})
    pairs = [(t.translate(other), u) if i % 7 == 0 else (t, u) for i, (t, u) in enumerate(pairs)]
    cases = check_texts(c, pairs)
    c.sample({"texts": pairs[-3:]})
    # longer texts of any characters; what is written is read by the parser of the specification, too
    pairs = [(random_text(c.rng, c.rng.choice([3, 12, 60])), random_text(c.rng, 8)) for _ in range(c.pick(2500, 30000))]
    trs = []
    check_texts(c, pairs, 10, trs)
    # long ones: around the sizes of buffers, too
    long = lambda: xml_checks.long_text(c.rng, c.rng.choice([200, 254, 255, 256, 257, 300, 1023, 1025, 4096, 8190, 8200, 20000, 70000])) \
        + random_text(c.rng, 4)
    check_texts(c, [(long(), c.rng.choice([random_text(c.rng, 5), long()])) for _ in range(c.pick(120, 1500))], 4)
    short = [x for x in trs if len(x[0]["w"]) < 150]
    trs = c.rng.sample(short, min(len(short), c.pick(700, 4000)))

    def spoil(t):
        t = json.loads(json.dumps(t))
        k = c.rng.choice([i for i, x in enumerate(t["t"])])
        t["t"][k] = t["t"][k] + [97]
        return t

    pbf_checks.validate(c, "XmlTextTrace", [x[0] for x in trs], [(x[1], x[2]) for x in trs], spoil, lambda t: len(t["t"]))


# ---------------------------------------------------------------- P09


def small_obj(n, rng=None, rp=("string",)):
    """An object told apart by its id; of different kinds and sizes"""
    d = dict(BLANK, t="nwr"[n % 3], id=n, ll=[n, -n] if n % 3 == 0 else None)
    if rng is not None:
        if rng.random() < 0.7:
            d["tags"] = [["a<", "b\""]][:rng.randint(0, 1)] + [["k", str(n)]]
        if rng.random() < 0.5:
            d.update(ver=1, cs=2, uid=3, user="u&", ts={"num": 1000 + n})
        d["nodes"], d["mem"] = [1, n], [["n", n, "x"]]
        d["del"] = rng.random() < 0.2
    d["repr"] = rng.choice(rp) if rng else "string"
    d["seed"] = SEEDS[d["t"]]
    return d


def writer_calls(c, h, headers, ids):
    rp = reprs(c)[:3] + (["rc"] if c.hook else [])
    out = []
    for x in h:
        if x[0] == "hdr":
            out.append(["hdr", headers[x[1]][0], headers[x[1]][x[2]]])
        elif x[0] == "obj":
            out.append(["obj", small_obj(ids[x[1]], c.rng, rp)])
        elif x[0] == "from_iter":
            out.append(["from_iter", [small_obj(ids[n], c.rng) for n in x[1]]])
        else:
            out.append(list(x))
    return out


def pick_headers(rng):
    own = rng.choice(["generator", "version"])
    return {1: [own, "1.0", "my <own>"], 2: ["note", "first", "sec & \"ond\""], 3: ["upload", "true", ""]}


def tokens(data, w, headers, ids):
    """The tokens an independent parser finds in a document, and the headers; raises if it is not well-formed"""
    tree = xmldoc.expat_tree(data)
    if tree[0] != ROOT[w]:
        raise ValueError(f"root {tree[0]}")
    els = tree[2]
    if w == "osc":
        els = [e for s in els for e in s[2]]
    back = {v: k for k, v in ids.items()}
    toks = [{"k": "H", "n": 0}]
    for e in els:
        i = back.get(int(e[1].get("id", "-1")), 0)
        if e[0] != NAMES["nwr"[ids.get(i, 0) % 3]]:
            i = 0
        toks.append({"k": "O", "n": i})
    toks.append({"k": "E", "n": 0})
    names = {v[0]: (k, v) for k, v in headers.items()}
    hd = []
    for k, v in tree[1].items():
        if k in names:
            n, vals = names[k]
            if v in vals[1:]:
                hd.append([n, vals.index(v, 1)])
            elif k not in ("generator", "version"):
                hd.append([n, 99])
        elif k not in ("generator", "version"):
            hd.append([98, 98])
    return toks, hd


def peel(c, w, case, data):
    """Without the ends the known finding adds (as many as there are further closes, at most)"""
    if w != "xml":
        return data
    closes = sum(1 for x in case["calls"] if x[0] in ("close", "from_iter", "drop")) + (case["calls"][-1:] != [["drop"]])
    n = 0
    while n < closes - 1 and data.endswith(END + END):
        data = data[:-len(END)]
        n += 1
    if n:
        c.fail("XMLWriter ends the document more than once", case, None, None, key="xml-double-close")
    return data


def short(r):
    return {"ok": "ok", "panic": "panic"}.get(r, "err")


def run_writer_histories(c, items):
    """items: (kind, calls as in Writer.tla). Yields what the real writer did, for each"""
    cases, meta = [], []
    for w, h in items:
        headers, ids = pick_headers(c.rng), dict(zip(range(1, 10), c.rng.sample(range(1, 60), 9)))
        case = {"op": "write", "writer": w, "sink": {"chunk": c.rng.choice([0, 0, 1, 5])},
                "calls": writer_calls(c, h, headers, ids)}
        if h[0][0] == "from_iter":
            case["lazy"] = 1
        if c.rng.random() < 0.3 and case["calls"][-1][0] == "drop":
            case["calls"].pop()  # dropped at the end of the scope
        cases.append(case)
        meta.append((w, h, headers, ids))
    for case, m, r in zip(cases, meta, c.run_cases(cases)):
        c.validated += 1
        bad = core.bad_run(r)
        if bad or r["drop"] != "ok":
            c.fail(f"{m[0]} writer: {bad or 'dropping it panics'}", case, None, r)
            yield case, m, None, None
            continue
        calls = [{"r": short(x["r"]), "open": -1 if x["open"] is None else int(x["open"]), "b": x["bytes"], "msg": x["msg"]}
                 for x in r["calls"]]
        if len(calls) < len(m[1]):
            calls.append({"r": "ok", "open": -1, "b": len(r["doc"]) // 2, "msg": None})
        c.events += len(calls)
        yield case, m, calls, bytes.fromhex(r["doc"])


def check_document(c, case, w, data, headers, ids, rec):
    data = peel(c, w, case, data)
    try:
        toks, hd = tokens(data, w, headers, ids)
    except Exception as e:
        c.fail(f"{w} writer: not one well-formed document: {e}", case, None, data.decode("utf-8", "replace")[-500:])
        return
    if [t["n"] for t in toks if t["k"] == "O"] != rec["o"]:
        c.fail(f"{w} writer: other objects in the document", case, rec["o"], toks)
    elif sorted(hd) != sorted(rec["hd"]):
        c.fail(f"{w} writer: other headers in the document", case, rec["hd"], hd)


def p09(c):
    recs = c.tlc("Writer", consts={"MaxCalls": c.pick(5, 6)})
    c.notes["histories_model_checked"] = len(recs)
    recs = pbf_checks.sample_records(c, recs, c.pick(16000, 80000))
    items = [(rec["k"], [x["c"] for x in rec["h"]]) for rec in recs]
    for (case, (w, h, headers, ids), calls, data), rec in zip(run_writer_histories(c, items), recs):
        if calls is None:
            continue
        for i, (x, e) in enumerate(zip(calls, rec["h"])):
            if x["r"] == "panic" or (e["r"] != "any" and x["r"] != e["r"]) or x["open"] != e["open"]:
                c.fail(f"{w} writer: call {i} {h[i]}: {x['r']}, open {x['open']}", case, e, x)
                break
            if e["r"] == "err" and x["b"] != (calls[i - 1]["b"] if i else 0):
                c.fail(f"{w} writer: a refused call writes", case, e, x)
                break
        else:
            check_document(c, case, w, data, headers, ids, rec)
    c.sample({"calls": items[-1][1], "document": data.decode()[:300] if data else None})
    writer_traces(c, c.pick(250, 3000), c.pick(14, 40))


def writer_traces(c, n, size):
    """Longer histories: TLC compares"""
    items = []
    for _ in range(n):
        w = c.rng.choice(["xml", "osc"])
        h, closed = [], False
        if c.rng.random() < 0.1:
            h.append(["from_iter", [c.rng.randint(1, 9) for _ in range(c.rng.randint(0, 6))]])
        for _ in range(c.rng.randint(0, size)):
            k = c.rng.random()
            if k < 0.15 or (not h and k < 0.5):
                h.append(["hdr", c.rng.randint(1, 3), c.rng.randint(1, 2)])
            elif k < 0.93:
                h.append(["obj", c.rng.randint(1, 9)])
            else:
                h.append(["close"])
        items.append((w, h + [["drop"]]))
    for w in ("xml", "osc"):
        for k in (300, 1100, c.pick(2100, 5000)):
            h = [["hdr", 1, 2]] if k > 300 else [["from_iter", [c.rng.randint(1, 9) for _ in range(k)]]]
            h += [["obj", c.rng.randint(1, 9)] for _ in range(k)]
            items.append((w, h + ([["close"], ["obj", 1]] if k > 300 and w == "osc" else []) + [["drop"]]))
    trs, origin = [], []
    for case, (w, h, headers, ids), calls, data in run_writer_histories(c, items):
        if calls is None:
            continue
        data = peel(c, w, case, data)
        try:
            toks, hd = tokens(data, w, headers, ids)
        except Exception as e:
            c.fail(f"{w} writer: not one well-formed document: {e}", case, None, data.decode("utf-8", "replace")[-500:])
            continue
        ev = [{"c": a, "r": x["r"], "open": x["open"], "grown": x["b"] - (calls[i - 1]["b"] if i else 0)}
              for i, (a, x) in enumerate(zip(h, calls))]
        trs.append({"k": w, "h": ev, "out": toks, "hd": hd})
        origin.append((case, ev))

    def spoil(t):
        t = json.loads(json.dumps(t))
        k = c.rng.random()
        if k < 0.3:
            t["out"].append({"k": "E", "n": 0})
        elif k < 0.6:
            t["out"].insert(1, {"k": "O", "n": 0})
        else:
            e = c.rng.choice(t["h"])
            e["open"] = {0: 1, 1: 0, -1: 1}[e["open"]]
        return t

    pbf_checks.validate(c, "WriterTrace", trs, origin, spoil, lambda t: len(t["h"]))


# ---------------------------------------------------------------- P11

HOWS = ["other", "broken", "timeout", "full", "zero", "block", "denied"]


def fault_histories(c, n):
    out = []
    for _ in range(n):
        w = c.rng.choice(["xml", "osc"])
        calls = []
        if c.rng.random() < 0.5:
            calls.append(["hdr", "note", "a & b"])
        for i in range(c.rng.choice([0, 1, 2, 3])):
            calls.append(["obj", small_obj(c.rng.randint(1, 50), c.rng, reprs(c)[:3])])
            if c.rng.random() < 0.1:
                calls.append(["hdr", "late", "x"])
        if c.rng.random() < 0.5:
            calls.append(["close"])
            if c.rng.random() < 0.3:
                calls.append(["obj", small_obj(3)])
        out.append((w, calls + [["drop"]]))
    for w in ("xml", "osc"):
        # larger than any buffer
        big = small_obj(c.rng.randint(1, 50), c.rng, reprs(c)[:3])
        big["tags"] = [[f"k{i}", xml_checks.long_text(c.rng, c.rng.choice([5, 300]))] for i in range(150)]
        long = small_obj(c.rng.randint(1, 50), c.rng, reprs(c)[:3])
        long["tags"] = [["long", xml_checks.long_text(c.rng, 20000)]]
        many = [["obj", small_obj(i, c.rng, reprs(c)[:3])] for i in range(1, 60)]
        out.append((w, [["obj", big], ["obj", long]] + many + [["close"], ["drop"]]))
    return out


def p11(c):
    c.tlc("WriterFault")
    hs = fault_histories(c, c.pick(24, 150))
    refs = c.run_cases([{"op": "write", "writer": w, "sink": {}, "calls": calls} for w, calls in hs])
    cases, meta = [], []
    for (w, calls), ref in zip(hs, refs):
        if core.bad_run(ref) or any(x["r"] == "panic" for x in ref["calls"]):
            c.fail(f"{w} writer: fails without any fault", calls, None, ref)
            continue
        size = len(ref["doc"]) // 2
        points = range(size + 2)
        if not c.thorough and size > 500:
            points = sorted(c.rng.sample(points, 450) + [0, 1, size - 1, size])
        for at in points:
            for perm in (True, False):
                sink = {"fail_at": at, "permanent": perm, "how": c.rng.choice(HOWS), "chunk": c.rng.choice([0, 0, 0, 1, 3])}
                if c.rng.random() < 0.1:
                    sink["intr"] = [c.rng.randint(0, 40), c.rng.randint(0, 40)]
                cases.append({"op": "write", "writer": w, "sink": sink, "calls": calls})
                meta.append((ref, at, perm))
        for how in HOWS:
            # a sink that takes everything but cannot flush
            cases.append({"op": "write", "writer": w, "sink": {"flush_fails": True}, "calls": calls})
            meta.append((ref, size + 1, True))
            break
    trs, origin = [], []
    for case, (ref, at, perm), r in zip(cases, meta, c.run_cases(cases)):
        bad = core.bad_run(r)
        if bad:
            c.fail(f"{case['writer']} writer: {bad}", case)
            continue
        whole, got = ref["doc"], r["doc"]
        cut = len(got) if r["at_failure"] is None else 2 * r["at_failure"]
        if got[:cut] != whole[:cut] or (r["at_failure"] is None and got != whole):
            c.fail(f"{case['writer']} writer: what was delivered before the sink failed is not the start of the document", case,
                   whole, got)
            continue
        if case["sink"].get("flush_fails"):
            # failing to flush is a failure like any other (these writers need not flush)
            f0 = 0
            for x, e in zip(r["calls"][:-1], ref["calls"]):
                if x["r"] != ("io" if x["failures"] > f0 else e["r"]) and not f0:
                    c.fail(f"{case['writer']} writer: a failing flush is not reported", case, None, x)
                f0 = x["failures"]
            if r["drop"] != "ok" or r["calls"][-1]["r"] != "ok":
                c.fail(f"{case['writer']} writer: dropping it panics", case, None, r)
            continue
        trs.append(fault_trace(case, ref, r, at, perm))
        origin.append((case, r["calls"]))

    def spoil(t):
        t = json.loads(json.dumps(t))
        i = next((i for i, e in enumerate(t["ev"][:-1]) if e["failed"]), None)
        if i is not None:
            t["ev"][i]["r"] = "ok"
        else:
            t["ev"][0]["took"] += 1
        return t

    c.notes["fault_points"] = len(trs)
    for j in range(0, len(trs), 40000):
        pbf_checks.validate(c, "WriterFaultTrace", trs[j:j + 40000], origin[j:j + 40000], spoil, lambda t: len(t["ev"]))
    from_iter_faults(c)


def fault_trace(case, ref, r, at, perm):
    def steps(calls):
        b = 0
        for x in calls:
            yield x["bytes"] - b
            b = x["bytes"]

    res = lambda x: {"ok": "ok", "io": "io", "panic": "panic"}.get(x["r"], "refused")
    lens = list(steps(ref["calls"]))
    ev, before, f = [], [], 0
    b = 0
    for x, took in zip(r["calls"], steps(r["calls"])):
        ev.append({"r": res(x), "took": took, "failed": x["failures"] > f})
        before.append(b)
        b, f = x["bytes"], x["failures"]
    return {"lens": lens, "refused": [i + 1 for i, x in enumerate(ref["calls"]) if res(x) == "refused"], "cap": at, "perm": perm,
            "ev": ev, "before": before}


def from_iter_faults(c):
    """from_iter cannot report an error"""
    cases = []
    for w in ("xml", "osc"):
        objs = [small_obj(1), small_obj(2)]
        for at in (0, 1, 60, 120, 200):
            for perm in (True, False):
                cases.append({"op": "write", "writer": w, "lazy": 1, "sink": {"fail_at": at, "permanent": perm, "how": "full"},
                              "calls": [["from_iter", objs], ["drop"]]})
    for case, r in zip(cases, c.run_cases(cases)):
        c.validated += 1
        bad = core.bad_run(r)
        if bad:
            c.fail(f"from_iter: {bad}", case)
        elif r["failures"] and r["calls"][0]["r"] == "panic":
            c.fail("from_iter panics when the sink fails", case, None, r["calls"][0], key="from-iter-panics")
        elif r["drop"] != "ok" or r["calls"][-1]["r"] == "panic":
            c.fail("from_iter, or dropping what it returned, panics", case, None, r)
