"""P21: sources (Source, SourceDocs, SourceTrace)."""
import bz2
import json

import core
import pbf
import pbf_checks

DRAIN = [["drain"], ["next"]]
STREAM = {"exact": ["pbf", "arc", "pos"], "xml": ["xml"], "osc": ["osc"], "cs": ["cs"]}
FILES = {"exact": ["pbf", "read_pbf", "arc", "pos"], "xml": ["xml"], "osc": [], "cs": []}
BZ_STREAM = {"xml": ["xml_bz2"], "osc": ["osc_bz2"], "cs": ["cs_bz2"]}
BZ_FILES = {"xml": ["xml_bz2", "read_xml"], "osc": [], "cs": ["cs", "cst"]}
SNIPPETS = ["a", "é", "日本語", "𝔘𝔫𝔦", "&amp;", "&lt;b&gt;", "&#10;", "&#x1F600;", "  ", "x=1", "'", "/>", "ß"]


def words(rng):
    return "".join(rng.choice(SNIPPETS) for _ in range(rng.randint(1, 4)))


def tags(rng, n):
    return "".join(f'<tag k="k{j}{words(rng)}" v="{words(rng)}"/>' for j in range(n))


def filler(rng):
    return rng.choice(["", "", "\n", "\r\n\t", "<!-- é -->", "<!-- <node id='7'/> -->", "  ", "<note>&amp;</note>", "<?p q?>"])


def element(rng, kind, i):
    ts = f'timestamp="20{rng.randint(10, 30)}-0{rng.randint(1, 9)}-1{rng.randint(0, 9)}T12:00:0{rng.randint(0, 9)}Z"'
    if kind == "cs":
        extra = '<discussion><comment date="2020-01-01T00:00:00Z" uid="1" user="é"><text>&lt;tag k="z" v="z"/&gt; 日</text></comment></discussion>' if rng.random() < 0.3 else ""
        when = f'created_at="{ts[11:-1]}" closed_at="2030-01-01T00:00:00Z" open="{rng.choice(["true", "false"])}"'
        return f'<changeset id="{i}" {when} user="{words(rng)}" uid="{rng.randint(1, 99)}" num_changes="{rng.randint(0, 99)}" comments_count="0">{tags(rng, rng.randint(1, 4))}{extra}</changeset>'
    meta = f'id="{i}" version="{rng.randint(1, 9)}" changeset="{rng.randint(1, 999)}" uid="4" user="{words(rng)}" visible="{rng.choice(["true", "false"])}" {ts}'
    t = rng.choice("nwr")
    if t == "n":
        a = f'{meta} lat="{rng.uniform(-90, 90):.7f}" lon="{rng.uniform(-180, 180):.7f}"'
        return f"<node {a}/>" if rng.random() < 0.4 else f"<node {a}>{tags(rng, rng.randint(0, 3))}</node>"
    if t == "w":
        return f"<way {meta}>" + "".join(f'<nd ref="{rng.randint(1, 999)}"/>' for _ in range(rng.randint(0, 4))) + f"{tags(rng, rng.randint(0, 3))}</way>"
    return f"<relation {meta}>" + "".join(f'<member type="{rng.choice(["node", "way", "relation"])}" ref="{rng.randint(1, 99)}" role="{words(rng)}"/>'
                                        for _ in range(rng.randint(0, 3))) + f"{tags(rng, rng.randint(0, 2))}</relation>"


def text_input(rng, kind, n):
    """-> (one list of fields per record, a record being one field; tail; ids)"""
    head = rng.choice(["", '<?xml version="1.0" encoding="UTF-8"?>\n', "<?xml version='1.0'?>"]) + {"osc": "<osmChange>", "xml": '<osm version="0.6">', "cs": "<osm>"}[kind]
    recs, before, section = [], head, None
    for i in range(1, n + 1):
        if kind == "osc" and (section is None or rng.random() < 0.4):
            before += f"</{section}>" if section else ""
            section = rng.choice(["create", "modify", "delete"])
            before += f"<{section}>"
        recs.append([(before + filler(rng) + element(rng, kind, i)).encode()])
        before = ""
    tail = before + filler(rng) + (f"</{section}>" if section else "") + {"osc": "</osmChange>", "xml": "</osm>", "cs": "</osm>"}[kind] + rng.choice(["", "\n", "<!-- e -->"])
    return recs, tail.encode(), list(range(1, n + 1))


def blob_input(rng, n):
    while True:
        f = pbf_checks.random_file(rng, n, 4)
        if len(f) == n:
            break
    conc = pbf.random_conc(rng, positions=False)
    recs = [list(pbf.enc_blob(conc, b)) for b in pbf_checks.enc_abstract(rng, f)]
    counts = [sum(len(g["objs"]) for g in b["gr"]) if b["k"] == "data" else 0 for b in f]
    nodes = [sum(len(g["objs"]) for g in b["gr"] if g["k"] == "dense") if b["k"] == "data" else 0 for b in f]
    return recs, b"", {"all": counts, "pos": nodes}


def make_input(rng, kind, n):
    return blob_input(rng, n) if kind == "exact" else text_input(rng, kind, n)


def cell_ends(rng, recs, tail, rec):
    """Where the cells of the model end, in bytes: each field falls into as many pieces as it has cells"""
    out, at = [], 0
    fields = [(b, s) for r, m in zip(recs, rec["recs"]) for b, s in zip(r, m)] + ([(tail, rec["tail"])] if rec["tail"] else [])
    for b, s in fields:
        inner = list(range(1, len(b)))
        # inside characters and references, next to the ends
        odd = [k for k in inner if b[k] >= 0x80 or b[k - 1] in b"&#<=\"'"] + inner[:2] + inner[-2:]
        cuts = set()
        while len(cuts) < min(s - 1, len(inner)):
            cuts.add(rng.choice(odd if odd and rng.random() < 0.6 else inner))
        cuts = sorted(cuts)
        cuts += [len(b)] * (s - len(cuts))
        out += [at + k for k in cuts]
        at += len(b)
    return out


def script(plan, ends):
    out, cell, at = [], 0, 0
    for n in plan:
        if n == 0:
            out.append(0)
            continue
        cell += n
        if ends[cell - 1] > at:
            out.append(ends[cell - 1] - at)
        at = ends[cell - 1]
    return out


def compress(data, parts, rng):
    out, at = [], 0
    for p in parts:
        out.append(bz2.compress(data[at:at + p], rng.choice([1, 5, 9])))
        at += p
    assert at == len(data)
    return b"".join(out)


def plain_case(rd, data):
    return {"op": "read", "reader": rd, "via": "stream", "data": data.hex(), "calls": DRAIN, "sched": {}}


def count_of(kind, rd, ids):
    return sum(ids["pos" if rd == "pos" else "all"]) if kind == "exact" else len(ids)


def first_of(items, kind):
    return [x["ok"]["id"] if "ok" in x else None for x in items] if kind == "cs" else [x["id"] for x in items]


def drained(c, case, r, what):
    bad = core.bad_run(r)
    if bad or "calls" not in r:
        return c.fail(f"{what}: {bad or 'does not open: ' + str(r.get('msg'))}", case, None, r)
    a, b = r["calls"][0], r["calls"][1] if len(r["calls"]) > 1 else None
    if a["end"] != "none" or b is None or b["items"] or b["end"] != "none":
        return c.fail(f"{what}: does not come to an end: {a['end']} {str(a.get('msg', ''))[:200]}", case, None, a["items"][-2:])
    return a["items"]


class Bunch:
    """Inputs read plainly, once for each reader, and in many other ways, which must make no difference"""

    def __init__(self, c):
        self.c, self.plain, self.cases = c, {}, []

    def base(self, kind, rd, data, ids):
        key = (rd, data)
        if key not in self.plain:
            self.plain[key] = (kind, ids, plain_case(rd, data))
        return key

    def add(self, what, case, kind, rd, data, ids, tagsonly=False):
        """case must deliver what reader rd delivers of data, given in one piece"""
        self.cases.append((what, case, self.base(kind, rd, data, ids), tagsonly))

    def run(self):
        c = self.c
        keys = list(self.plain)
        res = c.run_cases([self.plain[k][2] for k in keys] + [x[1] for x in self.cases])
        want = {}
        for k, r in zip(keys, res):
            kind, ids, case = self.plain[k]
            items = drained(c, case, r, f"{k[0]}, in one piece")
            if items is None:
                continue
            n = count_of(kind, k[0], ids)
            if len(items) != n or (kind != "exact" and first_of(items, kind) != ids):
                c.fail(f"{k[0]}, in one piece: {len(items)} objects instead of {n}", case, ids, [x.get("id", x) for x in items][:50])
                continue
            want[k] = items
        for (what, case, key, tagsonly), r in zip(self.cases, res[len(keys):]):
            c.validated += 1
            if key not in want:
                continue
            items = drained(c, case, r, what)
            if items is None:
                continue
            exp = want[key]
            if tagsonly:
                exp = [{"id": x["ok"]["id"], "tags": sorted(map(list, x["ok"]["tags"]))} for x in exp]
                items = [{"id": x["ok"]["id"], "tags": sorted(map(list, x["ok"]["tags"]))} if "ok" in x else x for x in items]
            if items != exp:
                i = next((i for i, (a, b) in enumerate(zip(items, exp)) if a != b), min(len(items), len(exp)))
                c.fail(f"{what}: {len(items)} objects, {len(exp)} in one piece; the first difference is at {i}", case, exp[i:i + 1], items[i:i + 1])
            c.events += len(items)
        if self.cases:
            c.sample({"way": self.cases[-1][0], "sched": self.cases[-1][1]["sched"]})
        self.plain, self.cases = {}, []


def replay(c, recs):
    """Every schedule and division of the model"""
    b = Bunch(c)
    rng = c.rng
    for k, rec in enumerate(recs):
        n = len(rec["recs"])
        kinds = ["exact"] if rec["mode"] == "exact" else (["xml", "osc", "cs"] if c.thorough else [["xml", "osc", "cs"][k % 3]])
        for kind in kinds:
            fields, tail, ids = make_input(rng, kind, n)
            data = b"".join(x for r in fields for x in r) + tail
            ends = cell_ends(rng, fields, tail, rec)
            if len(rec["div"]) == 1:
                s = {"script": script(rec["plan"], ends)}
                for rd in STREAM[kind]:
                    b.add(f"{rd}, in pieces", {**plain_case(rd, data), "sched": s}, kind, rd, data, ids)
            if kind != "exact":
                at, parts, cells = 0, [], 0
                for d in rec["div"]:
                    cells += d
                    e = ends[cells - 1] if cells else 0
                    parts.append(e - at)
                    at = e
                z = compress(data, parts, rng)
                # the plan, in proportion
                zs = script(rec["plan"], [len(z) * (i + 1) // len(ends) for i in range(len(ends))])
                for rd in BZ_STREAM[kind]:
                    b.add(f"{rd}, compressed in parts {parts}", {**plain_case(rd, z), "sched": {"script": zs}}, kind, STREAM[kind][0], data, ids)
                for rd in BZ_FILES[kind]:
                    b.add(f"{rd} file, compressed in parts {parts}", {**plain_case(rd, z), "via": "file"}, kind, STREAM[kind][0], data, ids, rd == "cst")
    b.run()


def all_positions(c, inputs):
    """One piece more at every position, with and without an interruption there; single bytes; files"""
    b = Bunch(c)
    rng = c.rng
    for k in range(inputs):
        for kind in ("exact", "xml", "osc", "cs"):
            fields, tail, ids = make_input(rng, kind, rng.choice([1, 2, 2, 3]) if k else 2)
            data = b"".join(x for r in fields for x in r) + tail
            every = range(1, len(data))
            for rd in STREAM[kind]:
                add = lambda what, s: b.add(f"{rd}, {what}", {**plain_case(rd, data), "sched": s}, kind, rd, data, ids)
                if kind != "exact" or rd == "pbf" or k == 0 or c.thorough:
                    for p in every if len(every) < 1500 else rng.sample(every, 1500):
                        if kind == "exact":
                            # reads of exact sizes: the piece ends there whatever the reader asks for
                            s = {"script": upto(fields, p, rng.random() < 0.5)}
                        else:
                            s = {"script": [p, 0] if rng.random() < 0.5 else [p]}
                        add(f"a piece ends at {p}", s)
                for s in ({"chunks": [1]}, {"chunks": [1], "intr": [99999]}, {"intr": [99999]}, {"chunks": [2, 1, 3]}, {"chunks": [7, 64, 1]}):
                    add(f"{s}", s)
            for rd in FILES[kind]:
                b.add(f"{rd} file", {**plain_case(rd, data), "via": "file"}, kind, rd.replace("read_", ""), data, ids)
            for rd in BZ_FILES.get(kind, []):
                for parts in ([len(data)], [0, len(data)], [len(data), 0], [1] * len(data) if len(data) < 400 else [len(data)]):
                    b.add(f"{rd} file, {len(parts)} streams", {**plain_case(rd, compress(data, parts, rng)), "via": "file"}, kind, STREAM[kind][0], data, ids, rd == "cst")
                for p in every if c.thorough else rng.sample(every, min(len(every), 60)):
                    b.add(f"{rd} file, two streams of {p} and the rest", {**plain_case(rd, compress(data, [p, len(data) - p], rng)), "via": "file"}, kind, STREAM[kind][0], data, ids, rd == "cst")
            for rd in BZ_STREAM.get(kind, []):
                z = compress(data, [len(data) // 2, len(data) - len(data) // 2], rng)
                for p in range(1, len(z)) if c.thorough else rng.sample(range(1, len(z)), min(len(z) - 1, 100)):
                    b.add(f"{rd}, a piece ends at {p}", {**plain_case(rd, z), "sched": {"script": [p, 0]}}, kind, STREAM[kind][0], data, ids)
                b.add(f"{rd}, single bytes", {**plain_case(rd, z), "sched": {"chunks": [1]}}, kind, STREAM[kind][0], data, ids)
    b.run()


def upto(fields, p, intr):
    """A script which ends a piece at byte p, for a reader that asks for fields"""
    out, at = [], 0
    for r in fields:
        for f in r:
            if at + len(f) > p:
                if p > at:
                    out.append(p - at)
                return out + ([0] if intr else [])
            out.append(max(1, len(f)))
            at += len(f)
    return out


def big(c):
    """Inputs beyond the buffers: at each place of an element, the buffer ends"""
    b = Bunch(c)
    rng = c.rng
    for kind in ("xml", "osc", "cs"):
        rd = STREAM[kind][0]
        for cap in c.pick((8192,), (8192, 16384, 32768, 65536)):
            fields, tail, ids = text_input(rng, kind, 3)
            first, second = fields[0][0], fields[1][0]
            step = 1 if cap == 8192 else 7
            for k in range(0, len(second) + 2, step if c.thorough else 4):
                # the buffer ends k bytes into the second element
                pad = cap - len(first) - k
                data = first + b"<!--" + b"p" * (pad - 7) + b"-->" + second + fields[2][0] + tail
                b.add(f"{rd}, {cap} bytes, {k} into the element", {**plain_case(rd, data), "sched": {"chunks": [rng.choice([cap, cap // 2, 1 << 20])]}}, kind, rd, data, ids)
                if k % 8 == 0:
                    for f in BZ_FILES[kind][:1] + FILES[kind][:1] + (["cst"] if kind == "cs" else []):
                        z = data if f == "xml" else bz2.compress(data, 1)
                        b.add(f"{f} file, {cap} bytes, {k} into the element", {**plain_case(f, z), "via": "file"}, kind, rd, data, ids, f == "cst")
                if len(b.plain) > 200:
                    b.run()
        # more than one block of the compression, and more than one buffer
        fields, tail, ids = text_input(rng, kind, c.pick(900, 4000))
        data = b"".join(x for r in fields for x in r) + tail
        for s in ({"chunks": [1 << 20]}, {"chunks": [rng.randint(1, 9000) for _ in range(97)]}, {"chunks": [4096, 4095, 1], "intr": [0, 3, 7]}):
            b.add(f"{rd}, {len(data)} bytes", {**plain_case(rd, data), "sched": s}, kind, rd, data, ids)
        cuts = sorted(rng.sample(range(1, len(data)), 5))
        parts = [y - x for x, y in zip([0] + cuts, cuts + [len(data)])]
        for f in BZ_STREAM[kind]:
            b.add(f"{f}, {len(data)} bytes", {**plain_case(f, bz2.compress(data, 1)), "sched": {"chunks": [rng.randint(1, 9000) for _ in range(97)]}}, kind, rd, data, ids)
        for f in BZ_FILES[kind]:
            for z in (bz2.compress(data, 1), compress(data, parts, rng)):
                b.add(f"{f} file, {len(data)} bytes", {**plain_case(f, z), "via": "file"}, kind, rd, data, ids, f == "cst")
        b.run()
    for _ in range(c.pick(2, 6)):
        f = []
        while len(f) < 3:
            f = pbf_checks.random_file(rng, 5, c.pick(400, 3000))
        conc = pbf.random_conc(rng, positions=False)
        recs = [list(pbf.enc_blob(conc, x)) for x in pbf_checks.enc_abstract(rng, f)]
        data = b"".join(x for r in recs for x in r)
        ids = {"all": [sum(len(g["objs"]) for g in x["gr"]) if x["k"] == "data" else 0 for x in f],
               "pos": [sum(len(g["objs"]) for g in x["gr"] if g["k"] == "dense") if x["k"] == "data" else 0 for x in f]}
        for rd in STREAM["exact"]:
            for s in ({"chunks": [rng.randint(1, 9000) for _ in range(97)]}, {"chunks": [4096]}, {"chunks": [1, 65536], "intr": [0, 3, 7]}):
                b.add(f"{rd}, {len(data)} bytes", {**plain_case(rd, data), "sched": s}, "exact", rd, data, ids)
        for rd in FILES["exact"]:
            b.add(f"{rd} file, {len(data)} bytes", {**plain_case(rd, data), "via": "file"}, "exact", rd.replace("read_", ""), data, ids)
    b.run()


def traces(c, n):
    """What the readers asked of a source with random moods, and when they delivered; TLC judges"""
    rng = c.rng
    cases, meta = [], []
    for k in range(n):
        kind = ("exact", "xml", "osc", "cs")[k % 4]
        fields, tail, ids = make_input(rng, kind, rng.randint(0, 6))
        data = b"".join(x for r in fields for x in r) + tail
        rd = rng.choice(STREAM[kind])
        sizes = [sum(map(len, r)) for r in fields]
        if kind == "exact":
            # the objects of a blob arrive with it
            out, before = [], 0
            for s, m in zip(sizes, ids["pos" if rd == "pos" else "all"]):
                before += s
                if m:
                    out += [before] + [0] * (m - 1)
                    before = 0
            sizes, rest = out, before
        else:
            rest = len(tail)
        s = {"log": True, "chunks": [rng.choice([1, 2, 5, 30, 200, 3000]) for _ in range(11)] if rng.random() < 0.9 else [rng.choice([16, 100])]}
        if rng.random() < 0.6:
            s["intr"] = sorted(rng.sample(range(60), rng.randint(1, 12)))
        cases.append({**plain_case(rd, data), "sched": s})
        meta.append((sizes, rest, len(data)))
    trs, origin = [], []
    for case, (sizes, rest, total), r in zip(cases, meta, c.run_cases(cases)):
        items = drained(c, case, r, case["reader"])
        if items is None:
            continue
        ev = [{"c": "d", "n": 0} if x == "d" else {"c": "r", "n": x[1]} for x in r["log"]]
        trs.append({"recs": sizes, "tail": rest, "total": total, "e": ev + [{"c": "end", "n": 0}]})
        origin.append((case, items))

    def spoil(t):
        t = json.loads(json.dumps(t))
        d = [i for i, e in enumerate(t["e"]) if e["c"] == "d"]
        k = rng.random()
        if d and k < 0.4:
            t["e"].pop(d[-1])                                   # one is missing
        elif d and k < 0.8:
            t["e"].insert(0, t["e"].pop(d[0]))                  # delivered before anything was read
        else:
            t["e"].insert(-1, {"c": "d", "n": 0})               # one too many
        return t

    pbf_checks.validate(c, "SourceTrace", trs, origin, spoil, lambda t: len(t["e"]), 12)


def p21(c):
    v = c.pick("Quick", "Thorough")
    c.tlc("SourceDocs", "SourceLive" + v, consts={"MaxStreams": 2, "MaxIntr": 1, "Cap": 3})
    recs = c.tlc("SourceDocs", "Source" + v, consts={"MaxStreams": 3, "MaxIntr": c.pick(1, 2), "Cap": 3})
    c.notes["schedules_of_the_model"] = len(recs)
    replay(c, pbf_checks.sample_records(c, recs, c.pick(3500, 60000)))
    all_positions(c, c.pick(2, 12))
    big(c)
    traces(c, c.pick(400, 6000))
