"""P25: XML and change documents that are cut, fail, or are not well-formed (XmlDamage)."""
import bz2
import json
import xml.parsers.expat

import core
import damage_checks
import pbf_checks
import xml_checks
import xmldoc

ROOT = {"xml": "osm", "osc": "osmChange"}
CALLS = [["drain", 100_000]]
# not well-formed between tags, and in a tag, after its name
IN_TEXT = ["</wrong>", "<<", "&undefined;", "<x a='1' a='2'/>", "<x a=1/>", "</>", "< node id='1'/>", "<1/>", "&;", "<x", "</osm>",
           "</osmChange>", "</node>", "</way>", "</create>", "<!", "<x y:z:a=''/>", "<u:x/>"]
IN_TAG = [" a='1' a='2'", " a=1", " a", "<", " 'a'", " ='1'", " a='1'b='2'", " &amp;", " a='&undefined;'", " /a"]


def seen(data):
    """How an independent parser takes these bytes: (tags seen after that of the root, whether they are a whole document)"""
    n = [-1]
    p = xml.parsers.expat.ParserCreate()

    def one(*a):
        n[0] += 1

    p.StartElementHandler = one
    p.EndElementHandler = one
    try:
        p.Parse(data, True)
        return n[0], True
    except xml.parsers.expat.ExpatError:
        return n[0], False


def kinds(seq):
    """The parser events of XmlDoc: tags (True) and others"""
    out = []
    for e in seq:
        if e["n"] == "#":
            out.append(False)
        else:
            out += [True] + kinds(e["c"]) + [True]
    return out


def place(doc, data):
    """(at, whole): the place of XmlDamage where an independent parser stops; which document it is of does not matter to it"""
    n, whole = seen(data)
    if n < 0:
        return 0, whole
    tags = [j + 1 for j, t in enumerate(kinds(doc)) if t]
    if n < len(tags):
        return tags[n], whole
    return (len(kinds(doc)) + 1 if n == len(tags) else len(kinds(doc)) + 2), whole


def markup(data):
    """Where tags begin, and where their names end"""
    text, tag = [], []
    p = xml.parsers.expat.ParserCreate()

    def one(name, start):
        text.append(p.CurrentByteIndex)
        if start:
            tag.append(text[-1] + (1 + len(name)) * (2 if data[:2] in (b"\xff\xfe", b"\xfe\xff") else 1))

    p.StartElementHandler = lambda n, a: one(n, True)
    p.EndElementHandler = lambda n: one(n, False)
    p.Parse(data, True)
    return text, tag


def damages(rng, data, enc, doc, positions, hows):
    """(data, sched, at, how) for damages at these positions"""
    text, tag = markup(data)
    for pos in positions:
        how = rng.choice(hows)
        if how == "broken":
            pos, bad = rng.choice([(rng.choice(text[1:]), rng.choice(IN_TEXT)), (rng.choice(tag), rng.choice(IN_TAG))])
            dat = data[:pos] + bad.encode("utf-16-le" if enc == "utf-16" else enc) + data[pos:]
            # where an independent parser stops, it has seen no more than there is before
            if seen(dat) == (seen(data[:pos])[0], False):
                yield dat, {}, place(doc, data[:pos])[0], how
            continue
        at, whole = place(doc, data[:pos])
        if how == "cut":
            # a tail that is left in the middle of a comment is no end of a document
            yield data[:pos], {}, at, "cut" if whole or at <= len(kinds(doc)) + 1 else "broken"
        elif pos < len(data):
            yield data, {"fail_at": pos, "kind": rng.choice(damage_checks.KINDS), "once": rng.random() < 0.4}, at, "fail"


def cases_for(c, doc, objs, conc, style, readers, positions, hows, typed=0.1):
    """(case, at, how, expected objects of the whole document, reader)"""
    out = []
    for rd in readers:
        data = xmldoc.render(doc, conc, style, ROOT[rd])
        if seen(data) != (sum(kinds(doc)) + 1, True):
            raise core.ToolError(f"not the document it should be: {data[:300]}")
        for dat, sched, at, how in damages(c.rng, data, style.enc, doc, positions(len(data)), hows):
            via = "stream"
            if rd == "xml" and not sched and c.rng.random() < 0.1:
                via = "file"
            elif c.rng.random() < 0.3:
                sched = {**sched, "chunks": c.rng.choice([[1], [3], [7, 1], [64]])}
            case = {"op": "read", "reader": rd, "via": via, "data": dat.hex(), "calls": CALLS, "sched": sched}
            out.append((case, at, how, objs))
            if c.rng.random() < typed:
                t = c.rng.choice(["nodes", "ways", "rels"])
                out.append(({**case, "calls": [[t, 1]] * (len(objs) + 1), "typed": t[0]}, at, how, objs))
    return out


def judge(c, runs, allowed, fields=xmldoc.FIELDS):
    """runs: (case, at, how, objects of the document); allowed(run): {(how many of them, end)}"""
    for run, r in zip(runs, c.run_cases([x[0] for x in runs], 120)):
        case, at, how, objs = run
        c.validated += 1
        items, end = damage_checks.observed(case, r)
        ok = allowed(run)
        n = next(iter(ok))[0]
        ends = sorted({e for _, e in ok})
        what = f"{case['reader']}: {how} at {at}"
        if end not in ends:
            c.fail(f"{what}: {end} instead of {'/'.join(ends)}", case, ends, [end, len(items)])
            continue
        t = case.get("typed")
        want = [e for e in objs[:n] if t is None or e["t"] == t]
        xml_checks.compare(c, case, what, items, want, fields)


def key(d, at, how):
    return json.dumps([d, at, how], sort_keys=True)


def tables(c, consts):
    """{place: {(objects before it, end)}}, {document: all its objects}"""
    table, docs = {}, {}
    for cfg, n in consts:
        for r in c.tlc("XmlDamage", cfg, consts={"Hows": '{"cut", "fail", "broken"}', "N": n}):
            table.setdefault(key(r["d"], r["at"], r["h"]), set()).add((len(r["x"]), r["end"]))
            k = json.dumps(r["d"], sort_keys=True)
            if k not in docs or len(r["x"]) > len(docs[k][1]):
                docs[k] = (r["d"], r["x"])
    return table, [docs[k] for k in sorted(docs)]


def p25(c):
    seqs, seqdocs = tables(c, [("XmlDamageSeq", c.pick(2, 3))])
    secs, secdocs = tables(c, [("XmlDamageSection", 1)])
    c.notes["documents_model_checked"] = len(seqdocs) + len(secdocs)
    every = lambda n: range(n + 1)
    some = lambda k: (lambda n: sorted(c.rng.sample(range(n + 1), min(k, n + 1))))

    def batch(docs, table, readers, n, positions, hows, plain):
        runs = []
        for d, x in c.rng.sample(docs, min(n, len(docs))):
            rng = None if plain else c.rng
            conc, style = xmldoc.XConc(rng), xmldoc.Style(rng)
            objs = [conc.expect(o) for o in x]
            runs += [(*run, table, d) for run in cases_for(c, d, objs, conc, style, readers, positions, hows)]
        allowed = {id(run[0]): run[4][key(run[5], run[1], run[2])] for run in runs}
        judge(c, [run[:4] for run in runs], lambda run: allowed[id(run[0])])
        return len(runs)

    n = 0
    rich = lambda docs: [p for p in docs if len(p[1]) > 1]
    both = ("xml", "osc")
    # every byte of some documents, of each kind of damage
    for plain in (True, False):
        for how in ("cut", "fail", "broken"):
            n += batch(rich(seqdocs), seqs, both, c.pick(1, 6), every, [how], plain)
            n += batch(rich(secdocs), secs, ("osc",), c.pick(1, 6), every, [how], plain)
    # a few bytes of many
    hows = ["cut", "fail", "broken", "broken"]
    n += batch(seqdocs, seqs, both, c.pick(150, 1000), some(c.pick(8, 20)), hows, False)
    n += batch(secdocs, secs, ("osc",), c.pick(200, 1000), some(c.pick(10, 20)), hows, False)
    c.notes["damages"] = n
    d, x = c.rng.choice(rich(seqdocs))
    c.sample({"document": d, "places": sum(1 for k in seqs if json.loads(k)[0] == d), "objects": x})
    nothing(c)
    sized(c, c.pick(24, 130))
    compressed(c, seqdocs, seqs, c.pick(20, 150))
    traces(c, c.pick(60, 600))


def nothing(c):
    """Sources in which there is no document"""
    runs = []
    for data in (b"", b" ", b"\n\n", b"<!-- x -->", b'<?xml version="1.0"?>\n', b"\xef\xbb\xbf", b"text", b"\0\0\0\0", bytes(range(256)), b"<osm", b"<"):
        for rd in ROOT:
            for via in ("stream", "file") if rd == "xml" else ("stream",):
                runs.append(({"op": "read", "reader": rd, "via": via, "data": data.hex(), "calls": CALLS, "sched": {}}, 0, "cut", []))
    judge(c, runs, lambda run: {(0, "refused")})


def sized(c, n):
    """Documents longer than any buffer"""
    recs = xml_checks.stretch_records(c)
    runs, allowed = [], {}
    for r, q, fill in xml_checks.stretchings(c.rng, recs, n):
        conc, style = xmldoc.XConc(c.rng), xmldoc.Style(c.rng)
        conc.ida, conc.idb = c.rng.choice([(1, 0), (-1, 0), (1000003, 7), (1, 2**40)])
        conc.fill = fill
        doc = xml_checks.stretch_doc(q, r["d"])
        objs = [conc.expect(x) for x in xml_checks.stretch_out(q, r["x"])]
        ends = object_ends(doc)
        if len(ends) != len(objs):
            raise core.ToolError("objects of a stretched document")
        for run in cases_for(c, doc, objs, conc, style, ("xml", "osc"), lambda k: sorted(c.rng.sample(range(k + 1), 4)), ["cut", "fail", "broken"], 0):
            runs.append(run)
            last = len(kinds(doc)) + 2
            whole = sum(1 for e in ends if e < run[1])
            allowed[id(run[0])] = {(whole, e) for e in
                                   (["refused"] if run[1] < last else ["ended"] if run[2] == "cut" else ["ended", "refused"])}
    judge(c, runs, lambda run: allowed[id(run[0])])
    c.notes["damages_of_large_documents"] = len(runs)
    c.notes["longest_document"] = max(len(x[0]["data"]) // 2 for x in runs)


def object_ends(seq, n=0):
    """The numbers of the events which end usable objects (Ended of XmlDamage)"""
    out = []
    for e in seq:
        m = len(kinds([e]))
        if e["n"] in xml_checks.OBJ_NAMES:
            if any(k == "id" and v != xmldoc.BAD for k, v in e["a"]):
                out.append(n + m)
        elif e["n"] in ("create", "modify", "delete"):
            out += object_ends(e["c"], n + 1)
        n += m
    return out


def compressed(c, docs, table, n):
    """A compressed file that is cut: what is left of the text is not known, only that it is not all of it"""
    runs, allowed = [], {}
    for d, x in c.rng.sample(docs, n):
        conc, style = xmldoc.XConc(c.rng), xmldoc.Style(c.rng)
        objs = [conc.expect(o) for o in x]
        for rd in ROOT:
            data = xmldoc.render(d, conc, style, ROOT[rd])
            k = c.rng.randint(0, len(data))
            whole = bz2.compress(data[:k]) + bz2.compress(data[k:])
            first = len(bz2.compress(data[:k]))
            for pos in {first, c.rng.randrange(first), c.rng.randrange(first, len(whole)), len(whole) - 1}:
                # a stream that is cut gives nothing, or all of its text without its end
                texts = [data[:k], data] if pos >= first else [b"", data[:k]]
                for rb, via in [(rd + "_bz2", "stream")] + ([("xml_bz2", "file"), ("read_xml", "file")] if rd == "xml" else []):
                    case = {"op": "read", "reader": rb, "via": via, "data": whole[:pos].hex(), "calls": CALLS, "sched": {}}
                    runs.append((case, pos, "compressed", objs))
                    ok = set()
                    for t in texts:
                        at, _ = place(d, t)
                        # all of the text, without the end of its compression: may or may not be noticed
                        ok |= table[key(d, at, "cut" if at <= len(kinds(d)) + 1 else "broken")]
                    allowed[id(case)] = ok
    for run, r in zip(runs, c.run_cases([x[0] for x in runs])):
        case, objs = run[0], run[3]
        c.validated += 1
        items, end = damage_checks.observed(case, r)
        if (len(items), end) not in allowed[id(case)]:
            c.fail(f"{case['reader']}: cut at {run[1]}: {len(items)} objects, {end}", case, sorted(allowed[id(case)]), [len(items), end])
            continue
        xml_checks.compare(c, case, f"{case['reader']}: cut at {run[1]}", items, objs[:len(items)], xmldoc.FIELDS)


def traces(c, n):
    """Random documents, damaged anywhere: recorded, and validated by TLC"""
    runs = []
    for _ in range(n):
        sections = c.rng.random() < 0.4
        doc = xml_checks.random_doc(c.rng, 12, sections)
        conc, style = xmldoc.XConc(c.rng), xmldoc.Style(c.rng)
        for run in cases_for(c, doc, [], conc, style, ("osc",) if sections else ("xml", "osc"),
                             lambda k: sorted(c.rng.sample(range(k + 1), min(6, k))), ["cut", "fail", "broken"], 0):
            runs.append((*run, doc, conc))
    trs, origin = [], []
    for (case, at, how, _, doc, conc), r in zip(runs, c.run_cases([x[0] for x in runs])):
        items, end = damage_checks.observed(case, r)
        trs.append({"d": doc, "at": at, "h": how, "obs": [xml_checks.abstract(o, conc) for o in items], "end": end})
        origin.append((case, items))

    def spoil(t):
        t = json.loads(json.dumps(t))
        if c.rng.random() < 0.5:
            t["obs"].pop()
        else:
            t["end"] = "refused" if t["end"] == "ended" and t["h"] == "cut" else "ended" if t["at"] <= len(kinds(t["d"])) + 1 else "?"
        return t

    pbf_checks.validate(c, "XmlDamageTrace", trs, origin, spoil, lambda t: len(t["obs"]))
