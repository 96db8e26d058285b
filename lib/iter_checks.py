"""P06: histories of typed iterations (TypedIter)."""
import json

import core
import pbf
import pbf_checks

NAME = {"n": "nodes", "w": "ways", "r": "rels", "next": "next", "objs": "objs"}


def plain_obj(t, i):
    o = {"t": t, "id": i, "tags": [[1, 2]] if i % 3 == 0 else [], "lat": i, "lon": -i, "refs": [1, i] if t == "w" else [],
         "mem": [["n", i, 3]] if t == "r" else [], "ver": 1, "ts": 1, "cs": 1, "uid": 1, "user": 4, "vis": 1}
    if t != "n":
        o["lat"] = o["lon"] = 0
    return o


def pbf_source(rng, src, junk):
    """A PBF file with these blocks (kinds only); ids number the objects"""
    blobs, n = [], 0
    blank = lambda k: {"k": k, "c": "zlib", "gran": 0, "la": 0, "lo": 0, "dg": 0, "st": [1, 2, 3, 4], "gr": []}
    if junk:
        blobs.append(blank("header"))
    for block in src:
        b = blank("data")
        b["c"] = rng.choice(["raw", "zlib"])
        for t in block:
            n += 1
            g = {"n": "dense", "w": "ways", "r": "relations"}[t]
            if not b["gr"] or b["gr"][-1]["k"] != g or rng.random() < 0.2:
                if junk and rng.random() < 0.2:
                    b["gr"].append({"k": "empty", "objs": []})
                b["gr"].append({"k": g, "objs": []})
            b["gr"][-1]["objs"].append(plain_obj(t, n))
        blobs.append(b)
        if junk and rng.random() < 0.3:
            blobs.append(blank("other"))
    return pbf.enc_file(pbf_checks.enc_abstract(rng, blobs))


def element(t, i):
    meta = f'id="{i}" version="1" changeset="1"'
    if t == "n":
        return f'<node {meta} lat="1.5" lon="2"/>' if i % 2 else f'<node {meta} lat="1.5" lon="2"><tag k="a" v="b"/></node>'
    if t == "w":
        return f'<way {meta}><nd ref="1"/><nd ref="{i}"/></way>' if i % 2 else f"<way {meta}/>"
    return f'<relation {meta}><member type="node" ref="1" role="x"/></relation>'


def xml_source(src):
    n, out = 0, ['<?xml version="1.0"?>\n<osm version="0.6">\n<bounds minlat="0" minlon="0" maxlat="1" maxlon="1"/>']
    for block in src:
        for t in block:
            n += 1
            out.append(element(t, n))
        out.append("<!-- block -->")
    out.append("</osm>\n")
    return "\n".join(out).encode()


def osc_source(rng, src):
    n, out = 0, ['<?xml version="1.0"?>\n<osmChange version="0.6">']
    for block in src:
        sec = rng.choice(["create", "modify", "delete"])
        out.append(f"<{sec}>")
        for t in block:
            n += 1
            out.append(element(t, n))
        out.append(f"</{sec}>")
    out.append("</osmChange>\n")
    return "\n".join(out).encode()


def data_for(rng, rd, src):
    if rd in ("pbf", "arc"):
        return pbf_source(rng, src, rng.random() < 0.5)
    return xml_source(src) if rd == "xml" else osc_source(rng, src)


def calls_for(rng, rd, calls):
    out = []
    for what, k in calls:
        name = NAME[what]
        if rd == "pbf" and what in "nwr" and rng.random() < 0.3:
            name = "t" + name  # through the trait
        out.append([name] if what == "next" else [name, k if k != 99 else 20000])
    return out


def is_sorted(src):
    f = ["nwr".index(t) for b in src for t in b]
    return f == sorted(f)


def replay(c, recs, readers):
    cases, meta = [], []
    for rec in recs:
        perm = dict(zip("nwr", c.rng.sample("nwr", 3)))
        src = [[perm[t] for t in b] for b in rec["s"]]
        flat = [t for b in src for t in b]
        h = [[[perm.get(x[0][0], x[0][0]), x[0][1]], x[1], x[2]] for x in rec["h"]]
        for rd in readers:
            calls = calls_for(c.rng, rd, [x[0] for x in h])
            pre = []
            if is_sorted(src) and c.rng.random() < 0.5:
                pre = [["sorted"]]
            cases.append({"op": "read", "reader": rd, "data": data_for(c.rng, rd, src).hex(),
                          "calls": pre + calls + [["drain"]], "sched": {}})
            exp = [([[flat[i - 1], i] for i in got], end) for _, got, end in h]
            meta.append((len(pre), exp + [([[flat[i - 1], i] for i in rec["rest"]], "none")]))
    for case, (skip, exp), r in zip(cases, meta, c.run_cases(cases)):
        c.validated += 1
        bad = core.bad_run(r)
        if bad or "calls" not in r:
            c.fail(f"{case['reader']}: {bad or 'does not open'}", case, None, r)
            continue
        obs = [([[o["t"], o["id"]] for o in x["items"]], x["end"]) for x in r["calls"][skip:]]
        c.events += sum(len(x[0]) + 1 for x in obs)
        # a call that has all it asked for does not learn whether there is more
        exp = [(e, end) for e, end in exp]
        if obs != exp:
            i = next((i for i, (a, b) in enumerate(zip(obs, exp)) if a != b), len(obs))
            c.fail(f"{case['reader']}: call {i} {case['calls'][skip + i]} delivers something else", case, exp, obs)
    if cases:
        c.sample({"calls": cases[-1]["calls"], "expected": meta[-1][1]})


def replay_sized(c, recs, n, readers):
    """The same with large runs of objects in the place of each (TypedIter!Stretches)"""
    cases, meta = [], []
    recs = [r for r in recs if any(got for _, got, _ in r["h"])]
    for i in range(n):
        rec = c.rng.choice(recs)
        m = (300, 1030, 9000, 2500)[i % 4]
        perm = dict(zip("nwr", c.rng.sample("nwr", 3)))
        src = [[perm[t] for t in b for _ in range(m)] for b in rec["s"]]
        flat = [t for b in src for t in b]
        run = lambda got: [[flat[k], k + 1] for x in got for k in range((x - 1) * m, x * m)]
        calls = [["objs" if w == "next" else perm.get(w, w), k * m if k < 99 else 100_000] for (w, k), _, _ in rec["h"]]
        exp = [(run(got), end) for _, got, end in rec["h"]] + [(run(rec["rest"]), "none")]
        for rd in readers:
            named = [[NAME[w], k] for w, k in calls]
            pre = [["sorted"]] if is_sorted(src) and c.rng.random() < 0.5 else []
            cases.append({"op": "read", "reader": rd, "data": data_for(c.rng, rd, src).hex(),
                          "calls": pre + named + [["drain", 100_000]], "sched": {}})
            meta.append((exp, len(pre), m))
    for case, (exp, skip, m), r in zip(cases, meta, c.run_cases(cases, 120)):
        c.validated += 1
        bad = core.bad_run(r)
        if bad or "calls" not in r:
            c.fail(f"{case['reader']}: {bad or 'does not open'}", case, None, r)
            continue
        obs = [([[o["t"], o["id"]] for o in x["items"]], x["end"]) for x in r["calls"][skip:]]
        c.events += sum(len(x[0]) + 1 for x in obs)
        for i, (o, e) in enumerate(zip(obs, exp)):
            if o != e:
                k = next((k for k, (a, b) in enumerate(zip(o[0], e[0])) if a != b), min(len(o[0]), len(e[0])))
                c.fail(f"{case['reader']}: runs of {m}: call {i} {case['calls'][skip + i]} delivers something else: {len(o[0])} objects "
                       f"instead of {len(e[0])}, first difference at {k}, {o[1]}", case, e[0][k:k + 3], o[0][k:k + 3])
                break
        else:
            if len(obs) != len(exp):
                c.fail(f"{case['reader']}: runs of {m}: {len(obs)} calls return", case)
    c.notes["stretched_histories"] = len(cases)


def random_history(rng, blocks, per, ncalls):
    style = rng.random()
    src = []
    for _ in range(rng.randint(0, blocks)):
        kinds = "nwr" if style < 0.4 else rng.choice(["n", "w", "r", "nw", "wr"])
        src.append([rng.choice(kinds) for _ in range(rng.choice([0, 1, 2, per]))])
    if style > 0.8:
        flat = sorted([t for b in src for t in b], key="nwr".index)
        it = iter(flat)
        src = [[next(it) for _ in b] for b in src]
    calls = []
    for _ in range(ncalls):
        w = rng.choice(["next", "objs", "n", "w", "r", "n", "w", "r"])
        calls.append([w, 1 if w == "next" else rng.choice([0, 1, 1, 2, 3, per, 99 if rng.random() < 0.3 else 2])])
    return src, calls


def traces(c, n, readers):
    cases, meta = [], []
    for _ in range(n):
        src, calls = random_history(c.rng, c.pick(8, 15), c.pick(6, 10), c.rng.randint(2, c.pick(14, 30)))
        for rd in readers:
            pre = [["sorted"]] if is_sorted(src) and c.rng.random() < 0.5 else []
            cases.append({"op": "read", "reader": rd, "data": data_for(c.rng, rd, src).hex(),
                          "calls": pre + calls_for(c.rng, rd, calls) + [["drain"]], "sched": {}})
            meta.append((src, calls, len(pre)))
    trs, origin = [], []
    for case, (src, calls, skip), r in zip(cases, meta, c.run_cases(cases)):
        bad = core.bad_run(r)
        if bad or "calls" not in r:
            c.fail(f"{case['reader']}: {bad or 'does not open'}", case, None, r)
            continue
        flat = [t for b in src for t in b]

        def tok(o):  # the number of the object; 0 if it is none of the file
            i = o["id"]
            return i if isinstance(i, int) and 1 <= i <= len(flat) and flat[i - 1] == o["t"] else 0

        h = []
        for (w, k), x in zip(calls + [["objs", 9999]], r["calls"][skip:]):
            h.append({"c": [w, k if k != 99 else 9999], "got": [tok(o) for o in x["items"]], "end": x["end"]})
        trs.append({"s": src, "h": h})
        origin.append((case, [x["items"] for x in r["calls"]]))

    def spoil(t):
        t = json.loads(json.dumps(t))
        full = [h for h in t["h"] if h["got"]]
        h = c.rng.choice(full)
        if c.rng.random() < 0.5:
            h["got"].pop()
        else:
            h["got"][-1] = 0
        return t

    pbf_checks.validate(c, "TypedIterTrace", trs, origin, spoil, lambda t: sum(len(h["got"]) for h in t["h"]))


def p06(c):
    recs = []
    # the readers of XML have no blocks to skip: a block per element, never skipped
    recs += c.tlc("TypedIter", consts={"MaxBlocks": 3, "MaxPerBlock": 2, "MaxTotal": c.pick(3, 4), "MaxCalls": 2, "MaySkip": "TRUE"})
    recs += c.tlc("TypedIter", consts={"MaxBlocks": 2, "MaxPerBlock": 3, "MaxTotal": c.pick(4, 4), "MaxCalls": 2, "MaySkip": "FALSE"})
    recs3 = c.tlc("TypedIter", consts={"MaxBlocks": 3, "MaxPerBlock": 2, "MaxTotal": c.pick(3, 4), "MaxCalls": 3, "MaySkip": "TRUE"})
    c.notes["histories_model_checked"] = len(recs) + len(recs3)
    recs = pbf_checks.sample_records(c, recs, c.pick(4000, 40000)) + pbf_checks.sample_records(c, recs3, c.pick(5000, 60000))
    replay(c, recs, ("pbf", "arc", "xml", "osc"))
    replay_sized(c, recs, c.pick(28, 200), ("pbf", "arc", "xml", "osc"))
    traces(c, c.pick(60, 500), ("pbf", "arc", "xml", "osc"))


# ---------------------------------------------------------------- taking the source back (Handover)


def handover_source(rng, src):
    """-> (bytes, how many objects the source is past when this many bytes have been read: {first, last byte: objects})"""
    blobs, n = [], 0
    blank = lambda k: {"k": k, "c": rng.choice(["raw", "zlib"]), "gran": 0, "la": 0, "lo": 0, "dg": 0, "st": [1, 2, 3, 4], "gr": []}
    junk = rng.random() < 0.5
    counts = []  # objects in each blob
    for i, block in enumerate(src):
        while junk and rng.random() < 0.4:
            blobs.append(blank(rng.choice(["header", "other"])))
            counts.append(0)
        b = blank("data")
        for t in block:
            n += 1
            g = {"n": "dense", "w": "ways", "r": "relations"}[t]
            if not b["gr"] or b["gr"][-1]["k"] != g or rng.random() < 0.2:
                b["gr"].append({"k": g, "objs": []})
            b["gr"][-1]["objs"].append(plain_obj(t, n))
        blobs.append(b)
        counts.append(len(block))
    if junk and rng.random() < 0.3:
        blobs.append(blank("other"))
        counts.append(0)
    data, past, at = b"", 0, {}
    at[0] = 0
    for w, k in zip(pbf_checks.enc_abstract(rng, blobs), counts):
        data += pbf.enc_file([w])
        past += k
        at[len(data)] = past
    return data, at


def handover_kind(rng, calls):
    """Some reader for these calls, up to the next hand-over: the one of positions can only be asked for nodes"""
    session = []
    for what, _ in calls:
        if what == "over":
            break
        session.append(what)
    return rng.choice(["pbf", "arc"] + ["pos", "pos"] * all(w == "n" for w in session))


def handover_calls(rng, h):
    """The calls of a history, and "at" after each; -> (kind of the first reader, calls, kind of the last)"""
    first = kind = handover_kind(rng, h)
    calls = []
    for i, (what, k) in enumerate(h):
        if what == "over":
            kind = handover_kind(rng, h[i + 1:])
            calls.append(["over:" + kind])
        else:
            calls += calls_for(rng, kind, [[what, k]])
        calls.append(["at"])
    return first, calls, kind


def handover_cases(c, hists):
    """hists: (blocks, calls). Yields (case, outcomes per call [got, end, past], what comes after) or reports"""
    cases, meta = [], []
    for i, (src, h) in enumerate(hists):
        data, at = handover_source(c.rng, src)
        first, calls, kind = handover_calls(c.rng, h)
        if kind == "pos":
            last = [["over:" + c.rng.choice(["pbf", "arc"])], ["drain", 100_000]]
        elif c.rng.random() < 0.3:
            last = [["over:pos"], ["drain", 100_000]]  # the last reader may be one of positions only
        else:
            last = [["drain", 100_000]]
        sched = c.rng.choice([{}, {}, {"chunks": [1]}, {"chunks": [c.rng.randint(1, 50) for _ in range(5)]}])
        cases.append({"op": "read", "reader": "chain", "first": first, "data": data.hex(), "calls": calls + last, "sched": sched})
        meta.append((i, at, [t for b in src for t in b], {1: "rest", 2: last[0][0]}[len(last)]))
    for case, (i, at, flat, how), r in zip(cases, meta, c.run_cases(cases, 60)):
        c.validated += 1
        bad = core.bad_run(r)
        if bad or "calls" not in r:
            c.fail(f"taking the source back: {bad or 'does not open'}", case, None, r)
            continue
        res = r["calls"]
        n = len(hists[i][1])
        out, ok = [], True
        for k in range(0, 2 * n, 2):
            if k + 1 >= len(res) or res[k]["end"] == "panic" or res[k + 1]["end"] == "panic":
                c.fail(f"taking the source back: call {case['calls'][min(k, len(res) - 1)]} panics", case, None, res[-1])
                ok = False
                break
            a, b = res[k + 1]["items"]
            if a != b:
                c.fail(f"the source of the iterator is at {b}, that of the reader at {a}", case)
            # number and kind must fit: 0 is none of the file's
            got = [o["id"] if isinstance(o["id"], int) and 1 <= o["id"] <= len(flat) and flat[o["id"] - 1] == o["t"].replace("p", "n") else 0
                   for o in res[k]["items"]]
            out.append([got, res[k]["end"], at.get(a, -1)])
        if not ok:
            continue
        rest = res[-1]
        if len(res) != len(case["calls"]) or rest["end"] != "none":
            c.fail("taking the source back: what remains does not end", case, None, rest)
            continue
        yield i, case, out, [o["id"] for o in rest["items"]], how


def after(src, past, flat, how, rest):
    """What must come at the end: whatever is left; or, when the source was taken once more, the nodes of later blocks"""
    if how == "rest":
        return rest
    return [i for i in range(past + 1, len(flat) + 1) if flat[i - 1] == "n" or how != "over:pos"]


def p24(c):
    recs = []
    for calls, skip, k, total in ((2, "TRUE", 2, 3), (2, "FALSE", 2, 3), (3, "TRUE", 2, c.pick(3, 4)), (2, "TRUE", 3, 5)):
        recs += c.tlc("Handover", consts={"MaxBlocks": c.pick(3, 3), "MaxPerBlock": k, "MaxTotal": total, "MaxCalls": calls, "MaySkip": skip})
    c.notes["histories_model_checked"] = len(recs)
    recs = pbf_checks.sample_records(c, recs, c.pick(9000, 60000))
    full = [r for r in recs if any(got for _, got, _, _ in r["h"])]
    large = c.rng.sample(full, min(len(full), c.pick(24, 150)))
    hists = []
    for i, rec in enumerate(recs + large):
        perm = dict(zip("nwr", c.rng.sample("nwr", 3)))
        m = 1 if i < len(recs) else (300, 1030, 6500, 2500)[i % 4]
        src = [[perm[t] for t in b for _ in range(m)] for b in rec["s"]]
        call = lambda w, k: [perm.get(w, w), k] if m == 1 or w == "over" else ["objs" if w == "next" else perm.get(w, w), k * m if k < 99 else 100_000]
        run = lambda got: [k + 1 for x in got for k in range((x - 1) * m, x * m)]
        exp = [[run(got), end, past * m] for _, got, end, past in rec["h"]]
        hists.append((src, [call(*x[0]) for x in rec["h"]], exp, run(rec["rest"])))
    c.notes["large_histories"] = len(large)
    for i, case, out, rest, how in handover_cases(c, [h[:2] for h in hists]):
        src, h, exp, exprest = hists[i]
        flat = [t for b in src for t in b]
        c.events += len(out) + len(rest)
        for k, (o, e) in enumerate(zip(out, exp)):
            if o != e:
                what = "delivers something else" if o[:2] != e[:2] else "leaves its source elsewhere"
                c.fail(f"call {k} {h[k]} {what}", case, e if len(e[0]) < 50 else e[1:], o if len(o[0]) < 50 else o[1:])
                break
        else:
            want = after(src, exp[-1][2] if exp else 0, flat, how, exprest)
            if rest != want:
                c.fail("after the last call something else is left", case, want[:50], rest[:50])
    handover_traces(c, c.pick(120, 800))


def handover_traces(c, n):
    hists = []
    for _ in range(n):
        src, calls = random_history(c.rng, c.pick(8, 15), c.pick(6, 10), c.rng.randint(2, c.pick(14, 30)))
        hists.append((src, [x if c.rng.random() < 0.75 else ["over", 0] for x in calls]))
    trs, origin = [], []
    for i, case, out, rest, how in handover_cases(c, hists):
        src, calls = hists[i]
        h = [{"c": [w, k if k != 99 else 9999], "got": got, "end": end, "at": past}
             for (w, k), (got, end, past) in zip(calls, out)]
        if how == "rest":
            h.append({"c": ["objs", 9999], "got": rest, "end": "none", "at": sum(len(b) for b in src)})
        trs.append({"s": src, "h": h})
        origin.append((case, out))

    def spoil(t):
        t = json.loads(json.dumps(t))
        h = c.rng.choice([h for h in t["h"] if h["got"]] or t["h"])
        if c.rng.random() < 0.5 and h["got"]:
            h["got"].pop()
        else:
            h["at"] += 1
        return t

    pbf_checks.validate(c, "HandoverTrace", trs, origin, spoil, lambda t: sum(len(h["got"]) for h in t["h"]))
