"""P26: osmio-pbf-read-speed and osmio-osc-debug, as processes (ToolCount, ToolShow)."""
import concurrent.futures
import json
import os
import re
import subprocess
import tempfile

import core
import damage_checks as dc
import xml_checks
import xmldamage_checks as xd
import xmldoc

BASE = 731_000_000_000  # ids which nothing else looks like


def run_tool(exe, scratch, data):
    """data: what the file holds; None: there is none; a number: a directory of that name instead"""
    d = tempfile.mkdtemp(prefix="tool-", dir=scratch)
    name = os.path.join(d, "in file")
    try:
        if isinstance(data, bytes):
            with open(name, "wb") as f:
                f.write(data)
        elif data:
            os.mkdir(name)
        args = [exe] if data == "" else [exe, name]
        try:
            p = subprocess.run(args, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        except subprocess.TimeoutExpired:
            return {"exit": "does not come to an end", "text": ""}
        rc = p.returncode
        left = sorted(os.listdir(d))
        return {"exit": "ok" if rc == 0 else "failed", "rc": rc, "text": p.stdout.decode("utf-8", "replace"),
                "left": left != (["in file"] if data not in (None, "") else [])}
    finally:
        subprocess.run(["rm", "-rf", d])


def run_all(c, exe, datas):
    with concurrent.futures.ThreadPoolExecutor(core.JOBS) as ex:
        return list(ex.map(lambda x: run_tool(exe, c.scratch, x), datas))


def reported(text):
    """The number of the last report: a report names a number of objects"""
    m = re.findall(r"([\d,._' ]*\d) objects", re.sub(r"[\d.,]+ objects/sec", "", text))
    return int(re.sub(r"\D", "", m[-1])) if m else None


def show(data):
    return {"file": data.hex()[:20000] if isinstance(data, bytes) else repr(data)}


def counted(c, exe):
    table, files = {}, {}
    for r in c.tlc("ToolCount", consts={"MaxBlobs": 3, "MaxN": c.pick(1, 2)}):
        if r["file"] == "there":
            table.setdefault(dc.key(r["f"], r["d"]), set()).add((r["report"], r["exit"]))
            files[json.dumps(r["f"], sort_keys=True)] = r["f"]
    files = [files[k] for k in sorted(files)]
    runs = []  # (bytes, allowed, what)
    for f in c.rng.sample(files, min(len(files), c.pick(250, 500))):
        m = c.rng.choice([1, 1, 1, 2, 5, 130])
        segs, exp = dc.concretise(c.rng, f, m)
        data = b"".join(p for _, _, p in segs)
        all_places = list(dc.places(segs, len(f)))
        picks = [None, 0, len(all_places) - 1] + [c.rng.randrange(len(all_places)) for _ in range(c.pick(5, 20))]
        bounds = [i for i, (_, pl) in enumerate(all_places) if not pl["in"]]
        for i in set(picks + [c.rng.choice(bounds)]) - {None}:
            pos, pl = all_places[i]
            ok = table[dc.key(f, {**pl, "how": "cut"})]
            runs.append((data[:pos], {(n * m if n > 0 else n, e) for n, e in ok}, f"{f} x {m} cut at {pl}"))
        ok = table[dc.key(f, dict(dc.NODMG))]
        runs.append((data, {(n * m if n > 0 else n, e) for n, e in ok}, f"{f} x {m}"))
    # many objects: separators in the number, more than one report's worth of them
    good = [f for f in files if len(f) == 3 and all(b["c"] == "ok" for b in f) and sum(b["n"] for b in f)]
    for m in c.pick((333, 1000, 12_345), (333, 999, 1000, 1001, 12_345, 100_000, 360_000)):
        f = c.rng.choice(good)
        segs, exp = dc.concretise(c.rng, f, m)
        data = b"".join(p for _, _, p in segs)
        runs.append((data, {(len(exp), "ok")}, f"{f} x {m}"))
        last = max(i for i, b in enumerate(f) if b["n"])
        pos = sum(len(p) for b, _, p in segs if b <= last) + c.rng.randrange(5, 50)
        runs.append((data[:pos], {(-1, "failed")}, f"{f} x {m} cut in blob {last + 1}"))
    runs += [(None, {(-1, "failed")}, "no file"), ("dir", {(-1, "failed")}, "a directory"), ("", {(-1, "failed")}, "no argument")]
    for (data, ok, what), r in zip(runs, run_all(c, exe, [x[0] for x in runs])):
        c.validated += 1
        got = (reported(r["text"]) if r["exit"] == "ok" else -1, r["exit"])
        if got not in ok or r.get("left"):
            c.fail(f"read-speed: {what}: {got}", show(data), sorted(ok, key=str), {**r, "text": r["text"][-600:]})
        c.events += max(0, got[0] or 0)
    c.notes["files_counted"] = len(runs)
    c.sample({"file": runs[0][2], "allowed": sorted(runs[0][1], key=str)})


def tokens(o):
    out = [o["id"]] + o.get("nodes", []) + [x for _, x, _ in o.get("mem", [])]
    return [str(x) for x in out]


def shown(c, exe):
    hows = {"Hows": '{"cut", "broken"}'}
    runs = []
    for cfg, n, k in (("ToolShow", 2, c.pick(110, 700)), ("ToolShowSection", 1, c.pick(110, 700))):
        table, docs = {}, {}
        for r in c.tlc("ToolShow", cfg, consts={**hows, "N": n}):
            table.setdefault(xd.key(r["d"], r["at"], r["h"]), set()).add((len(r["x"]), r["exit"]))
            key = json.dumps(r["d"], sort_keys=True)
            if key not in docs or len(r["x"]) > len(docs[key][1]):
                docs[key] = (r["d"], r["x"])
        docs = [docs[x] for x in sorted(docs)]
        for d, x in c.rng.sample(docs, min(k, len(docs))):
            conc, style = xmldoc.XConc(c.rng), xmldoc.Style(c.rng)
            conc.ida, conc.idb = 1, BASE
            objs = [conc.expect(o) for o in x]
            positions = lambda size: sorted(c.rng.sample(range(size + 1), min(size, c.pick(4, 12)))) + [size]
            for case, at, how, objs in xd.cases_for(c, d, objs, conc, style, ("osc",), positions, ["cut", "cut", "broken"], 0):
                runs.append((bytes.fromhex(case["data"]), table[xd.key(d, at, how)], objs, f"{how} at {at}"))
    # larger ones
    for r, q, _ in xml_checks.stretchings(c.rng, xml_checks.stretch_records(c), c.pick(12, 60)):
        conc, style = xmldoc.XConc(c.rng), xmldoc.Style(c.rng)
        conc.ida, conc.idb = 1, BASE
        doc = xml_checks.stretch_doc(q, r["d"])
        objs = [conc.expect(x) for x in xml_checks.stretch_out(q, r["x"])]
        data = xmldoc.render(doc, conc, style, "osmChange")
        runs.append((data, {(len(objs), "ok")}, objs, f"stretched {q}"))
        pos = c.rng.randrange(len(data))
        at = xd.place(doc, data[:pos])[0]
        if at <= len(xd.kinds(doc)) + 1:
            runs.append((data[:pos], {(sum(1 for e in xd.object_ends(doc) if e < at), "failed")}, objs, f"stretched {q} cut at {at}"))
    runs += [(None, {(0, "failed")}, [], "no file"), ("dir", {(0, "failed")}, [], "a directory"), ("", {(0, "failed")}, [], "no argument"),
             (b"", {(0, "failed")}, [], "an empty file")]
    for (data, ok, objs, what), r in zip(runs, run_all(c, exe, [x[0] for x in runs])):
        c.validated += 1
        ends = {e for _, e in ok}
        n = next(iter(ok))[0]
        if r["exit"] not in ends or r.get("left"):
            c.fail(f"osc-debug: {what}: {r['exit']}", show(data), sorted(ok), {**r, "text": r["text"][-600:]})
            continue
        want = [t for o in objs[:n] for t in tokens(o)]
        got = re.findall(r"(?<!\d)731\d{9}(?!\d)", r["text"])
        if got != want:
            j = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            c.fail(f"osc-debug: {what}: shows {len(got)} ids and references, not {len(want)}; they differ at {j}", show(data),
                   want[j:j + 9], {"ids": got[j:j + 9], "text": r["text"][-600:]})
        c.events += len(got)
    c.notes["documents_shown"] = len(runs)


def p26(c):
    speed, debug = core.build_tools("osmio-pbf-read-speed", "osmio-osc-debug")
    counted(c, speed)
    shown(c, debug)
