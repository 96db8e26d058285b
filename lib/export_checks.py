"""P22: the export tool (Export, ExportTrace), run as a process of its own in scratch directories."""
import bz2
import concurrent.futures
import fcntl
import json
import os
import resource
import shutil
import signal
import sqlite3
import struct
import subprocess
import tempfile
import termios
import time

import changeset_checks as cs
import core
import pbf_checks

UNITS = '{"good", "open", "talk", "self", "badid", "noid", "badtag", "other"}'


def old_database(path):
    con = sqlite3.connect(path)
    con.execute("CREATE TABLE changeset_tags (id INTEGER PRIMARY KEY, other_tags TEXT NOT NULL)")
    con.execute("INSERT INTO changeset_tags VALUES (77, '[]')")
    con.commit()
    con.close()


def place(kind, path):
    """What is at the place of the database before"""
    if kind == "db":
        old_database(path)
    elif kind == "empty":
        open(path, "wb").close()
    elif kind == "text":
        with open(path, "wb") as f:
            f.write(b"not a database\n" * 9)
    elif kind == "dir":
        os.mkdir(path)
        with open(os.path.join(path, "x"), "wb") as f:
            f.write(b"x")
    elif kind == "link":
        old_database(path + ".real")
        os.symlink(path + ".real", path)


def snapshot(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for n in sorted(files + dirs):
            p = os.path.join(base, n)
            st = os.lstat(p)
            data = open(p, "rb").read() if os.path.isfile(p) else None
            out[os.path.relpath(p, d)] = (st.st_mode, st.st_mtime_ns, data)
    return out


def rows_of(path):
    """All rows of all tables"""
    if not os.path.exists(path):
        return []
    con = sqlite3.connect(path, timeout=10)
    try:
        tables = [n for (n,) in con.execute("SELECT name FROM sqlite_master WHERE type = 'table'")]
        out = []
        for t in tables:
            for row in con.execute(f'SELECT * FROM "{t}"'):
                row = list(row)
                if t == "changeset_tags" and len(row) == 2:
                    v = row[1]
                    try:
                        row[1] = json.loads(v if isinstance(v, str) else v.decode())
                    except (ValueError, AttributeError):
                        row[1] = f"no JSON: {v!r}"
                out.append(row)
        return out
    finally:
        con.close()


def one_run(exe, scratch, run):
    """run: dump (bytes or None: there is none), target, [limit: bytes a file may have], [kill: pieces given before], [stdout]"""
    d = tempfile.mkdtemp(prefix="export-", dir=scratch)
    try:
        work = os.path.join(d, "work")
        os.mkdir(work)
        dump, target = os.path.join(d, "dump.osm.bz2"), os.path.join(work, "out.sqlite")
        place(run["target"], target)
        before = snapshot(work)
        pieces = run.get("pieces")
        if pieces is not None:
            os.mkfifo(dump)
        elif run["dump"] is not None:
            with open(dump, "wb") as f:
                f.write(run["dump"])

        def limits():
            if "limit" in run:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (run["limit"], run["limit"]))

        out = open(run["stdout"], "wb") if run.get("stdout") else subprocess.DEVNULL
        p = subprocess.Popen([exe, dump, target], cwd=work, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.DEVNULL, preexec_fn=limits)
        if out is not subprocess.DEVNULL:
            out.close()
        killed = False
        try:
            if pieces is not None:
                killed = feed(p, dump, pieces, run.get("kill"))
            rc = p.wait(120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return {"hang": True}
        res = {"exit": "killed" if killed else "ok" if rc == 0 else "failed", "rc": rc}
        if run["target"] == "absent":
            res["rows"] = rows_of(target)
            res["integrity"] = True
        else:
            res["rows"] = []
            res["changed"] = sorted(k for k in set(before) | set(snapshot(work)) if before.get(k) != snapshot(work).get(k))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def feed(p, fifo, pieces, kill):
    """The pieces of the dump, as the tool takes them; it is killed when it has taken `kill` of them"""
    fd, end = None, time.time() + 20
    while fd is None:
        try:
            fd = os.open(fifo, os.O_WRONLY | os.O_NONBLOCK)
        except OSError:
            if p.poll() is not None or time.time() > end:
                return False
            time.sleep(0.001)
    os.set_blocking(fd, True)
    try:
        for i, piece in enumerate(pieces):
            if i == kill:
                break
            os.write(fd, piece)  # less than a pipe holds, or the tool takes it
            while p.poll() is None and struct.unpack("i", fcntl.ioctl(fd, termios.FIONREAD, b"\0\0\0\0"))[0]:
                time.sleep(0.0005)
        if kill is not None:
            time.sleep(0.004)
            if p.poll() is None:
                p.kill()
                return True
    except BrokenPipeError:
        pass
    finally:
        os.close(fd)
    return False


class Tool:
    def __init__(self, c):
        self.c, self.exe = c, core.build_tools("osmio-changeset-tags-to-sqlite")[0]

    def run(self, runs):
        with concurrent.futures.ThreadPoolExecutor(core.JOBS) as ex:
            return list(ex.map(lambda r: one_run(self.exe, self.c.scratch, r), runs))


def describe(run):
    out = {k: v for k, v in run.items() if k not in ("dump", "pieces")}
    whole = run.get("dump") if run.get("pieces") is None else b"".join(run["pieces"])
    return {**out, "dump": whole.hex()[:20000] if whole is not None else None, "pieces": [len(p) for p in run["pieces"]] if run.get("pieces") else None}


def general_problem(run, r):
    if r.get("hang"):
        return "does not come to an end"
    if run["target"] != "absent":
        if r["exit"] == "ok":
            return f"succeeds although there is something at the place of the database ({run['target']})"
        if r["changed"]:
            return f"touches what is at the place of the database ({run['target']}): {r['changed']}"
    elif r["exit"] != "ok" and r["rows"]:
        return f"fails (exit {r['rc']}) and leaves {len(r['rows'])} rows"


def sort_rows(rows):
    return sorted(rows, key=lambda x: json.dumps(x[0]))


def replay(c, tool, recs):
    runs, meta = [], []
    for k, rec in enumerate(recs):
        rng = c.rng if k % 3 else None
        conc = cs.Conc(rng)
        data, _ = cs.render(rec["d"], conc, cs.Style(rng))
        run = {"dump": bz2.compress(data, 1), "target": rec["t"]}
        if rec["f"] and rec["f"][0] == "kill":
            # each top level element compressed by itself
            _, ends = cs.render(rec["d"], conc, cs.Style(None))
            data, ends = cs.render(rec["d"], conc, cs.Style(None))
            cuts = [0] + ends + [len(data)]
            run["pieces"] = [bz2.compress(data[a:b], 1) for a, b in zip(cuts, cuts[1:])]
            run["kill"] = min(rec["f"][1], len(run["pieces"]))
        runs.append(run)
        meta.append([[conc.id(i), [[conc.text(k), conc.text(v)] for k, v in tags]] for i, tags in rec["rows"]])
    for rec, run, want, r in zip(recs, runs, meta, tool.run(runs)):
        c.validated += 1
        bad = general_problem(run, r)
        if not bad and rec["x"] != "killed" and r["exit"] != rec["x"]:
            bad = f"exit is {r['rc']}, not {rec['x']}"
        # a tool that is killed may have failed before
        if not bad and sort_rows(r["rows"]) != sort_rows(want):
            bad = "the database does not hold what it should"
        if bad:
            c.fail(f"export: {bad}", describe(run), {"exit": rec["x"], "rows": want}, r)
        c.events += len(want)
    if runs:
        c.sample({"dump": data.decode()[:300], "expected": recs[-1]["x"]})


def reader_results(c, dumps):
    cases = [{"op": "read", "reader": "cst", "via": "file", "data": d.hex(), "calls": [["drain"]], "sched": {}} for d in dumps]
    out = []
    for case, r in zip(cases, c.run_cases(cases)):
        if core.bad_run(r) or "calls" not in r or r["calls"][0]["end"] != "none":
            out.append(None)
        else:
            out.append([x.get("ok") for x in r["calls"][0]["items"]])
    return out


def traces(c, tool, n):
    """Random dumps, with faults of all kinds; what the tag reader delivers of them is known from itself; TLC judges the outcome"""
    rng = c.rng
    runs, convs = [], []
    while len(runs) < n:
        doc = cs.random_dump(rng, rng.choice([2, 4, 8]))
        if rng.random() < 0.6:
            # sound ones are rare otherwise
            doc = [e for e in doc if e["n"] == "changeset" and all(k[1] != cs.BAD for k in e["a"]) and any(k[0] == "id" for k in e["a"])
                   and all(t["n"] != "tag" or len(t["a"]) == 2 for t in e["c"])]
        if rng.random() < 0.15 and len(doc) > 1:
            doc.insert(rng.randrange(len(doc)), rng.choice(doc))
        conc = cs.Conc(rng)
        data, ends = cs.render(doc, conc, cs.Style(rng))
        run = {"target": "absent", "dump": bz2.compress(data, rng.choice([1, 9])), "fault": "none"}
        k = rng.random()
        if k < 0.25:
            run["dump"] = run["dump"][:rng.randrange(len(run["dump"]))]
        elif k < 0.35:
            run["dump"] = bz2.compress(data[:rng.randrange(len(data) + 1)], 1)
        elif k < 0.42:
            cut = rng.randrange(len(data) + 1)
            run["dump"] = bz2.compress(data[:cut], 1) + bz2.compress(data[cut:], 1)
        elif k < 0.47:
            z = bytearray(run["dump"])
            z[rng.randrange(len(z))] ^= 1 << rng.randrange(8)
            run["dump"] = bytes(z)
        k = rng.random()
        if k < 0.1:
            run["target"] = rng.choice(["db", "empty", "text", "dir", "link"])
        elif k < 0.3:
            run["limit"] = rng.choice([0, 1, 100, 511, 512, 1024, 4095, 4096, 8191, 8192, 12288, 16384, 20000])
            run["fault"] = "space"
        elif k < 0.45:
            z = run["dump"]
            cut = sorted(rng.randrange(len(z) + 1) for _ in range(3))
            run["pieces"] = [x for x in (z[a:b] for a, b in zip([0] + cut, cut + [len(z)])) if x]
            if rng.random() < 0.7:
                run["kill"] = rng.randrange(len(run["pieces"]) + 1)
                run["fault"] = "kill"
        runs.append(run)
        convs.append(conc)
    seen = reader_results(c, [r["dump"] for r in runs])
    trs, origin = [], []
    for run, res, r in zip(runs, seen, tool.run(runs)):
        c.validated += 1
        if res is None:
            continue  # damage that P15 is about
        bad = general_problem(run, r)
        if bad:
            c.fail(f"export: {bad}", describe(run), None, r)
            continue
        names = {}
        name = lambda x: names.setdefault(json.dumps(x), len(names) + 1)
        ab = lambda i, tags: [name(["id", i]), [[name(k), name(v)] for k, v in tags]]
        out = []
        for x in res:
            if x is None:
                out.append({"ok": False})
            else:
                i, tags = ab(x["id"], x["tags"])
                out.append({"ok": True, "id": i, "tags": tags})
        try:
            rows = [ab(i, t) for i, t in sort_rows(r["rows"])]
        except (ValueError, TypeError):
            c.fail("export: the rows are no ids and tags", describe(run), res, r)
            continue
        # the order of the dump, which a table does not keep
        pos = {o["id"]: j for j, o in reversed(list(enumerate(out))) if o["ok"]}
        rows.sort(key=lambda x: pos.get(x[0], 0))
        target = run["target"] if run["target"] == "absent" else "there"
        trs.append({"out": out, "target": target, "fault": run["fault"], "exit": r["exit"], "rows": rows})
        origin.append((describe(run), r))

    def spoil(t):
        t = json.loads(json.dumps(t))
        if t["exit"] == "ok":
            t["rows"] = t["rows"][:-1] if t["rows"] else [[1, []]]
        elif t["exit"] == "failed" and t["fault"] == "none":
            good = t["target"] == "absent" and [o for o in t["out"] if o["ok"]]
            t["rows"] = [[o["id"], o["tags"]] for o in good[:1]] if good else [[1, []]]
        else:
            t["rows"] = [[9999, []]]
        return t

    pbf_checks.validate(c, "ExportTrace", trs, origin, spoil, lambda t: len(t["out"]) + 1, 16)
    for k in ("ok", "failed", "killed"):
        c.notes["runs_" + k] = sum(t["exit"] == k for t in trs)


def big_dump(rng, n, last="", pad=""):
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n<osm>\n']
    for i in range(1, n + 1):
        out.append(f'<changeset id="{i * 3}" created_at="2020-01-01T00:00:00Z" open="false" num_changes="1" comments_count="0">'
                   f'<tag k="comment" v="{pad}{i}"/><tag k="a&quot;{i % 7}" v="é\n"/></changeset>\n'.replace("\n\"", "&#10;\""))
    return "".join(out + [last, "</osm>\n"]).encode()


def big(c, tool, n):
    """Many rows: whatever the tool does in batches, or when its memory is full"""
    rng = c.rng
    pad = "x" * 100
    good = big_dump(rng, n, pad=pad)
    bad = lambda s: bz2.compress(big_dump(rng, n, s, pad), 1)
    z = bz2.compress(good, 1)
    some = rng.randrange(1, n)
    runs = [({"dump": z, "target": "absent"}, "ok"),
            ({"dump": z[:-20], "target": "absent"}, "failed"),
            ({"dump": bad('<changeset id="x"><tag k="a" v="b"/></changeset>'), "target": "absent"}, "failed"),
            ({"dump": bad(f'<changeset id="{3 * n}"><tag k="a" v="b"/></changeset>'), "target": "absent"}, "failed"),
            ({"dump": bad(f'<changeset id="{3 * some}"><tag k="a" v="b"/></changeset>'), "target": "absent"}, "failed"),
            ({"dump": bad('<changeset id="5"><tag k="a"/></changeset>'), "target": "absent"}, "failed"),
            ({"dump": z, "target": "absent", "limit": 40000}, "failed"),
            ({"dump": z, "target": "absent", "limit": n * 80}, "failed"),
            ({"dump": z, "target": "db"}, "failed")]
    for k in (0.3, 0.97):
        cut = int(len(z) * k)
        runs.append(({"dump": z, "pieces": [z[i:i + 30000] for i in range(0, cut, 30000)] + [z[cut:]], "kill": (cut + 29999) // 30000, "target": "absent"}, "killed"))
    want = [[i * 3, [["comment", pad + str(i)], [f'a"{i % 7}', "é\n"]]] for i in range(1, n + 1)]
    for (run, exit), r in zip(runs, tool.run([x[0] for x in runs])):
        c.validated += 1
        problem = general_problem(run, r)
        if not problem and r["exit"] != exit and exit != "killed":
            problem = f"exit is {r['rc']}, not {exit}"
        if not problem and r["exit"] == "ok" and sort_rows(r["rows"]) != sort_rows(want):
            problem = f"{len(r['rows'])} rows, or other ones, instead of {len(want)}"
        if problem:
            c.fail(f"export of {n} changesets: {problem}", {**describe(run), "dump": f"{n} changesets"}, exit, {k: v for k, v in r.items() if k != "rows"})
    c.notes["rows_of_the_largest"] = n


def odd(c, tool):
    """Ids at the end of what a database holds, strings that JSON has to escape, output that nobody takes"""
    el = lambda i, tags: f'<changeset id="{i}">' + "".join(f'<tag k="{k}" v="{v}"/>' for k, v in tags) + "</changeset>"
    doc = lambda *e: bz2.compress(("<osm>" + "".join(e) + "</osm>").encode())
    strange = [("&quot;\\&#9;&#10;&#13;", "\\u0041\\n/"), ("", ""), ("𝔘é\u2028\u2029", "&lt;[],{}:&amp;'"), ("\x7f\u0080\ufffd", "null"), ("k" * 3000, "v" * 300)]
    plain = [['"\\\t\n\r', "\\u0041\\n/"], ["", ""], ["𝔘é\u2028\u2029", "<[],{}:&'"], ["\x7f\u0080\ufffd", "null"], ["k" * 3000, "v" * 300]]
    runs = [({"dump": doc(el(i, strange), el(i - 1, [])), "target": "absent"}, [[i, plain], [i - 1, []]]) for i in (1, 2**31, 2**32, 2**53 + 1, 2**63 - 1)]
    runs += [({"dump": doc(el(i, [])), "target": "absent"}, None) for i in (2**63, 2**64 - 1, 2**64, -1)]
    runs += [({"dump": doc(el(4, [("a", "b")])), "target": "absent", "stdout": "/dev/full"}, "either"), ({"dump": None, "target": "absent"}, None),
             ({"dump": b"", "target": "absent"}, "either"), ({"dump": b"BZ", "target": "absent"}, None), ({"dump": b"<osm></osm>", "target": "absent"}, None)]
    runs += [({"dump": doc(el(4, [])), "target": t}, None) for t in ("db", "empty", "text", "dir", "link")]
    for (run, want), r in zip(runs, tool.run([x[0] for x in runs])):
        c.validated += 1
        problem = general_problem(run, r)
        if not problem and want is None and r["exit"] == "ok":
            problem = "succeeds"
        if not problem and isinstance(want, list) and (r["exit"] != "ok" or sort_rows(r["rows"]) != sort_rows(want)):
            problem = f"exit {r['rc']}, and the database does not hold what it should"
        if problem:
            c.fail(f"export: {problem}", describe(run), want, r)


def p22(c):
    tool = Tool(c)
    base = {"MaxIds": 2, "MayFill": "FALSE", "MayKill": "FALSE"}
    c.tlc("Export", "ExportLive", consts={**base, "MaxDump": 2, "Targets": '{"absent", "db"}', "ExportUnits": UNITS, "MayKill": "TRUE", "MayFill": "TRUE"})
    recs = c.tlc("Export", consts={**base, "MaxDump": 3, "Targets": '{"absent"}', "ExportUnits": UNITS})
    replay(c, tool, pbf_checks.sample_records(c, recs, c.pick(500, 10**6)))
    recs = c.tlc("Export", consts={**base, "MaxDump": 2, "MaxIds": 2, "Targets": '{"absent", "db", "empty", "text", "dir", "link"}', "MayKill": "TRUE",
                                   "ExportUnits": '{"good", "open", "badid", "talk"}'})
    seen = {json.dumps(r, sort_keys=True): r for r in recs}
    c.notes["histories_with_kills_and_targets"] = len(seen)
    replay(c, tool, pbf_checks.sample_records(c, list(seen.values()), c.pick(300, 10**6)))
    odd(c, tool)
    traces(c, tool, c.pick(400, 6000))
    big(c, tool, c.pick(22000, 120000))
