"""What each property's check consists of: which specification TLC explores, and how its
behaviours are bound to the code."""
import json, os

PLAN = {}
def plan(p):
    def d(f): PLAN[p] = f; return f
    return d

# ------------------------------------------------------------------ Session.tla
SESSION_INVS = ["TypeOK", "Pairing", "Recovers", "ExcIntact", "Once", "Bounded", "NotSent", "Clean", "Emit"]
EXC = {"exc0", "exc1", "excclose", "insexc", "insexc0", "partexc"}
BROKEN = {"close0", "close1", "reset1", "bad1", "unexp1", "insclose", "insclose0", "insnohdr"}
STALL = {"stall", "partsilent", "insstall", "mute", "killnoping"}
ABANDON = {"drop0", "drop1", "cancel"}

def session_props(f):
    """Which properties a divergence of the client from Session.tla violates."""
    k, op, beh, pre, prior = f["kind"], f["op"], f["beh"], f["pre"], set(f["prior"])
    ps = set()
    near = prior | {beh}
    if k in ("foreign", "wrong", "insert_data", "not_sent"): ps.add("P07")
    if prior & ABANDON or op in ABANDON: ps.add("P07")
    if near & EXC or k in ("exception", "lost_exception"): ps.add("P10")
    if near & BROKEN: ps.add("P09")
    if k in ("sent_twice", "attempts", "sent_when_failed") or pre != "none" or (prior & {"kill", "mute", "killrefuse", "killnoping"}): ps.add("P11")
    if (near | {pre}) & STALL: ps.add("P12")
    if op == "insert": ps.add("P13")
    if "renew" in prior and (near & (EXC | BROKEN | STALL) or prior & ABANDON): ps.add("P05")
    if k in ("success", "hang", "panic", "err") and not ps: ps |= {"P07", "P09", "P10"}
    if k == "success": ps.add("P09")
    return ps

def session(c, props=None, depth=2, full=True, timeout=800):
    r = c.model("Session", constants={"Depth": depth, "Full": "TRUE" if full else "FALSE", "Retries": 2},
                invariants=SESSION_INVS, out="session.ndjson", timeout=timeout)
    j = c.harness("session", r["path"], "session.json", timeout=timeout)
    if "crash" in j:
        c.violation("the client brought the process down while replaying Session.tla histories", j); return
    c.traces += j["histories"]; c.evals += j["ops"]
    for l in open(r["path"]).read().splitlines()[:: max(1, r["n"] // 3)][:3]: c.sample(json.loads(json.loads(l)))
    for x in j["fails"]:
        if c.prop in session_props(x["fail"]):
            f = x["fail"]
            c.violation(f"history {x['history']}: step {f['step']} {f['op']}/{f['beh']} (before: {f['pre']}; earlier: {f['prior']}) -> {f['kind']}: {f['detail']}", x)
    c.assumptions += ["the scripted server speaks the native protocol at revision 54429", "one pool of one connection; one operation at a time per handle (Rust's borrow rules enforce it)"]

@plan("P07")
def p07(c): session(c, depth=2 if c.quick else 3, full=c.quick, timeout=800 if c.quick else 7200)
@plan("P10")
def p10(c): session(c, depth=2 if c.quick else 3, full=c.quick, timeout=800 if c.quick else 7200)
@plan("P11")
def p11(c):
    # Retry.tla: every way to a working connection, or to giving up
    r = c.model("Retry", constants={"MaxRetries": 3 if c.quick else 4, "MaxIdle": 2 if c.quick else 3, "Kinds": '{"mute"}'},
                invariants=["Verified", "Once", "Limited", "Tried", "Reach", "Emit"], properties=["Ends"], out="retry.ndjson", timeout=3000)
    j = c.harness("retry", r["path"], "retry.json", timeout=3000)
    if "crash" in j: c.violation("looking for a working connection brought the process down", j)
    else:
        c.traces += j["histories"]; c.evals += j["histories"]
        each(c, j["fails"], lambda f: ((f["what"][:24], f["case"]["cur"], f["case"]["op"]), f"{f['case']}: {f['what']}"), cap=12)
    session(c, depth=2 if c.quick else 3, full=c.quick, timeout=800 if c.quick else 7200)

# ------------------------------------------------------------------ Pool.tla / PoolTrace.tla
POOL_INVS = ["Contract", "TypeOK", "Watched", "Emit"]
def judge(c, traces, tag=""):
    """PoolContract applied by TLC to recorded traces; returns {trace id: [(step, blame, event)]}"""
    r = c.tlc("PoolTrace", constants={"TraceFile": '"%s"' % traces}, invariants=["Emit"], out="blame%s.ndjson" % tag, tag=tag, timeout=3000)
    if not r["ok"]: raise c.ToolError("PoolTrace: " + r["log"][-2000:])
    out = {}
    if r.get("n"):
        for l in open(r["path"]):
            if l.strip():
                b = json.loads(json.loads(l)); out.setdefault(b["id"], []).append((b["step"], b["blame"], b["ev"]))
    return out

def replay_pool(c, path, tag):
    j = c.harness("pool", path, f"pool{tag}.json")
    if "crash" in j: c.violation("the pool brought the process down", j); return
    tr = os.path.join(c.work, f"pool{tag}.json.traces")
    bad = {i: v for i, v in judge(c, tr, tag).items() if any(c.prop in b for _, b, _ in v)}
    c.traces += j["histories"]; c.evals += j["events"]
    hs = open(path).read().splitlines()
    for l in hs[:: max(1, len(hs) // 2)][:2]: c.sample(json.loads(json.loads(l)))
    if not bad: return
    # replay the suspicious ones again, slowly, before believing them
    ids = sorted(bad)[:: max(1, len(bad) // 16)][:20]
    j = c.harness("pool", path, f"pool{tag}c.json", args=[",".join(map(str, ids))])
    if "crash" in j: c.violation("the pool brought the process down", j); return
    for i, v in judge(c, os.path.join(c.work, f"pool{tag}c.json.traces"), tag + "c").items():
        v = [x for x in v if c.prop in x[1]]
        if v: c.violation(f"history {json.loads(json.loads(hs[i]))}: event {v[0][0]} {v[0][2]} violates {c.prop}", {"history": json.loads(json.loads(hs[i])), "blame": v})

def pool(c):
    if c.quick: runs = [("a", dict(Depth=7, Configs="{1, 11, 2, 12, 22}", MaxFut=3, Rich="TRUE"), ())]
    else: runs = [("a", dict(Depth=8, Configs="{1, 11, 2, 12, 22}", MaxFut=3, Rich="TRUE"), ())]
    n = 800 if c.quick else 20000
    runs.append(("s", dict(Depth=18, Configs="{1, 11, 2, 12, 22, 3, 13, 23, 33, 21}", MaxFut=4, Rich="TRUE"), ("-simulate", f"num={n}", "-depth", "19")))
    for tag, k, extra in runs:
        r = c.tlc("Pool", constants=k, invariants=POOL_INVS, out=f"stim{tag}.ndjson", extra=extra, tag=tag, timeout=3000, workers=8 if not extra else 4, sample=(4000 if c.quick else 100000) if extra else 0)
        if not r["ok"] and not (extra and "violated" not in r["log"] and r.get("n")): raise c.ToolError("Pool: " + r["log"][-2000:])
        replay_pool(c, r["path"], tag)
    # several threads inside the pool at once: the algorithm's model, then its situations on the real pool
    runs = [("r", "{1, 2}", "{1, 11, 2, 12}", 100)] if c.quick else [("r", "{1, 2}", "{1, 11, 2, 12, 22, 13}", 100), ("r3", "{1, 2, 3}", "{1, 11}", 8)]
    for tag, th, cf, pct in runs:
        r = c.model("PoolImpl", constants=dict(Threads=th, Configs=cf, MaxConns=6, Weaks='{"none"}'), invariants=IMPL_INVS, constraint="Finite", out=f"race{tag}.ndjson", tag=tag, timeout=5000)
        replay_race(c, r["path"], tag, pct)
    # schedules of two and three threads that break the promises as soon as one step of the algorithm is left out
    runs = [("w3", "{1, 2, 3}", "{1, 11, 12}", "TRUE"), ("w2", "{1, 2}", "{1, 11}", "FALSE")] if c.quick else [("w3", "{1, 2, 3}", "{1, 11, 2, 12, 22}", "TRUE"), ("w2", "{1, 2}", "{1, 11, 2, 12, 22}", "FALSE")]
    for tag, th, cf, full in runs:
        r = c.model("PoolWeak", constants=dict(Threads=th, Configs=cf, MaxConns=6, Weaks=WEAKS, ActKinds='{"get", "drop", "poll", "cancel"}', Full=full), spec="WSpec", invariants=["WEmit"], view="ViewW", constraint="Finite", out=f"{tag}.ndjson", tag=tag, timeout=5000)
        replay_race(c, r["path"], tag, 100)

WEAKS = '{"newwake", "peekwake", "unlendwake", "cancelwake", "unpermitwake", "once", "early", "unlendearly", "permit2", "wakeone", "idle2", "leak"}'
IMPL_INVS = ["Bound", "Exclusive", "IdleBound", "NoLost", "Count", "Emit"]
def replay_race(c, path, tag, pct):
    j = c.harness("race", path, f"race{tag}.json", args=[pct], timeout=800 if c.quick else 7200)
    if "crash" in j: c.violation("the pool brought the process down", j); return
    bad = {i: v for i, v in judge(c, os.path.join(c.work, f"race{tag}.json.traces"), tag).items() if any(c.prop in b for _, b, _ in v)}
    c.traces += j["histories"]; c.evals += j["events"]
    hs = open(path).read().splitlines()
    for l in hs[:: max(1, len(hs) // 2)][:1]: c.sample(json.loads(json.loads(l)))
    if not bad: return
    ids = sorted(bad)[:: max(1, len(bad) // 16)][:20]
    j = c.harness("race", path, f"race{tag}c.json", args=[pct, ",".join(map(str, ids))])
    if "crash" in j: c.violation("the pool brought the process down", j); return
    for i, v in judge(c, os.path.join(c.work, f"race{tag}c.json.traces"), tag + "c").items():
        v = [x for x in v if c.prop in x[1]]
        sit = json.loads(json.loads(hs[i // 1000000]))
        if v: c.violation(f"threads at once in situation {sit} (schedule {i % 1000000 // 100000}:{i % 100000 // 300}:{i % 300}): event {v[0][0]} {v[0][2]} violates {c.prop}", {"situation": sit, "id": i, "blame": v})

for _p in ("P01", "P02", "P03", "P04", "P05"): PLAN[_p] = pool

@plan("P06")
def p06(c):
    r = c.model("Hosts", constants={"MaxHosts": 3 if c.quick else 4, "Len_": 4 if c.quick else 5}, invariants=["Fair", "InOrder", "Bounded", "Emit"], out="hosts.ndjson")
    j = c.harness("hosts", r["path"], "hosts.json")
    if "crash" in j: c.violation("the pool brought the process down", j); return
    c.traces += j["histories"]; c.evals += j["histories"]
    for l in open(r["path"]).read().splitlines()[:2]: c.sample(json.loads(json.loads(l)))
    for x in j["fails"]: c.violation(x["what"], x)

# ------------------------------------------------------------------ Wire.tla
WIRE_INVS = ["RoundTrip", "NoTail", "Emit"]
def wire_cases(c, long=True):
    """Columns of every supported type as the server encodes them: [(path, records)]"""
    base = dict(Rows=3, Deep="FALSE" if c.quick else "TRUE")
    rs = [c.model("WireCases", constants=dict(base, Long="FALSE"), invariants=WIRE_INVS, out="cols.ndjson", timeout=3000)]
    if long: rs.append(c.model("WireCases", constants=dict(base, Long="TRUE"), invariants=WIRE_INVS, out="long.ndjson", tag="L", workers=1, timeout=3000))
    for l in open(rs[0]["path"]).read().splitlines()[:: max(1, rs[0]["n"] // 3)][:3]: c.sample(json.loads(json.loads(l)))
    return rs
def each(c, fails, what, key=None, cap=40):
    """One violation per group of like failures."""
    seen = {}
    for f in fails: seen.setdefault(what(f)[0], []).append(f)
    for k, v in list(seen.items())[:cap]:
        c.violation(f"{what(v[0])[1]} ({len(v)} such case(s))", v[:3], key=key(v[0]) if key else None)

@plan("P15")
def p15(c):
    for i, r in enumerate(wire_cases(c)):
        j = c.harness("decode", r["path"], f"decode{i}.json", timeout=3000)
        if "crash" in j: c.violation("decoding a response brought the process down", j); continue
        c.traces += j["columns"]; c.evals += 2 * j["columns"]
        each(c, j["fails"], lambda f: ((f["type"], f["route"]), f"column of {f['type']} with values {json.dumps(f['v'])[:200]} ({f['route']}, server time zone {f['tz']}): {f['what']}"))
    c.assumptions += ["DateTime64 values lie in ClickHouse's documented range 1900..2299 (nanoseconds: the i64 range)", "typed iterators are checked for the element types the client implements Iterable for"]

def sent(c, path, tag, what):
    """What the client sends for the blocks of `path`, judged by WireTrace."""
    j = c.harness("encode", path, f"enc{tag}.json", timeout=3000)
    if "crash" in j: c.violation(f"inserting a block brought the process down", j); return
    tr = os.path.join(c.work, f"enc{tag}.json.trace")
    c.traces += j["inserts"]; c.evals += j["inserts"]
    r = c.tlc("WireTrace", constants={"TraceFile": '"%s"' % tr, "Chunk": 500}, invariants=["Emit"], out=f"verdict{tag}.ndjson", tag=tag, timeout=3000)
    if not r["ok"]: raise c.ToolError("WireTrace: " + r["log"][-2000:])
    bad = [json.loads(json.loads(l)) for l in open(r["path"]) if l.strip()] if r.get("n") else []
    if bad:
        ids = {b["id"]: b["why"] for b in bad}
        recs = [json.loads(l) for l in open(tr)]
        fails = [dict(x, why=ids[x["id"]]) for x in recs if x["id"] in ids]
        each(c, fails, lambda f: ((f["sname"], f["dname"], f["route"].split()[0], f["out"]), f"{what}: column of {f['sname']} (built by {f['route']}) with values {json.dumps(f['v'])[:200]} into {f['dname']} (server time zone {f['tz']}): {f['why']}"))
    os.remove(tr)

@plan("P16")
def p16(c):
    for i, r in enumerate(wire_cases(c)): sent(c, r["path"], str(i), "insert")
    c.assumptions += ["a locally built column of date-times shows its values to the second", "locally built LowCardinality(Nullable) columns and maps with date-times may be refused"]

@plan("P17")
def p17(c):
    r = c.model("CastCases", constants={"Rows": 2}, invariants=["Reflexive", "ByText", "Emit"], out="casts.ndjson", timeout=3000)
    for l in open(r["path"]).read().splitlines()[:: max(1, r["n"] // 3)][:3]: c.sample(json.loads(json.loads(l)))
    sent(c, r["path"], "", "conversion")
    c.assumptions += ["digits of a decimal beyond the table's scale, and of an instant beyond the table's precision, may be cut off"]

# ------------------------------------------------------------------ Dsn.tla
@plan("P22")
def p22(c):
    runs = [(1, "TRUE"), (2, "FALSE")] if c.quick else [(1, "TRUE"), (3, "FALSE")]
    for i, (n, w) in enumerate(runs):
        r = c.model("Dsn", constants={"MaxParams": n, "Wide": w}, invariants=["OrderFree", "Emit", "EmitBad"] + (["QuoteFree"] if n == 2 else []), out=f"dsn{i}.ndjson", tag=str(i), timeout=3000)
        j = c.harness("dsn", r["path"], f"dsn{i}.json", timeout=3000)
        if "crash" in j: c.violation("parsing a connection string brought the process down", j); continue
        c.traces += j["strings"]; c.evals += j["strings"]
        for l in open(r["path"]).read().splitlines()[:: max(1, r["n"] // 3)][:3]: c.sample(json.loads(json.loads(l)))
        each(c, j["fails"], lambda f: ((f["kind"], str(f["key"])), f"{f['url']}: {f['what']}"))
    c.assumptions += ["a string that states a parameter twice is not covered", "the tcp scheme without TLS (the build has no TLS feature)"]

def judged(c, module, trace, tag="", chunk=500, consts={}):
    """TLC applies the specification to a recorded trace: [(record, reason)] of what it does not allow."""
    r = c.tlc(module, constants={"TraceFile": '"%s"' % trace, "Chunk": chunk, **consts}, invariants=["Emit"], out=f"verdict{module}{tag}.ndjson", tag=tag, timeout=3000)
    if not r["ok"]: raise c.ToolError(f"{module}: " + r["log"][-2000:])
    bad = {}
    if r.get("n"):
        for l in open(r["path"]):
            if l.strip(): b = json.loads(json.loads(l)); bad[b["id"]] = b["why"]
    out = []
    if bad:
        for l in open(trace):
            x = json.loads(l)
            if x["id"] in bad: out.append((x, bad[x["id"]]))
    return out

# ------------------------------------------------------------------ TypeName.tla
def txt(b): return bytes(b).decode(errors="backslashreplace")
@plan("P19")
def p19(c):
    r = c.model("TypeNames", constants={"Deep": "FALSE" if c.quick else "TRUE"}, invariants=["Faithful", "AllProper", "Emit"], out="names.ndjson", timeout=3000)
    j = c.harness("names", r["path"], "names.json", timeout=3000)
    if "crash" in j: c.violation("reading a type name brought the process down", j); return
    c.traces += j["names"]; c.evals += j["names"]
    ls = open(r["path"]).read().splitlines()
    for l in ls[:: max(1, len(ls) // 4)][:4]: c.sample(txt(json.loads(json.loads(l))["s"]))
    bad = judged(c, "TypeTrace", os.path.join(c.work, "names.json.trace"))
    each(c, [dict(x, why=w) for x, w in bad], lambda f: (f["why"][:25], f"type name {txt(f['s'])}: {f['why']}"), cap=10)
    c.assumptions += ["names are those of the bounded grammar and their one-byte slips; nesting by chains of one constructor up to 100000"]

# ------------------------------------------------------------------ Response.tla
def answers(c, invs):
    k = dict(MaxLen=4, OtherLen=2) if c.quick else dict(MaxLen=5, OtherLen=3)
    r = c.model("Answers", constants=k, invariants=["RoundTrip", *invs, "Emit"], out="answers.ndjson", timeout=3000)
    for l in open(r["path"]).read().splitlines()[:: max(1, r["n"] // 3)][:3]: c.sample({k: v for k, v in json.loads(json.loads(l)).items() if k != "pk"})
    return r
def told(c, cmd, r, what):
    j = c.harness(cmd, r["path"], cmd + ".json", timeout=3000)
    if "crash" in j: c.violation(f"{what} brought the process down", j); return None
    c.traces += j["runs"]; c.evals += j["runs"]
    tr = os.path.join(c.work, cmd + ".json.trace")
    bad = judged(c, "RespTrace", tr)
    each(c, [dict(x, why=w) for x, w in bad], lambda f: (f["why"][:22] + f["op"], f"{f['how']}: {f['why']}"), cap=10)
    os.remove(tr)
    return j

@plan("P08")
def p08(c):
    j = told(c, "whole", answers(c, []), "reading an answer")
    if j: each(c, j["big"], lambda f: (f["what"][:12], f"blocks of {f['sizes']} rows read by {f['op']}, compression={f['compression']}: {f['what']}"))
    c.assumptions += ["blocks of one answer have the same column types, as a server's do", "totals and extremes are not part of the result proper"]

@plan("P09")
def p09(c):
    told(c, "damage", answers(c, ["NoPrefix"]), "a damaged answer")
    session(c, depth=2 if c.quick else 3, full=c.quick, timeout=800 if c.quick else 7200)
    c.assumptions += ["the server closes the connection after a damaged answer (against silence there are the timeouts of P12)",
                      "an alteration that yields another well-formed answer, or bytes the format leaves to the reader, is judged by what it then says"]

# ------------------------------------------------------------------ Lz4.tla / Frames.tla
@plan("P18")
def p18(c):
    r = c.model("Frames", constants={"MaxFrames": 3 if c.quick else 4}, invariants=["RoundTrip", "Emit"], out="frames.ndjson", timeout=3000)
    for l in open(r["path"]).read().splitlines()[:: max(1, r["n"] // 3)][:3]: c.sample({k: v for k, v in json.loads(json.loads(l)).items() if k not in ("f", "raw")})
    told(c, "frames", r, "reading a compressed answer")
    j = c.harness("framesent", "", "framesent.json", timeout=3000)
    if "crash" in j: c.violation("sending compressed blocks brought the process down", j); return
    c.traces += j["packets"]; c.evals += j["packets"]
    each(c, j["fails"], lambda f: (f["what"][:22], f"{f['how']}: {f['what']}"))
    tr = os.path.join(c.work, "framesent.json.trace")
    each(c, [dict(x, why=w) for x, w in judged(c, "FrameTrace", tr, chunk=20)], lambda f: (f["why"][:22], f"{f['how']}: {f['why']}"))
    os.remove(tr)
    c.assumptions += ["checksums (CityHash128 1.0.2) are computed by the harness's own implementation; the frames' structure and contents are judged in TLA+"]

# ------------------------------------------------------------------ Proto.tla
@plan("P14")
def p14(c):
    all_ = "{54032, 54057, 54058, 54059, 54060, 54371, 54372, 54400, 54401, 54419, 54420, 54428, 54429, 54430, 54460, 1000000}"
    runs = [(1, all_)] if c.quick else [(1, all_), (2, "{54032, 54059, 54400, 54428, 54429}")]
    for n, revs in runs:
        r = c.model("Protocols", constants={"MaxChanges": n, "Revs": revs}, invariants=["Readable", "Emit"], out=f"proto{n}.ndjson", tag=str(n), timeout=3000)
        for l in open(r["path"]).read().splitlines()[:: max(1, r["n"] // 3)][:3]: c.sample(json.loads(json.loads(l))["c"])
        j = c.harness("proto", r["path"], f"proto{n}.json", timeout=3000)
        if "crash" in j: c.violation("talking to a server brought the process down", j); continue
        c.traces += j["runs"]; c.evals += j["runs"]
        tr = os.path.join(c.work, f"proto{n}.json.trace")
        bad = judged(c, "ProtoTrace", tr, tag=str(n), chunk=200)
        def what(f):
            k = {x: txt(b"".join(bytes([b]) * n for n, b in f["c"][x]))[:60] for x in ("sql", "id", "db", "user", "pass")}
            return (f["why"][:22] + f["c"]["op"], f"{f['c']['op']} on a server of revision {f['c']['rev']}" + (f" (moved from one of {f['c']['from']})" if f["c"]["from"] else "") + f", {k}, {len(f['c']['set'])} setting(s): {f['why'][:400]}")
        each(c, [dict(x, why=w) for x, w in bad], what, cap=10)
        os.remove(tr)
    c.assumptions += ["server revisions from 54032 on", "signed settings that are negative need a server that takes settings as text (54429)"]

# ------------------------------------------------------------------ Insert.tla
PIECE = 1048576
@plan("P13")
def p13(c):
    k = dict(MaxPieces=3, Max_=PIECE, Layouts="{1, 2, 3, 4}") if c.quick else dict(MaxPieces=6, Max_=PIECE, Layouts="{1, 2, 3, 4}")
    r = c.model("Inserts", constants=k, invariants=["Fine", "Delivered", "Bounded", "Once", "Asked", "Emit"], out="inserts.ndjson", timeout=3000)
    for l in open(r["path"]).read().splitlines()[:: max(1, r["n"] // 4)][:4]: c.sample(json.loads(json.loads(l)))
    j = c.harness("insert", r["path"], "insert.json", timeout=3000)
    if "crash" in j: c.violation("inserting brought the process down", j)
    else:
        c.traces += j["inserts"]; c.evals += j["inserts"]
        bad = judged(c, "InsertTrace", os.path.join(c.work, "insert.json.trace"), consts={"Max_": PIECE})
        each(c, [dict(x, why=w) for x, w in bad], lambda f: (f["why"][:30], f"{f['n']} rows of layout {f['lay']}, columns {[txt(x) for x in f['cols']]}, compression={f['comp']}, server's headers {f['heads']} and answers {f['ans']}: {f['why']} ({f['what']})"), cap=10)
    session(c, depth=2 if c.quick else 3, full=c.quick, timeout=800 if c.quick else 7200)
    c.assumptions += ["the statement is INSERT INTO table (columns) VALUES", f"a piece has at most {PIECE} rows, the server's default limit"]

# ------------------------------------------------------------------ Timeout.tla
@plan("P12")
def p12(c):
    r = c.model("Timeout", constants={"Rich": "FALSE" if c.quick else "TRUE"}, invariants=["InTime", "OwnLimit", "OffNever", "Success", "Exact", "Emit"], out="times.ndjson", timeout=3000)
    for l in open(r["path"]).read().splitlines()[:: max(1, r["n"] // 4)][:4]: c.sample(json.loads(json.loads(l)))
    j = c.harness("timeout", r["path"], "times.json", timeout=3000)
    if "crash" in j: c.violation("a slow server brought the process down", j)
    else:
        c.traces += j["cases"]; c.evals += j["cases"]
        each(c, j["fails"], lambda f: ((f["case"]["op"], f["case"]["chk"], f["what"][:12]), f"{f['case']}: {f['what']}"), cap=15)
    session(c, depth=2 if c.quick else 3, full=c.quick, timeout=800 if c.quick else 7200)
    c.assumptions += ["limits are checked to within a tick of 40 ms (a case that misses is run again with ticks of 100, 200 and 400 ms)", "a result read as a stream of blocks or rows has no limit of its own"]

# ------------------------------------------------------------------ Access.tla
@plan("P21")
def p21(c):
    r = c.model("Access", constants=dict(Rows=2, Deep="FALSE" if c.quick else "TRUE", Long="FALSE"), spec="ASpec", invariants=["Disjoint", "Layers", "Consistent", "AEmit"], out="access.ndjson", workers=1, timeout=3000)
    for l in open(r["path"]).read().splitlines()[:: max(1, r["n"] // 3)][:3]: c.sample({k: v for k, v in json.loads(json.loads(l)).items() if k not in ("b", "requests")})
    j = c.harness("access", r["path"], "access.json", timeout=3000)
    if "crash" in j: c.violation("reading columns brought the process down", j); return
    c.traces += j["columns"]; c.evals += j["reads"]
    each(c, j["fails"], lambda f: (f["key"].split(" row")[0], f"{f['type']} ({f['source']}) as {f['key']}: {f['what']}"), cap=20)
    c.assumptions += ["NULL, or an empty map, read with another inner type may give NULL or an empty map (there is no value to reinterpret)",
                      "a column of date-times built in the program has no typed iterator (an error), one read from the server has",
                      "the Rust types asked for are the library's own and compositions of them up to three levels"]

# ------------------------------------------------------------------ ValueForms.tla
@plan("P23")
def p23(c):
    r = c.model("ValueForms", constants=dict(Rows=3, Deep="FALSE" if c.quick else "TRUE", Long="FALSE", MaxVals=24 if c.quick else 70), spec="SpecF", invariants=["Equiv", "EmitF"], out="forms.ndjson", workers=1, timeout=3000)
    for l in open(r["path"]).read().splitlines()[:: max(1, r["n"] // 3)][:3]: c.sample({k: v for k, v in json.loads(json.loads(l)).items() if k in ("name", "v")})
    j = c.harness("forms", r["path"], "forms.json", timeout=3000)
    if "crash" in j: c.violation("using values brought the process down", j); return
    c.traces += j["columns"]; c.evals += j["checks"]
    each(c, j["fails"], lambda f: (f["key"], f"{f['type']}: {f['key']}: {f['what']}"), cap=20)
    c.assumptions += ["text forms (Display, Debug) are asked for but not judged", "a Value made of a DateTime<Tz> is a form of its own and compares with its like only",
                      "the values of a type are those of WireCases, two dozen of them where there are more"]

# ------------------------------------------------------------------ Blocks.tla
@plan("P20")
def p20(c):
    types = c.model("BlockTypes", constants=dict(Rows=2, Deep="FALSE" if c.quick else "TRUE", Long="FALSE"), spec="PSpec", invariants=["Told", "Sound", "PEmit"], out="types.ndjson", workers=1, timeout=3000)
    runs = [dict(Depth=2)] + ([dict(Depth=9, sim=400)] if c.quick else [dict(Depth=3), dict(Depth=14, sim=4000)])
    for i, k in enumerate(runs):
        sim = k.pop("sim", 0)
        r = c.model("Blocks", constants=dict(k, Handles=3 if k["Depth"] < 4 else 5), invariants=["Rectangular", "Unmixed", "Emit"], properties=["Stays"], out=f"blocks{i}.ndjson", tag=str(i), simulate=sim, sample=(8000 if c.quick else 100000) if sim else 0, timeout=3000)
        for l in open(r["path"]).read().splitlines()[:: max(1, r["n"] // 2)][:2]: c.sample(json.loads(json.loads(l)))
        os.environ["BLOCK_TIMES"] = str(16 if k["Depth"] == 2 else 6)
        j = c.harness("block", r["path"], f"block{i}.json", timeout=3000, args=[types["path"]])
        if "crash" in j: c.violation("working on blocks brought the process down", j); return
        c.traces += j["replays"]; c.evals += j["operations"]
        each(c, j["fails"], lambda f: (f["key"], f"{f['key']} (columns a: {f['a']}, b: {f['b']}) after {[s['op'] for s in f['steps']]}: {f['what']}"), cap=20)
    c.assumptions += ["a row without cells, and a new column for a block that has columns but no rows, are left open", "instants outside 1970-2106 in a column of date-times made here are read back only through an insert",
                      "Block::column with another number of rows panics (it returns no Result)"]
