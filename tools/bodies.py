"""Checks of the library's own types: body decoders (C11, spec/Body.tla) and errors (C14, spec/Errors.tla)."""
from common import *
from gen import *

ASSUME_BODY = ["serde_json and serde_urlencoded decode a complete document as spec/Values.tla says (bounded types)",
               "hyper's Body passes chunks on in order", "TLC evaluates the specification correctly"]

TINY = {
    "JU16": ["", "7", "'7", "7;", "7,", "/7", "+7", "07", "#7", "12", "1 ", "1x", "-1", "7e", "1.5", "1\0", "\0" "1", "1\r\n"],
    "JStr": ['""', '"a', '"a"', '"Z"', 'a"', '"\u00c3\u00a9"', '"\u00c3"', '"\\n"', '"\\'],
    "JList": ["[]", "[1]", "[1", "1]", "[,]"],
    "JPt": ["{}", "[1]", "1"],
    "JOpt": ["", "7", "null", "nul", "{}"],
    "FReq": ["", "id=7", "id=", "id"],
    "FMap": ["", "a", "a=1", "a&b", "%41", "&", "%C3\u00a9", "a\n", "\n&", "\r\n", "a\0", "\u00ef\u00bb\u00bf", "?", "?a", "a?", "#a", ";a", "a;b", "a b", " a", "a ", '"a"', "[a]", "a[]", "--a", "{}"],
    "FPairs": ["a&a", "=", "%4", "+"],
    "FDef": ["", "q=a", "x"],
}
MEDIUM = {
    "JU16": ["65535", "65536", " 12 ", "12 3", "1\r\n2", "1\0" "2", "\u00ef\u00bb\u00bf" "1"],
    "JStr": ['"abcd"', '"abc" x', '"\u00c3\u00a9\u00c3\u00bc"', '"\u00ef\u00bb\u00bf"', '"a\x7f"', '"a\0"'],
    "JList": ["[1,2]", "[1,23]", "[1,2", "[1,2]]"],
    "JPt": ['{"x":1}', '[1,2]', "[1,null"],
    "JOpt": ["null", " null"],
    "FReq": ["id=12", "id=1&id", "id=%37"],
    "FMap": ["a=1&b", "a=%41", "a=1&a=2", "a=\r\n", "a=1\0"],
    "FPairs": ["a=1&a=2", "b&a=+", "a=%00", "\ta\r\n"],
    "FDef": ["page=3", "q=%2B", "page=x"],
}


def c11(ck):
    g = Gen(ck.seed, "C11")
    docs = []

    def add(ty, t, max_=None, none=0, idle=0, brk=True, grow=0):
        docs.append({"id": len(docs), "ty": ty, "t": t, "max": len(t) if max_ is None else max_, "none": none, "idle": idle, "brk": brk, "grow": grow})
    art = cargo_build("rt", bins=("v_body",))
    ck.log("harness built against the current tree")
    for ty, ts in TINY.items():
        for t in ts:
            if len(t) <= (4 if ck.thorough else 3):
                add(ty, t, none=1, idle=1)
            else:
                add(ty, t, idle=1)
    for ty, ts in MEDIUM.items():
        for t in ts:
            if len(t) <= (7 if ck.thorough else 5):
                add(ty, t)
            else:
                add(ty, t, max_=len(t), brk=False) if ck.thorough else add(ty, t[:5])
    runs = []

    def explore(cfg, simulate=None):
        many = {}
        path = ck.path("docs_%s_%s.json" % (cfg, "sim" if simulate else "all"))
        write_json(path, {"docs": docs})
        vs = ck.tlc_ok("Body", cfg=cfg, envv={"VERIF_INPUT": path}, simulate=simulate, timeout=300, extra=["-deadlock"] + (["-depth", "600"] if simulate else []))
        for v in vs:
            d, at, steps = docs[v["doc"]], 0, []
            for s in v["steps"]:
                steps.append({"e": s["e"], "t": d["t"][at:at + s["n"]] if s["e"] == "d" else s["s"], "v": ""})
                at += s["n"]
            steps[-1]["v"] = v["v"]
            if d["grow"]:        # a few are enough: these documents are long
                many[v["doc"]] = many.get(v["doc"], 0) + 1
                if many[v["doc"]] > (6 if d["grow"] > 1000000 else 40):
                    continue
            runs.append((d, steps))
    explore("Body")
    small = [dict(d, id=i) for i, d in enumerate([d for d in docs if len(d["t"]) <= 2][:: 1 if ck.thorough else 3])]
    write_json(ck.path("docs_live.json"), {"docs": small})
    ck.tlc_ok("Body", cfg="BodyLive", envv={"VERIF_INPUT": ck.path("docs_live.json")}, timeout=300, extra=["-deadlock"])
    n_all = len(runs)
    # longer documents: random deliveries
    docs = []
    for ty in list(TINY):
        for t in sorted(set([g.doc(ty) for _ in range(30 if ck.thorough else 12)])):
            add(ty, t, none=3, idle=3, brk=g.chance(0.3), max_=g.pick([1, 3, 8, max(1, len(t))]))
    for ty, t in [("JStr", '"aZbZcZ"'), ("JStr", '"ZZZZ'), ("FMap", "a=ZZ&b=Z&Z=1"), ("FPairs", "Z=Z&Z"), ("JList", "[1,2] Z"), ("FDef", "q=ZxZ&page=2")]:
        for grow in (4096, 70000, 300000, 4000000) if ck.thorough else (70000, 3000000) if ty in ("JStr", "FDef") else (70000,):
            add(ty, t, none=1, idle=1, brk=g.chance(0.3) and grow < 1000000, grow=grow)
    explore("Body", simulate=4000 if ck.thorough else 700)
    n_sim = len(runs) - n_all
    cap = 400000 if ck.thorough else 30000
    if n_all > cap:
        keep = sorted(g.r.sample(range(n_all), cap))
        runs = [runs[i] for i in keep] + runs[n_all:]
    if len(runs) > cap * 3 // 2:
        runs = runs[:len(runs) - n_sim] + g.r.sample(runs[len(runs) - n_sim:], cap // 2)
    lines, want = [], {}
    for i, (d, steps) in enumerate(runs):
        hs = g.headers()
        if g.chance(0.1):
            hs = [h for h in hs if h[0] != "content-length"] + [["content-length", str(len(d["t"]))]]
        via = ["stream", "stream", "channel"][i % 3]
        lines.append({"id": i, "ty": d["ty"], "via": via, "headers": hs, "method": g.pick(["POST", "PUT", "GET", "HEAD"]), "grow": d["grow"],
                      "steps": [{"e": s["e"], "t": s["t"] if s["e"] == "d" else ""} for s in steps]})
        want[i] = [[s["t"], s["v"].replace("Z", "Z" * d["grow"]) if d["grow"] else s["v"]] for s in steps if s["e"] == "poll"]
    seen_docs = set()
    for d, steps in list(runs):
        if (d["ty"], d["t"], d["grow"]) not in seen_docs and not any(s["e"] == "err" for s in steps):
            seen_docs.add((d["ty"], d["t"], d["grow"]))
            i = len(lines)
            lines.append({"id": i, "ty": d["ty"], "via": "whole", "headers": [], "method": "POST", "grow": d["grow"],
                          "steps": [{"e": s["e"], "t": s["t"]} for s in steps if s["e"] == "d"] + [{"e": "poll", "t": ""}]})
            last = [s for s in steps if s["e"] == "poll"][-1]
            want[i] = [[last["t"], last["v"].replace("Z", "Z" * d["grow"]) if d["grow"] else last["v"]]]
    got = replay_lines(ck, art.bins["v_body"], lines)
    by = {l["id"]: l for l in lines}
    kinds = {}
    for i, w in want.items():
        s = got.get(i, {"hang": True})
        kinds[w[-1][0]] = kinds.get(w[-1][0], 0) + 1
        obs = None if s.get("hang") or s.get("died") else s["seen"]
        if obs != w:
            ck.violation("%s via %s from %s: polls saw %s, specified %s" % (by[i]["ty"], by[i]["via"], short(by[i]["steps"]), short(obs), short(w)),
                         {"case": by[i] if not by[i]["grow"] else "grown", "specified": short(w), "observed": short(obs)})
        elif i % 997 == 5:
            ck.sample({"type": by[i]["ty"], "delivery": by[i]["steps"] if not by[i]["grow"] else "grown", "polls": short(w)})
    ck.traces += len(want)
    ck.notes["results"] = kinds
    ck.log("%d deliveries replayed (from all %d of small documents and %d random ones of longer documents): %s" % (len(want), n_all, n_sim, kinds))
    if len(want) < 1000 or len(kinds) < 2:
        raise ToolError("too little was replayed")
    return ck.finish(assumptions=ASSUME_BODY)


# ------------------------------------------------------------------------------------------ C14

def c14(ck):
    art = cargo_build("rt", bins=("v_error",))
    ck.log("harness built against the current tree")
    vs = ck.tlc_ok("Errors", envv={"VERIF_TIER": ck.tier}, timeout=800)
    lines = []
    for i, v in enumerate(vs):
        lines.append({"id": i, "plan": v["plan"], "ops": [s["op"] for s in v["seen"]], "via": i})
    got = replay_lines(ck, art.bins["v_error"], lines)
    kinds = {}
    for i, v in enumerate(vs):
        o = got.get(i, {"died": True})
        bad = None
        if o.get("died") or o.get("hang"):
            bad = "the program died: %s" % o
        elif o["made"] != v["made"]:
            bad = "creation %s, specified: %s" % ("succeeds" if o["made"] else "panics", "succeeds" if v["made"] else "panics")
        elif len(o["seen"]) != len(v["seen"]):
            bad = "looking at it panics"
        else:
            for w, s in zip(v["seen"], o["seen"]):
                kinds[w["op"]] = kinds.get(w["op"], 0) + 1
                if isinstance(s, str):
                    bad = "looking at it panics"
                elif s.get("lost"):
                    bad = "%s loses the error: %s" % (w["op"], s)
                elif w["op"] == "display":
                    if any(t not in s["text"] for t in w["seq"]):
                        bad = "displayed as %r, without %r" % (s["text"], w["seq"])
                elif any(k in s and (sorted(s[k]) != sorted(w[k]) if k == "set" else s[k] != w[k]) for k in ("has", "num", "seq", "set")):
                    bad = "%s is %s, specified %s" % (w["op"], s, w)
        if bad:
            ck.violation("%s: %s" % (chain(v["plan"]), bad), {"case": lines[i], "specified": v, "observed": o})
        elif i % 1997 == 5:
            ck.sample({"error": chain(v["plan"]), "created": v["made"], "seen": o["seen"]})
    ck.traces += len(vs)
    kinds["refused"] = sum(1 for v in vs if not v["made"])
    ck.notes["observations"] = kinds
    ck.log("%d behaviours replayed: %s" % (len(vs), kinds))
    if len(vs) < 5000:
        raise ToolError("too little was replayed")
    return ck.finish(assumptions=["http's StatusCode and Method", "TLC evaluates the specification correctly"])


def chain(plan):
    return " <- ".join(l["k"] + " " + (l["t"] if l["k"] in ("own", "text") else ",".join(l["ms"]) if l["k"] == "methods" else str(l["status"])) for l in plan)


def short(v):
    t = json.dumps(v)
    return t if len(t) < 600 else t[:600] + "..."


def replay_lines(ck, exe, lines, timeout=600, args=()):
    """Runs a harness program that prints one answer per case; {id: answer}."""
    from concurrent.futures import ThreadPoolExecutor
    n = max(1, min(CORES, len(lines) // 50 + 1))
    parts = [lines[i::n] for i in range(n)]

    def one(k):
        got, todo, failures = {}, parts[k], 0
        while todo and failures < 6:        # (enough to report)
            path = ck.path("lines_%s_%d.ndjson" % (os.path.basename(exe), k))
            write_lines(path, todo)
            try:
                p = subprocess.run([exe, path] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   env=dict(env(), VERIF_FAILED=str(failures)), timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError("replay ran out of time")
            hang = None
            for line in p.stdout.decode("utf-8", "replace").splitlines():
                v = json.loads(line)
                if v.get("hang"):
                    hang = v["case"]
                else:
                    got[v["id"]] = v
            if p.returncode == 0:
                break
            ids = [c["id"] for c in todo]
            failures += 1 if hang is None else 2
            if hang is None:     # output may be buffered: run one by one to find the case
                if len(todo) == 1:
                    got[ids[0]] = {"died": True, "rc": p.returncode, "err": p.stderr.decode("utf-8", "replace")[-500:]}
                    break
                rest = [c for c in todo if c["id"] not in got]
                if not rest:
                    raise ToolError("harness failed: " + p.stderr.decode("utf-8", "replace")[-2000:])
                got[rest[0]["id"]] = {"died": True, "rc": p.returncode, "err": p.stderr.decode("utf-8", "replace")[-500:]}
                todo = rest[1:]
            else:
                got[hang] = {"hang": True}
                todo = [c for c in todo[ids.index(hang) + 1:] if c["id"] not in got]
        return got

    out = {}
    with ThreadPoolExecutor(CORES) as ex:
        for r in ex.map(one, range(n)):
            out.update(r)
    return out


CHECKS = {"C11": c11, "C14": c14}
