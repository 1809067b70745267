"""Checks of the service adapters (C15, C16, C17, C18, C21), from spec/Service.tla."""
from bodies import replay_lines, short
from common import *
from gen import *

ASSUME = ["hyper's Body and futures' task system", "tokio_threadpool runs what is spawned on it", "TLC evaluates the specification correctly"]
STATUS = [400, 401, 403, 404, 405, 405, 409, 413, 418, 500, 503]
P_METHODS = ["GET", "HEAD", "POST", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PUT"]
B_METHODS = ["GET", "HEAD", "POST", "PATCH", "CONNECT", "PUT"]
OTHERS = ["OPTIONS", "PATCH", "TRACE", "DELETE", "head", "PURGE"]
STRANGE = ["head", "Head", "get", "HEADER", "HEA", "PURGE", "M-SEARCH", "x"]
ALL = P_METHODS + ["PATCH"] + STRANGE


def stage(out="ok", gate=False, status=400, allow="", has=False):
    return {"has": has, "gate": gate, "out": out, "status": status, "allow": allow}


class Plans(Gen):
    """Scenarios of requests on services."""

    def int(self, a, b):
        return self.r.randint(a, b)

    def weighted(self, xs):
        return self.r.choices([x for x, _ in xs], [w for _, w in xs])[0]

    def status(self):
        """Every status in turn."""
        self.last = 400 + (getattr(self, "last", 400 + self.int(0, 199)) - 399) % 200
        return self.last

    def some(self, outs, gates, adapter=True):
        o = self.weighted(outs)
        s = stage(o, self.chance(gates), self.status() if o == "lib" and self.chance(0.8) else self.pick(STATUS))
        if s["status"] == 405 and adapter and o == "lib":
            s["allow"] = ",".join(sorted(self.r.sample(ALL, self.int(0, 3) if self.chance(0.7) else self.int(4, 15))))
        return s

    def plan(self, i, base, layers, inst=1, route="ok", method=None, guard=None, body=None, hand=None, ph=None, payload=None):
        adapter = base != "custom"
        has = bool(body and body["has"])
        ok = B_METHODS if has else P_METHODS
        kind = payload or self.pick(["str", "string", "any", "number", "boxed", "error"])
        p = {"inst": inst, "route": route, "allow": "", "guard": guard or stage(), "body": body or stage(), "hand": hand or stage(),
             "ph": ph if ph is not None else [stage() for _ in range(layers)], "payload": kind}
        any_ = adapter and route in ("ok", "boom") and (method in STRANGE or self.chance(0.3))        # (the conversion that takes any method)
        if any_:
            ok = ALL
        m = method if method in ok else self.pick(ok + (["HEAD"] if self.chance(0.3) else []))
        t = "/%s/ok%d" % ("any" if any_ else "b" if has else "p", i)
        if not adapter:
            m, t = method or self.pick(ok), self.pick([t, "/nowhere"])
        elif route == "none":
            t, m = self.pick(["/nowhere", "/p", "/p/a/b", "/p/", "*", "/b//"]), method or self.pick(ALL)
        elif route == "conv":
            t, m = self.pick(["/p/bad", "/p/x?boom=%d-%s" % (i, kind)]), m if m in P_METHODS else "GET"
        elif route == "method":
            w = [o for o in OTHERS if o not in ok]
            m = method if method in w else self.pick(w)
            p["allow"] = ",".join(sorted(ok))
        elif route == "boom" and not any_:
            if has:
                t += "?boom=%d-%s" % (i, kind)
            else:
                t = "/p/boom-%d-%s" % (i, kind)
                if self.chance(0.3) and not method:
                    m = self.pick([o for o in OTHERS if o not in ok])     # (conversions are tried for the methods to be allowed)
        if self.chance(0.2) and "?" not in t and t != "*" and not has:
            t += self.pick(["?", "?a=1", "?boom=x"])
        hs = [["x-h", self.pick(["1", "a b", ""])] for _ in range(self.int(0, 2))]
        for k, v in [("content-length", "99"), ("content-type", "text/html"), ("set-cookie", "a=1"), ("set-cookie", "b=2"), ("allow", "GET"),
                     ("transfer-encoding", "chunked"), ("etag", '"x"'), ("content-length", "0"), ("content-encoding", "gzip"), ("content-range", "bytes 0-1/2"),
                     ("connection", "close"), ("vary", "*"), ("location", "/x"), ("www-authenticate", "Basic"), ("retry-after", "1"), ("server", "x"),
                     ("date", "x"), ("accept-ranges", "bytes"), ("trailer", "x"), ("x-content-type-options", "nosniff")]:
            if self.chance(0.15):
                hs.append([k, v])
        p.update(method=m, target=t, status=self.pick([200, 200, 201, 204, 206, 301, 304, 404, 405, 500, 599, self.int(100, 599)]), version=self.int(0, 2), headers=hs,
                 chunks=self.int(0, 3), reqv=self.int(0, 3), reqh=self.headers(), resp="" if self.chance(0.1) else "answer %d %s" % (i, self.pick(["", "xyz", "x" * 40])))
        return p

    def request(self, i, base, layers, inst=1, gates=0.4, boom=0.2, err=0.3, method=None, routes=None):
        sync = base == "sync"
        outs = [("ok", 1.0), ("lib", err / 3), ("other", err / 3), ("wrapped", err / 3), ("boom", boom / 2), ("boom0", boom / 2)]
        adapter = base != "custom"
        hand = self.some([o for o in outs if not sync or o[0] in ("ok", "boom", "boom0")], gates, adapter)
        ph = []
        for _ in range(layers):
            ph.append(self.some([("ok", 1.0), ("lib", err / 4), ("other", err / 4), ("wrapped", err / 4), ("boom", boom / 2), ("boom0", boom / 2)], gates, False))
        for s in ph + ([] if adapter else [hand]):
            if s["status"] == 405:
                s["status"] = 404
        if not adapter:
            return self.plan(i, base, layers, inst, "ok", method, None, None, hand, ph)
        body = self.some(outs, gates)
        body["has"] = self.chance(0.5)
        if not body["has"]:
            body = stage()
        route = self.weighted(routes or [("ok", 1.0), ("none", err / 4), ("conv", err / 4), ("method", err / 3), ("boom", boom / 3)])
        if route != "ok" and not (route == "boom" and body["has"]):
            body = stage()
        return self.plan(i, base, layers, inst, route, method, self.some(outs, gates), body, hand, ph)

    def insts(self, n, base):
        out = [{"how": "orig", "from": 1}]
        for j in range(1, n):
            h = self.pick(["make", "clone", "clone"])
            out.append({"how": h, "from": self.int(1, j)})
        if n > 1 and self.chance(0.2):
            out[0] = {"how": "make", "from": 1}
        return out

    def scenario(self, base, layers, reqs, insts=None, ready=(), drops=False, early=False, idle=False, setup=False):
        return {"base": base, "layers": layers, "ready": list(ready), "insts": insts or [{"how": "orig", "from": 1}], "reqs": reqs,
                "drops": drops, "early": early, "idle": idle, "setup": setup}


def run_spec(ck, scns, exhaustive, num=0, cfg="Service", hist=True, locked=True, timeout=500):
    """Explores the scenarios; returns the behaviours as (scenario, behaviour)."""
    for i, s in enumerate(scns):
        s["id"] = i
    path = ck.path("scns_%d.json" % len(ck.runs))
    write_json(path, {"scenarios": scns})
    vs = ck.tlc_ok("Service", cfg=cfg, envv={"VERIF_INPUT": path, "VERIF_LOCKED": "yes" if locked else "no", "VERIF_HIST": "yes" if hist else "no"},
                   simulate=None if exhaustive else num, timeout=timeout, extra=["-deadlock"] + ([] if exhaustive else ["-depth", "400"]))
    return [(scns[v["scn"]], v) for v in vs]


def check_spec(ck, scns):
    """The properties of the specification, over all schedules (states instead of histories)."""
    run_spec(ck, scns, True, hist=False)
    run_spec(ck, scns, True, hist=False, locked=False)


def live_spec(ck, scns):
    scns = [dict(s, drops=False, idle=False) for s in scns]
    run_spec(ck, scns, True, cfg="ServiceLive", hist=False)


def replay(ck, art, runs, pool, g, modes_of=None):
    lines, by = [], {}
    for scn, v in runs:
        if modes_of:
            for m in modes_of(v):
                by[len(lines)] = (scn, v, m)
                lines.append(dict(scn, id=len(lines), mode=m, steps=v["steps"]))
            continue
        modes = ["step"] if scn["base"] != "sync" else []
        if not any(s["a"] == "drop" and s["r"] == "early" for s in v["steps"]) and (scn["base"] == "sync" or g.chance(pool)):
            modes.append("pool")
        for m in modes:
            i = len(lines)
            lines.append(dict(scn, id=i, mode=m, steps=v["steps"]))
            by[i] = (scn, v, m)
    got = replay_lines(ck, art.bins["v_service"], lines)
    kinds = {}
    for i, (scn, v, m) in by.items():
        bad = compare(scn, v, m, got.get(i, {"died": True}))
        for a in v["ans"]:
            k = a.split(":")[0].split(" allow=")[0]
            kinds[k] = kinds.get(k, 0) + 1
        if bad:
            ck.violation("%s (%s, %d layers, %s): %s" % (" | ".join("%s %s" % (p["method"], p["target"]) for p in scn["reqs"]), scn["base"], scn["layers"], m, bad),
                         {"case": lines[i], "specified": v, "observed": got.get(i)})
        elif i % 1499 == 7:
            ck.sample({"requests": [p["method"] + " " + p["target"] for p in scn["reqs"]], "schedule": ["%s %d" % (s["a"], s["i"]) for s in v["steps"]], "answers": v["ans"]})
    ck.traces += len(lines)
    for k, n in kinds.items():
        ck.notes.setdefault("answers", {})[k] = ck.notes.get("answers", {}).get(k, 0) + n
    count = lambda m: sum(1 for l in lines if l["mode"] == m)
    ck.log("%d behaviours replayed (%s)" % (len(lines), ", ".join("%d %s" % (count(m), n) for m, n in (
        ("step", "poll by poll"), ("pool", "on a thread pool"), ("turn", "step by step on parallel threads"), ("free", "on free-running threads")) if count(m))))
    return len(lines)


def compare(scn, v, mode, o):
    if o.get("died") or o.get("hang"):
        return "the program %s" % ("hangs" if o.get("hang") else "died: %s" % o.get("err"))
    ran = set()
    for k, (s, n) in enumerate(zip(v["steps"], o["steps"])):
        if s["a"] == "ready" and n != s["r"]:
            return "step %d: service %d says %s to whether it is ready, specified: %s" % (k, s["i"], n, s["r"])
        if s["a"] in ("run", "turn"):
            ran.add(s["i"])
        if s["a"] in ("turn", "call") and mode == "turn" and not n:
            return "step %d: request %d gets no further than the calls %s while the others wait (%s)" % (
                k, s["i"], o["logs"][s["i"] - 1], " | ".join("%s: %s" % x for x in enumerate(o["logs"], 1)))
        if (s["a"] == "run" or (s["a"] == "idle" and mode == "step")) and n != [s["r"], s["n"]]:
            return "step %d: request %d is %s after %d calls, specified: %s after %d (calls so far %s, specified in the end %s)" % (
                k, s["i"], n[0], n[1], s["r"], s["n"], short(o["logs"][s["i"] - 1]), short(v["logs"][s["i"] - 1]))
    if o["stray"]:
        return "a panic handler was run for no request: %s" % o["stray"]
    for i, p in enumerate(scn["reqs"]):
        log, ans = o["logs"][i], o["ans"][i]
        if i + 1 not in ran and mode != "free":      # dropped before it was ever polled
            alone = v["alone"][i]["log"] if scn["base"] != "custom" else v["logs"][i] + v["alone"][i]["log"]
            if log != alone[:len(log)] or len(log) < len(v["logs"][i]):
                return "request %d, dropped right after its call, made the calls %s" % (i + 1, log)
            if ans not in ("none", v["alone"][i]["ans"]):
                return "request %d, dropped right after its call, was answered %s" % (i + 1, ans)
            continue
        if log != v["logs"][i]:
            return "request %d made the calls %s, specified: %s" % (i + 1, short(log), short(v["logs"][i]))
        if ans != v["ans"][i]:
            return "request %d was answered %r, specified: %r" % (i + 1, ans, v["ans"][i])
    return None


def build(ck):
    art = cargo_build("rt", bins=("v_service",))
    ck.log("harness built against the current tree")
    return art


def enough(ck, n, least):
    if n < least and not ck.violations:
        raise ToolError("too little was replayed")


# ------------------------------------------------------------------------------------------ C15

def c15(ck):
    g, art = Plans(ck.seed, "C15"), build(ck)
    one = []
    # every way one request can go
    outs = ["ok", "lib", "other", "wrapped"]
    for base in ("async", "sync"):
        for layers in (0, 1):
            for route in ("none", "conv", "method"):
                for m in (None, "HEAD", "GET", "POST", "PUT"):
                    one.append(g.scenario(base, layers, [g.plan(1, base, layers, route=route, method=m)]))
            for go in outs:
                for bo in ([None] + outs if go == "ok" else [None, "ok"]):
                    for ho in (outs if base == "async" else ["ok"]) if go == "ok" and bo in (None, "ok") else ["ok"]:
                        for m in (None, "HEAD", "GET", "POST"):
                            for gates in (0, 7) if not ck.thorough else range(8):
                                st = lambda o, bit, has=False: dict(g.some([(o, 1)], 0), gate=bool(gates & bit), has=has)
                                one.append(g.scenario(base, layers, [g.plan(
                                    1, base, layers, method=m, guard=st(go, 1), body=stage() if bo is None else st(bo, 2, True), hand=st(ho, 4))],
                                    idle=g.chance(0.1), early=g.chance(0.2), drops=g.chance(0.1)))
    # every status an error can have
    for st in range(400, 600):
        for base in ("async", "sync"):
            at = g.pick(["guard", "body", "hand"] if base == "async" else ["guard", "body"])
            e = dict(stage("lib", False, st), has=at == "body", allow="PUT" if st == 405 else "")
            one.append(g.scenario(base, g.int(0, 1), [g.plan(1, base, 1, **{at: e})]))
    runs = run_spec(ck, one, True)
    two = [g.scenario(b, l, [g.request(i, b, l, gates=0.2, boom=0, err=0.9) for i in (1, 2)], drops=g.chance(0.3)) for b in ("async", "sync")
           for l in (0, 1) for _ in range(60 if ck.thorough else 12)]
    runs += run_spec(ck, two, True)
    many = [g.scenario(b, g.int(0, 1), [], insts=g.insts(3, b), drops=g.chance(0.5), early=g.chance(0.5), idle=g.chance(0.5)) for b in ("async", "async", "sync")
            for _ in range(100 if ck.thorough else 20)]
    for s in many:
        s["reqs"] = [g.request(i, s["base"], s["layers"], inst=g.int(1, 3), boom=0, err=0.9) for i in range(1, g.int(3, 6))]
    check_spec(ck, two + [s for s in many if len(s["reqs"]) <= 3][:6])
    live_spec(ck, two[:20])
    runs += run_spec(ck, many, False, 4000 if ck.thorough else 120)
    n = replay(ck, art, cap(g, runs, 60000 if ck.thorough else 6000), 0.3, g)
    n += parallel(ck, art, g, small=True)
    enough(ck, n, 1000)
    return ck.finish(assumptions=ASSUME)


def cap(g, runs, n):
    """At most n of the behaviours, favouring none (the order is kept)."""
    if len(runs) <= n:
        return runs
    return [runs[i] for i in sorted(g.r.sample(range(len(runs)), n))]


# ------------------------------------------------------------------------------------------ C16

def c16(ck):
    g, art = Plans(ck.seed, "C16"), build(ck)
    scns = []
    for base in ("async", "sync"):
        for layers in (0, 1, 2):
            for m in ["HEAD"] * 5 + ["GET", None, "CONNECT", "TRACE", "OPTIONS", "head", "Head", "HEA"]:
                for _ in range(60 if ck.thorough else 12):
                    scns.append(g.scenario(base, layers, [g.request(1, base, layers, gates=0.3, boom=0.2 if layers else 0, err=0.5, method=m)], early=g.chance(0.2)))
                if m == "HEAD":
                    for route in ("none", "method", "conv", "boom") if layers else ("none", "method", "conv"):
                        scns.append(g.scenario(base, layers, [g.request(1, base, layers, method=m, routes=[(route, 1)])]))
    runs = run_spec(ck, scns, True)
    two = [g.scenario(b, g.int(0, 1), [], drops=g.chance(0.2)) for b in ("async", "sync") for _ in range(80 if ck.thorough else 15)]
    for s in two:
        s["reqs"] = [g.request(i, s["base"], s["layers"], gates=0.25, boom=0.1, err=0.3, method=g.pick(["HEAD", "HEAD", "GET", "POST", "head", None])) for i in (1, 2)]
    check_spec(ck, two)
    runs += run_spec(ck, two, True)
    many = [g.scenario(b, g.int(0, 2), [], insts=g.insts(3, b), drops=g.chance(0.3), early=g.chance(0.5)) for b in ("async", "sync") for _ in range(100 if ck.thorough else 20)]
    for s in many:
        s["reqs"] = [g.request(i, s["base"], s["layers"], inst=g.int(1, 3), boom=0.1, err=0.3, method=g.pick(["HEAD", "HEAD", "GET", "POST", "head", None])) for i in range(1, g.int(3, 6))]
    runs += run_spec(ck, many, False, 4000 if ck.thorough else 120)
    n = replay(ck, art, cap(g, runs, 60000 if ck.thorough else 6000), 0.3, g)
    n += parallel(ck, art, g, small=True)
    enough(ck, n, 1000)
    return ck.finish(assumptions=ASSUME)


# ------------------------------------------------------------------------------------------ C17

def c17(ck):
    g, art = Plans(ck.seed, "C17"), build(ck)
    scns = []
    # every place one request can panic at
    for base in ("async", "sync", "custom"):
        for layers in (1, 2):
            for at in ("route", "guard", "body", "hand", None) if base != "custom" else ("hand", None):
                for how in ("boom", "boom0") if at not in ("route", None) else ("boom",):
                    for kind in ("str", "string", "any", "number", "boxed", "error"):
                        for pho in ("ok", "lib", "other", "wrapped", "boom", "boom0") if layers == 1 else ("ok", "boom", "boom0"):
                            for gates in (0, 15) if not ck.thorough else (0, 1, 2, 4, 8, 15):
                                st = {k: stage(gate=bool(gates & b), has=k == "body") for k, b in (("guard", 1), ("body", 2), ("hand", 4))}
                                if at in st:
                                    st[at]["out"] = how
                                if at != "body" and g.chance(0.5):
                                    st["body"] = stage()
                                ph = [dict(g.some([(pho, 1)], 0, False), gate=bool(gates & 8))]
                                if layers == 2:
                                    ph.append(g.some([("ok", 1), ("lib", 0.2), ("boom", 0.3), ("boom0", 0.3)], 0.4, False))
                                for s in ph:
                                    if s["status"] == 405:
                                        s["status"] = 404
                                route = "boom" if at == "route" else "ok"
                                if base == "custom":
                                    st["body"] = stage()
                                scns.append(g.scenario(base, layers, [g.plan(1, base, layers, route=route, payload=kind, ph=ph, **st)], early=g.chance(0.2), idle=g.chance(0.1)))
    runs = run_spec(ck, scns, True)
    # a panic while others are under way, and what comes after
    two = [g.scenario(b, l, [g.request(1, b, l, gates=0.3, boom=2, err=0.1), g.request(2, b, l, gates=0.25, boom=0.4, err=0.2)], drops=g.chance(0.3))
           for b in ("async", "sync", "custom") for l in (0, 1, 2) for _ in range(30 if ck.thorough else 6)]
    check_spec(ck, two)
    live_spec(ck, two[::2])
    runs += run_spec(ck, two, True)
    many = [g.scenario(b, g.int(1, 2), [], insts=g.insts(2, b), drops=g.chance(0.3), early=g.chance(0.5), idle=g.chance(0.3)) for b in ("async", "async", "sync", "custom")
            for _ in range(80 if ck.thorough else 15)]
    for s in many:
        s["reqs"] = [g.request(i, s["base"], s["layers"], inst=g.int(1, 2), gates=0.3, boom=0.7, err=0.2) for i in range(1, g.int(3, 6))]
    runs += run_spec(ck, many, False, 4000 if ck.thorough else 120)
    n = replay(ck, art, cap(g, runs, 60000 if ck.thorough else 8000), 0.3, g)
    n += parallel(ck, art, g, small=True)
    enough(ck, n, 1000)
    return ck.finish(assumptions=ASSUME)


# ------------------------------------------------------------------------------------------ C18

def c18(ck):
    g, art = Plans(ck.seed, "C18"), build(ck)
    two = [g.scenario(b, g.int(0, 1), [], insts=g.insts(g.int(1, 2), b), drops=g.chance(0.5)) for b in ("async", "async", "sync") for _ in range(60 if ck.thorough else 14)]
    for s in two:
        s["reqs"] = [g.request(i, s["base"], s["layers"], inst=g.int(1, len(s["insts"])), gates=0.35, boom=0.15, err=0.2) for i in (1, 2)]
    runs = run_spec(ck, two, True)
    three = [g.scenario(b, g.int(0, 2), [], insts=g.insts(2, b), drops=g.chance(0.7), early=g.chance(0.3)) for b in ("async", "sync") for _ in range(20 if ck.thorough else 5)]
    for s in three:
        s["reqs"] = [g.request(i, s["base"], s["layers"], inst=g.int(1, 2), gates=0.4, boom=0.2, err=0.2) for i in (1, 2, 3)]
    check_spec(ck, three)
    live_spec(ck, three)
    many = [g.scenario(b, g.int(0, 2), [], insts=g.insts(g.int(1, 4), b), drops=g.chance(0.6), early=g.chance(0.4), idle=g.chance(0.4)) for b in ("async", "async", "sync")
            for _ in range(150 if ck.thorough else 30)]
    for s in many:
        s["reqs"] = [g.request(i, s["base"], s["layers"], inst=g.int(1, len(s["insts"])), gates=0.5, boom=0.15, err=0.25) for i in range(1, g.int(4, 9))]
    runs2 = run_spec(ck, three + many, False, 6000 if ck.thorough else 200)
    n = replay(ck, art, cap(g, runs, 40000 if ck.thorough else 4000) + runs2, 0.6, g)
    enough(ck, n, 1000)
    n = parallel(ck, art, g)
    enough(ck, n, 1000)
    return ck.finish(assumptions=ASSUME)


def parallel(ck, art, g, small=False):
    """Requests on threads of their own: in the order of the specification's steps, and in any order."""
    def scenario(b, n, gates, layers):
        insts = [{"how": g.pick(["orig", "make"]), "from": 1}] + [{"how": g.pick(["make", "clone", "clone"]), "from": g.int(1, j)} for j in range(1, n)]
        return g.scenario(b, layers, [g.request(i, b, layers, inst=i, gates=gates, boom=0.15, err=0.25) for i in range(1, n + 1)], insts=insts, setup=True)
    part = 3 if small else 1
    two = [scenario(b, 2, 0, g.int(0, 1)) for b in ("async", "async", "sync") for _ in range((18 if ck.thorough else 6) // part)]
    runs = cap(g, run_spec(ck, two, True, locked=False), (40000 if ck.thorough else 6000) // part)
    more = [scenario(b, g.int(2, 3), 0.3, g.int(0, 2)) for b in ("async", "async", "sync") for _ in range((100 if ck.thorough else 20) // part)]
    runs += run_spec(ck, more, False, (3000 if ck.thorough else 250) // part, locked=False)
    n = replay(ck, art, runs, 0, g, lambda v: ["turn"])
    if small:
        return n
    free = [scenario(b, 8 if b == "async" else 4, 0.2, g.int(0, 2)) for b in ("async", "async", "sync") for _ in range(60 if ck.thorough else 15)]
    runs = run_spec(ck, free, False, 400 if ck.thorough else 60, locked=False)
    return n + replay(ck, art, runs, 0, g, lambda v: ["free"] * (6 if ck.thorough else 3))


# ------------------------------------------------------------------------------------------ C21

def c21(ck):
    g, art = Plans(ck.seed, "C21"), build(ck)
    scns = []
    for layers in (0, 1, 2):
        for ready in ([], ["no"], ["err"], ["no", "no"], ["no", "err"], ["yes", "no"], ["err", "yes", "no"], ["lib"], ["no", "lib"], ["no", "yes", "no", "yes", "err"]):
            for insts in ([("orig", 1)], [("make", 1)], [("orig", 1), ("clone", 1)], [("orig", 1), ("make", 1)], [("make", 1), ("make", 1)], [("make", 1), ("clone", 1)]):
                for _ in range(4 if ck.thorough else 1):
                    scns.append(g.scenario("custom", layers, [g.request(i + 1, "custom", layers, inst=min(i, len(insts) - 1) + 1, gates=0.15, boom=0.1 if layers else 0, err=0.3) for i in range(2)],
                                           insts=[{"how": h, "from": f} for h, f in insts], ready=ready))
    for base in ("async", "sync"):
        for layers in (0, 1):
            for insts in ([("orig", 1)], [("make", 1)], [("orig", 1), ("clone", 1)], [("make", 1), ("clone", 1)], [("make", 1), ("make", 1)]):
                for _ in range(4 if ck.thorough else 2):
                    scns.append(g.scenario(base, layers, [g.request(i + 1, base, layers, inst=min(i, len(insts) - 1) + 1, gates=0.15, boom=0, err=0.2) for i in range(2)],
                                           insts=[{"how": h, "from": f} for h, f in insts]))
    check_spec(ck, scns)
    live_spec(ck, scns[::3])
    few = [s for s in scns if len(s["insts"]) == 1 or len(s["ready"]) < 2]
    runs = run_spec(ck, few if ck.thorough else g.r.sample(few, 60), True)
    many = list(scns)
    for _ in range(300 if ck.thorough else 60):
        s = g.scenario("custom", g.int(0, 2), [], insts=g.insts(4, "custom"), ready=[g.weighted([("yes", 1), ("no", 1), ("err", 0.3), ("lib", 0.3)]) for _ in range(g.int(0, 6))],
                       drops=g.chance(0.3), early=g.chance(0.3), idle=g.chance(0.3))
        s["reqs"] = [g.request(i, "custom", s["layers"], inst=g.int(1, 4), gates=0.3, boom=0.15, err=0.3) for i in range(1, g.int(3, 7))]
        many.append(s)
    runs2 = run_spec(ck, many, False, 4000 if ck.thorough else 150)
    n = replay(ck, art, cap(g, runs, 40000 if ck.thorough else 5000) + runs2, 0.2, g)
    enough(ck, n, 1000)
    return ck.finish(assumptions=ASSUME)


# ------------------------------------------------------------------------------------------ C22

HOP = ["content-length", "transfer-encoding", "connection", "trailer", "te", "expect", "upgrade", "host"]


class Wired(Plans):
    """Scenarios of connections to a server."""

    def over(self, i, base, layers, conn, **k):
        """A request that can be sent over a connection."""
        while True:
            p = self.request(i, base, layers, inst=conn, **k)
            if p["method"] != "CONNECT" and p["reqv"] < 3:
                break
        return self.wired(p, base)

    def wired(self, p, base):
        keep = lambda hs: [[k, v.strip()] for k, v in hs if k.lower() not in HOP]
        p.update(headers=keep(p["headers"]), reqh=keep(p["reqh"]), reqv=1 if p["reqv"] == 1 else 0, status=self.pick([200, 200, 201, 202, 301, 404, 405, 418, 500, 503, 599]))
        if base == "custom":
            reads, sends = p["hand"]["out"] != "boom0", True
        else:
            sends = p["body"]["has"] or self.chance(0.15)
            reads = p["body"]["has"] and p["route"] == "ok" and p["guard"]["out"] == "ok" and p["body"]["out"] != "boom0"
        p["close"] = p["reqv"] == 1 or (sends and not reads) or self.chance(0.08)
        p["cut"] = reads and self.chance(0.1)
        p.update(chunked=self.chance(0.5), sends=sends, pad=self.pick([0, 0, 1, 9000, 60000]) if reads else 0, grow=self.pick([0, 0, 0, 8000, 300000]))
        return p

    def served(self, base, layers, conns, n, halves=False, pipe=False, leave=False, **k):
        where = list(range(1, conns + 1)) + [self.int(1, conns) for _ in range(n - conns)]
        self.r.shuffle(where)
        return {"base": base, "layers": layers, "conns": conns, "pipe": pipe, "halves": halves, "leave": leave, "ready": self.pick([[], [], ["no"], ["no", "yes", "no"]]) if base == "custom" else [],
                "reqs": [self.over(i + 1, base, layers, c, **k) for i, c in enumerate(where[:n])]}


def run_server(ck, scns, exhaustive, num=0, cfg="Server", hist=True):
    for i, s in enumerate(scns):
        s["id"] = i
    path = ck.path("srv_%d.json" % len(ck.runs))
    write_json(path, {"scenarios": scns})
    vs = ck.tlc_ok("Server", cfg=cfg, envv={"VERIF_INPUT": path, "VERIF_HIST": "yes" if hist else "no"}, simulate=None if exhaustive else num, timeout=500,
                   extra=["-deadlock"] + ([] if exhaustive else ["-depth", "400"]))
    return [(scns[v["scn"]], v) for v in vs]


def over_wire(p, a):
    """What of an answer comes over the connection."""
    return a[:a.index(":") + 1] if p["method"] == "HEAD" and ":" in a else a


def replay_server(ck, art, runs, mode):
    lines = [dict(scn, id=i, mode=mode, steps=v["steps"] if mode == "wire" else []) for i, (scn, v) in enumerate(runs)]
    got = replay_lines(ck, art.bins["v_service"], lines)
    kinds = ck.notes.setdefault("answers", {})
    for i, (scn, v) in enumerate(runs):
        o, bad = got.get(i, {"died": True}), None
        if o.get("died") or o.get("hang"):
            bad = "the program %s" % ("hangs" if o.get("hang") else "died: %s" % o.get("err"))
        else:
            if mode == "wire" and o["steps"] and o["steps"][-1] is not None:
                n = len(o["steps"]) - 1
                bad = "step %d (%s): %s" % (n, " ".join("%s %d" % (s["a"], s["i"]) for s in v["steps"][max(0, n - 6):n + 1]), short(o["steps"][-1]))
            elif o["stray"]:
                bad = "unexpected: %s" % short(o["stray"])
            for k, p in enumerate(scn["reqs"]):
                want = over_wire(p, v["ans"][k])
                kinds[want.split(":")[0].split(" allow=")[0]] = kinds.get(want.split(":")[0].split(" allow=")[0], 0) + 1
                if bad:
                    continue
                if v["steps"][-1]["now"]["st"][p["inst"] - 1] == "gone" and not v["ans"][k]:
                    log, n = o["logs"][k], len(v["logs"][k])
                    rest = log if scn["base"] != "custom" else log[1:]
                    if log[:n] != v["logs"][k] or rest != v["alone"][k][:len(rest)] or (n == 0 and log and not any(
                            s["a"] in ("send", "half") and s["i"] == k + 1 for s in v["steps"])):
                        bad = "request %d made the calls %s, specified: %s before its client left, and at most %s" % (k + 1, short(log), short(v["logs"][k]), short(v["alone"][k]))
                    continue
                if o["logs"][k] != v["logs"][k]:
                    bad = "request %d made the calls %s, specified: %s" % (k + 1, short(o["logs"][k]), short(v["logs"][k]))
                elif (o["ans"][k] or "") != want:
                    bad = "request %d was answered %r, specified: %r" % (k + 1, o["ans"][k], want)
        if bad:
            ck.violation("%s (%s, %d layers, %s, %d connections): %s" % (" | ".join("%s %s" % (p["method"], p["target"]) for p in scn["reqs"]), scn["base"], scn["layers"], mode, scn["conns"], bad),
                         {"case": lines[i], "specified": v, "observed": o})
        elif i % 1499 == 7:
            ck.sample({"requests": [p["method"] + " " + p["target"] for p in scn["reqs"]], "schedule": ["%s %d" % (s["a"], s["i"]) for s in v["steps"]], "answers": v["ans"]})
    ck.traces += len(lines)
    ck.log("%d behaviours replayed over real connections (%s)" % (len(lines), "step by step" if mode == "wire" else "all connections at once"))
    return len(lines)


def c22(ck):
    g, art = Wired(ck.seed, "C22"), build(ck)
    bases = ("async", "async", "sync", "custom")
    # one connection, every order of what its client does
    one = [g.served(b, g.int(0, 2), 1, g.int(1, 3), halves=True, pipe=True, leave=g.chance(0.3), gates=0.3, boom=0.15, err=0.25) for b in bases for _ in range(120 if ck.thorough else 25)]
    runs = run_server(ck, one, True)
    # two connections, every order
    two = [g.served(b, g.int(0, 1), 2, g.int(2, 3), halves=g.chance(0.3), pipe=g.chance(0.3), leave=g.chance(0.4), gates=0.2, boom=0.2, err=0.25) for b in bases for _ in range(40 if ck.thorough else 8)]
    runs += cap(g, run_server(ck, two, True), 20000 if ck.thorough else 1500)
    three = [g.served(b, g.int(0, 2), 3, g.int(3, 4), halves=g.chance(0.3), pipe=g.chance(0.5), leave=g.chance(0.3), gates=0.25, boom=0.2, err=0.25) for b in bases for _ in range(12 if ck.thorough else 3)]
    run_server(ck, three, True, hist=False)
    run_server(ck, one[::3] + two[::3], True, cfg="ServerLive", hist=False)
    many = three + [g.served(b, g.int(0, 2), c, g.int(c, 4 * c), halves=True, leave=g.chance(0.3), pipe=g.chance(0.5), gates=0.25, boom=0.08, err=0.15) for b in bases for c in (1, 2, 3, 4) for _ in range(40 if ck.thorough else 8)]
    runs += run_server(ck, many, False, 1500 if ck.thorough else 100)
    n = replay_server(ck, art, runs, "wire")
    free = [g.served(b, g.int(0, 2), c, g.int(2 * c, 5 * c), gates=0.2, boom=0.05, err=0.12) for b in bases for c in (2, 4, 8) for _ in range(30 if ck.thorough else 8)]
    for s in free:
        for p in s["reqs"]:
            p["cut"] = False
    runs = run_server(ck, free, False, 200 if ck.thorough else 30)
    n += replay_server(ck, art, runs * 4, "wire-free")
    enough(ck, n, 1000)
    return ck.finish(assumptions=ASSUME + ["hyper's HTTP/1 server", "the loopback network"])


# ------------------------------------------------------------------------------------------ C19

LOST = "known: property=C19 [ended while waiting for room]"


def c19(ck):
    g = Plans(ck.seed, "C19")
    art = cargo_build("rt", bins=("v_blocking",))
    ck.log("harness built against the current tree")

    def task(kind=None, bad=0.35, tight=False):
        kind = kind or g.weighted([("one", 3), ("seq", 1), ("join", 1.5), ("service", 2), ("light", 1.5)])
        out = lambda: "ok" if kind == "join" and tight or not g.chance(bad) else g.pick(["err", "err", "boom"])
        if kind == "light":
            return {"kind": g.pick(["one", "service"]), "parts": [{"blk": False, "out": "ok"}]}
        if kind == "service":
            return {"kind": kind, "parts": [{"blk": True, "out": "boom" if g.chance(0.15) else "ok"}]}
        n = 1 if kind == "one" else 2
        ps = [{"blk": g.chance(0.8), "out": out()} for _ in range(n)]
        if kind == "one":
            ps[0]["blk"] = True
        return {"kind": kind, "parts": ps}

    def scenario(n, cap, **k):
        """tight: closures may have to wait for room, so no task may end while it waits (see spec)."""
        s = dict({"cap": cap, "workers": g.int(1, 3), "kill": False, "forget": False, "early": False, "lossy": False, "trace": []}, **k)
        s["tasks"] = [task(tight=True) for _ in range(n)]
        if sum(any(p["blk"] for p in t["parts"]) for t in s["tasks"]) <= cap:
            s["tasks"] = [task() if t["kind"] == "join" and sum(any(p["blk"] for p in t["parts"]) for t in s["tasks"]) < cap else t for t in s["tasks"]]
        elif s["kill"]:
            s["lossy"] = True
        return s

    def spec(scns, cfg, module="Blocking", hist="no", **k):
        for i, s in enumerate(scns):
            s["id"] = i
        path = ck.path("blk_%d.json" % len(ck.runs))
        write_json(path, {"scenarios": scns})
        return ck.tlc_ok(module, cfg=cfg, envv={"VERIF_INPUT": path, "VERIF_HIST": hist, "VERIF_VERBOSE": k.pop("verbose", "no")}, timeout=600, **k)
    # the properties of the specification
    small = [scenario(g.int(1, 3 if not ck.thorough else 4), g.int(1, 2), kill=g.chance(0.4), forget=g.chance(0.3), early=g.chance(0.5)) for _ in range(60 if ck.thorough else 25)]
    spec(small, "Blocking", extra=["-deadlock"])
    spec([dict(s, kill=g.chance(0.3), forget=False) for s in small if sum(len(t["parts"]) for t in s["tasks"]) <= (4 if ck.thorough else 3)], "BlockingLive", extra=["-deadlock"])
    # schedules for the real thread pool
    scns = []
    for _ in range(400 if ck.thorough else 80):
        cap = g.weighted([(1, 3), (2, 2), (3, 1)])
        scns.append(scenario(g.int(2, cap + 4), cap, kill=g.chance(0.25), forget=g.chance(0.3), early=g.chance(0.4)))
        scns.append(scenario(g.int(1, 4), g.int(3, 6), kill=g.chance(0.7), forget=g.chance(0.3), early=g.chance(0.4)))
    for _ in range(60 if ck.thorough else 15):       # far more work than room
        scns.append(scenario(g.int(6, 12), g.int(1, 2), early=g.chance(0.5)))
    vs = spec(scns, "BlockingGen", hist="yes", simulate=2500 if ck.thorough else 150, extra=["-deadlock", "-depth", "300"])
    runs, seen = [], set()
    for v in vs:
        key = json.dumps(v)
        if key not in seen:
            seen.add(key)
            runs.append(dict(scns[v["scn"]], id=len(runs), steps=v["steps"], idle=g.pick([0, 0, 1, 5, 30])))
    # the known finding: a task that ends while it waits for room takes the room with it
    known = []
    one, both = {"kind": "one", "parts": [{"blk": True, "out": "ok"}]}, {"kind": "join", "parts": [{"blk": True, "out": "ok"}, {"blk": False, "out": "err"}]}
    acts = [("spawn", 1, 0), ("settle", 0, 0), ("spawn", 2, 0), ("settle", 0, 0), ("open", 2, 2), ("settle", 0, 0), ("open", 1, 1), ("settle", 0, 0), ("spawn", 3, 0), ("settle", 0, 0)]
    for w in (1, 2):
        known.append(len(runs))
        runs.append({"id": len(runs), "cap": 1, "workers": w, "kill": False, "forget": False, "early": False, "lossy": False, "tasks": [one, both, one],
                     "steps": [{"a": a, "i": i, "k": k} for a, i, k in acts]})
    got = replay_lines(ck, art.bins["v_blocking"], [r for r in runs if r["id"] not in known])
    got.update(replay_lines(ck, art.bins["v_blocking"], [r for r in runs if r["id"] in known], args=("known",)))
    recorded, whose = [], []
    for s in runs:
        o = got.get(s["id"], {"died": True})
        if o.get("died") or o.get("hang"):
            ck.violation("the program %s" % ("hangs" if o.get("hang") else "died: %s" % o.get("err")), {"case": s})
        else:
            recorded.append({k: s[k] for k in ("cap", "tasks", "kill", "forget", "early", "lossy")})
            recorded[-1]["trace"] = o["trace"]
            whose.append(s)
    accepted = set(v["scn"] for v in spec(recorded, "BlockingTrace", module="BlockingTrace", extra=["-deadlock"]))
    bad = [i for i in range(len(recorded)) if i not in accepted]
    if bad:
        sub = [recorded[i] for i in bad[:200]]
        far = {}
        for v in spec(sub, "BlockingTrace", module="BlockingTrace", verbose="yes", extra=["-deadlock"]):
            far[v["scn"]] = max(far.get(v["scn"], 0), v["at"])
        for n, i in enumerate(bad[:200]):
            tr = recorded[i]["trace"]
            at = far.get(n, 0)
            if whose[i]["id"] in known and tr[at]["e"] == "settle" and at == len(tr) - 1 and LOST in open(os.path.join(VERIF, "known_findings.txt")).read():
                ck.known_finding(LOST[len("known: property=C19 "):] + " a later closure never begins, though there is room") if not ck.known else None
                continue
            nice = lambda e: " ".join(str(x) for x in (e["e"], e["i"] or "", e["k"] or "", e["r"]) if x != "")
            ck.violation("%d tasks with room for %d: '%s' cannot happen after %s" % (len(recorded[i]["tasks"]), recorded[i]["cap"], nice(tr[at]), "; ".join(nice(e) for e in tr[max(0, at - 12):at])),
                         {"case": whose[i], "recorded": tr, "accepted_events": at})
    ck.traces += len(accepted)
    events = {}
    for r in recorded:
        for e in r["trace"]:
            events[e["e"]] = events.get(e["e"], 0) + 1
    ck.notes["events"] = events
    if recorded:
        ck.sample({"tasks": recorded[0]["tasks"], "room": recorded[0]["cap"], "recorded": [[e["e"], e["i"], e["k"], e["r"]] for e in recorded[0]["trace"]]})
    ck.log("%d of %d recorded runs are behaviours of the specification: %s" % (len(accepted), len(recorded), events))
    enough(ck, len(recorded), 500)
    return ck.finish(assumptions=["tokio_threadpool hands out its capacity as documented", "TLC evaluates the specification correctly"])


CHECKS = {"C19": c19, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C21": c21, "C22": c22}
