"""Conformance of generated routers with spec/Derive.tla and spec/Dispatch.tla."""
import json
import os
import subprocess

from common import *
from decls import *


def number(decls):
    for i, d in enumerate(decls):
        d["id"] = i
    return decls


def spec_verdicts(ck, decls, chunk=400, timeout=600):
    """What the specification says of each declaration: {id: (accept?, why)}."""
    out = {}
    path = ck.path("decls.ndjson")
    write_lines(path, [{k: d[k] for k in ("id", "kind", "attrs", "variants")} for d in decls])
    for v in ck.tlc_ok("Derive", envv={"VERIF_DECLS": path}, timeout=timeout):
        out[v["case"]] = (v["verdict"] == "accept", v["why"])
    if len(out) != len(decls):
        raise ToolError("the specification gave %d verdicts for %d declarations" % (len(out), len(decls)))
    return out


def distribute(gs, n):
    """Spreads groups of declarations over at most n lists of about equal size."""
    shards = [[] for _ in range(n)]
    size = [0] * n
    for g in sorted(gs, key=lambda g: -sum(len(d["variants"]) for d in g)):
        i = size.index(min(size))
        shards[i] += g
        size[i] += sum(2 + len(d["variants"]) for d in g)
    return [s for s in shards if s]


def refused_by_derive(msgs):
    """Messages of derives that refused their input."""
    return [m for m in msgs if "proc-macro derive" in m["message"] or "proc-macro derive" in (m.get("rendered") or "")]


def help_of(m):
    return "; ".join(c["message"] for c in m.get("children", []))[:300]


def derive_verdicts(ck, art, decls, derive="FromRequest", name="verdict", shards=CORES):
    """What the real derive says: {name: None if accepted, else the message}."""
    by = {d["name"]: d for d in decls}
    parts = [decls[i::shards] for i in range(shards)]
    jobs, srcs = [], []
    for i, part in enumerate([p for p in parts if p]):
        lines = ["#![allow(warnings)]", "use vrt::*;"] + guard_aliases(part)
        where = {}
        for d in part:
            where[len(lines) + 1] = d["name"]
            lines += emit_decl(d, by, derive)
        lines.append("fn main() {}")
        src = ck.path("%s_%d.rs" % (name, i))
        with open(src, "w") as f:
            f.write("\n".join(lines) + "\n")
        srcs.append((src, where, part, len(lines)))
        jobs.append(rustc_cmd(art, src, ck.path("%s_%d.out" % (name, i)), extra=["-Zno-analysis"]))
    out = {}
    for (src, where, part, n), (rc, msgs) in zip(srcs, rustc_many(jobs, {"RUSTC_BOOTSTRAP": "1"})):
        starts = sorted(where)
        verdict = {d["name"]: None for d in part}
        other = []
        for m in msgs:
            if m.get("code"):
                continue          # names that the file does not define
            ln = top_line(m, src)
            if ln is None:
                if not m["message"].startswith(("aborting due to", "could not compile")):
                    other.append(m)
                continue
            s = [x for x in starts if x <= ln]
            if not s:
                other.append(m)
                continue
            verdict[where[s[-1]]] = "%s: %s" % (m["message"], help_of(m))
        if other:
            raise ToolError("unexpected compiler message: %s" % (other[0].get("rendered") or other[0]["message"]))
        if rc != 0 and not msgs:
            raise ToolError("rustc failed without a usable message on %s" % src)
        out.update(verdict)
    return out


def drop(decls, bad):
    """Removes declarations and those that need them."""
    bad = set(bad)
    by = {d["name"]: d for d in decls}
    return [d for d in decls if not (closure([d["name"]], by) & bad)]


class Fleet:
    """Routers compiled into programs that replay cases."""

    def __init__(self):
        self.decls = []
        self.by = {}
        self.shards = []      # (binary, set of router names)
        self.refused = {}     # name -> message of the derive
        self.broken = {}      # name -> compiler errors of accepted declarations


def build_fleet(ck, art, decls, name="shard", shards=CORES, rounds=4):
    fl = Fleet()
    todo = decls
    verdict = derive_verdicts(ck, art, todo)
    fl.refused = {n: m for n, m in verdict.items() if m}
    todo = drop(todo, fl.refused)
    for rnd in range(rounds):
        by = {d["name"]: d for d in todo}
        parts = distribute(groups(todo), shards)
        jobs, info = [], []
        for i, part in enumerate(parts):
            text, where = emit_shard(part, by)
            src = ck.path("%s_%d_%d.rs" % (name, rnd, i))
            out = ck.path("%s_%d_%d.bin" % (name, rnd, i))
            with open(src, "w") as f:
                f.write(text)
            jobs.append(rustc_cmd(art, src, out))
            info.append((src, out, where, {d["name"] for d in part}))
        results = rustc_many(jobs)
        bad = {}
        fl.shards = []
        for (src, out, where, names), (rc, msgs) in zip(info, results):
            if rc == 0:
                fl.shards.append((out, names))
                continue
            found = 0
            for m in msgs:
                ln = top_line(m, src)
                if ln is None:
                    continue
                for n, rg in where.items():
                    if n == "reg":
                        if ln in rg:
                            bad.setdefault(rg[ln], []).append(m)
                            found += 1
                    elif rg[0] <= ln <= rg[1]:
                        bad.setdefault(n, []).append(m)
                        found += 1
            if not found:
                text = "\n".join((m.get("rendered") or m["message"]) for m in msgs)[:3000]
                raise ToolError("cannot attribute compiler errors in %s:\n%s" % (src, text))
        if not bad:
            break
        for n, ms in bad.items():
            fl.broken[n] = "\n".join((m.get("rendered") or m["message"]) for m in ms)[:2000]
        todo = drop(todo, bad)
    else:
        raise ToolError("declarations keep failing to compile")
    fl.decls = todo
    fl.by = {d["name"]: d for d in todo}
    ck.log("%d routers compiled into %d programs (%d refused by the derive, %d do not compile)"
           % (len(todo), len(fl.shards), len(fl.refused), len(fl.broken)))
    if os.environ.get("VERIF_DEBUG"):
        for n, m in list(fl.refused.items()) + list(fl.broken.items()):
            by = {d["name"]: d for d in decls}
            print("\n".join(emit_decl(by[n], by)), "\n", m[:1500])
    ck.notes.setdefault("routers", []).append(
        {"compiled": len(todo), "refused": len(fl.refused), "not_compiling": len(fl.broken)})
    if len(todo) * 2 < len(decls):
        raise ToolError("most routers do not compile: %s"
                        % json.dumps(dict(list(fl.refused.items())[:3] + list(fl.broken.items())[:3]))[:3000])
    return fl


def spec_results(ck, fl, cases, batch=4000, timeout=900, cfg=None):
    """What the specification says of each case: {id: {"res", "log"}}."""
    keep = ("id", "name", "kind", "attrs", "variants", "subst")
    out = {}
    for a in range(0, len(cases), batch):
        part = cases[a:a + batch]
        used = closure({c["router"] for c in part}, fl.by)
        path = ck.path("dispatch_%d.json" % a)
        write_json(path, {"decls": [{k: d[k] for k in keep} for d in fl.decls if d["name"] in used],
                          "cases": [{k: c[k] for k in ("id", "router", "method", "target", "tok", "guards", "body")} for c in part]})
        for v in ck.tlc_ok("Dispatch", cfg=cfg, envv={"VERIF_INPUT": path}, timeout=timeout):
            out[v["case"]] = v
    if len(out) != len(cases):
        raise ToolError("the specification gave %d results for %d cases" % (len(out), len(cases)))
    return out


def replay(ck, fl, cases, modes, timeout=600):
    """Runs the cases; returns [(case id, mode, res, log)] (res None: hang)."""
    from concurrent.futures import ThreadPoolExecutor
    home = {n: i for i, (_, ns) in enumerate(fl.shards) for n in ns}
    parts = [[] for _ in fl.shards]
    for c in cases:
        parts[home[c["router"]]].append(c)

    def one(i):
        got = []
        todo = parts[i]
        while todo:
            path = ck.path("cases_%d.ndjson" % i)
            write_lines(path, [{"case": c, "modes": modes(c)} for c in todo])
            try:
                p = subprocess.run([fl.shards[i][0], path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError("replay ran out of time")
            last = None
            for line in p.stdout.decode("utf-8", "replace").splitlines():
                try:
                    v = json.loads(line)
                except ValueError:
                    raise ToolError("unreadable line from the harness: %r" % line)
                last = v
                if v.get("hang"):
                    got.append((v["case"], "?", None, ["no answer within 30 s"]))
                else:
                    got.append((v["case"], v["mode"], dict(v["res"], kept=v["kept"]), v["log"]))
            if p.returncode == 0:
                break
            ids = [c["id"] for c in todo]
            if last and last.get("hang"):
                at = ids.index(last["case"])
            else:     # the process died: on the case after the last complete one
                done = {}
                for cid, _, _, _ in got:
                    done[cid] = done.get(cid, 0) + 1
                at = next((k for k, c in enumerate(todo) if done.get(c["id"], 0) < len(modes(c))), None)
                if at is None:
                    raise ToolError("harness failed: " + p.stderr.decode("utf-8", "replace")[-2000:])
                got.append((ids[at], "?", None, ["the process died: rc %d %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-500:])]))
            todo = todo[at + 1:]
        return got

    with ThreadPoolExecutor(CORES) as ex:
        return [x for r in ex.map(one, range(len(parts))) for x in r]


def differs(want, res, log, mode):
    """How an observation differs from the specification; None if it does not."""
    if res is None:
        return "; ".join(log)
    w = want["res"]
    if res["k"] != w["k"]:
        return "result %s, specified %s" % (res, w)
    if w["k"] == "ok" and res["v"] != w["v"]:
        return "value %s, specified %s" % (res["v"], w["v"])
    if w["k"] == "lib":
        if res["status"] != w["status"]:
            return "status %s, specified %s" % (res["status"], w["status"])
        if sorted(res["allow"]) != sorted(w["allow"]):
            return "allowed methods %s, specified %s" % (res["allow"], w["allow"])
    if w["k"] != "ok" and w["src"] not in ("", "*") and res["src"] not in ("*", w["src"]):
        # errors of decoding are compared by kind, not by text
        return "cause %s, specified %s" % (res["src"], w["src"])
    if log != want["log"]:
        return "calls %s, specified %s" % (log, want["log"])
    return None


def source_of(fl, name):
    return "\n".join("\n".join(emit_decl(fl.by[n], fl.by)) for n in sorted(closure([name], fl.by)))


def compare(ck, fl, cases, want, got, min_runs=1):
    """Records a violation for every observation the specification does not allow."""
    by = {c["id"]: c for c in cases}
    n = 0
    kinds = {}
    for cid, mode, res, log in got:
        c = by[cid]
        if res is not None and res["k"] == "no such request":
            continue
        n += 1
        w = want[cid]
        k = w["res"]["k"]
        if k == "lib":
            k += str(w["res"]["status"]) if w["res"]["status"] in (400, 404, 405, 422) else " other"
        kinds[k] = kinds.get(k, 0) + 1
        diff = differs(w, res, log, mode)
        if not diff and ck.prop == "C09" and res["kept"] and w["body"] == "gone":
            diff = "the body is still kept after the request was decided"
        if diff:
            ck.violation("%s %s on router %s (%s): %s" % (c["method"], c["target"], c["router"], mode, diff),
                         {"case": c, "mode": mode, "router": source_of(fl, c["router"]), "specified": w,
                          "observed": {"res": res, "log": log}})
        elif n % 97 == 1:
            ck.sample({"request": c["method"] + " " + c["target"], "router": source_of(fl, c["router"])[:600],
                       "mode": mode, "result": res, "calls": log})
    ck.traces += n
    ck.notes["results"] = {k: ck.notes.get("results", {}).get(k, 0) + v for k, v in kinds.items()}
    ck.log("%d runs compared with the specification: %s" % (n, kinds))
    if n < min_runs:
        raise ToolError("nothing was compared")
    return n


def judge_derives(ck, decls, verdicts, real):
    """Compares accept/refuse; returns the names on which they agree to accept."""
    ok = []
    by = {d["name"]: d for d in decls}
    for d in decls:
        want, why = verdicts[d["id"]]
        msg = real[d["name"]]
        if want and msg:
            ck.violation("well-formed declaration refused: %s" % msg, {"declaration": "\n".join(emit_decl(d, by)), "message": msg})
        elif not want and not msg:
            ck.violation("declaration accepted although: %s" % why, {"declaration": "\n".join(emit_decl(d, by)), "why": why})
        elif want:
            ok.append(d["name"])
    ck.traces += len(decls)
    return ok
