#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = "TLA+ specification checked with TLC; its results replayed against the compiled code"
TRUST = ("Trusts TLC, rustc, and that the generated inputs sample the space well; bounds and counts are in the evidence file.")
DISPATCH = ("The invariants hold for every explored behaviour of Dispatch.tla (all scheduling choices the specification leaves open, for each "
            "generated router and request); the real derive and runtime give the specified value, error and sequence of user-code calls for each. ")
CHECKS = {
    "C01": (REPLAY, DISPATCH), "C03": (REPLAY, DISPATCH), "C04": (REPLAY, DISPATCH), "C05": (REPLAY, DISPATCH), "C06": (REPLAY, DISPATCH),
    "C07": (REPLAY, DISPATCH), "C08": (REPLAY, DISPATCH), "C09": (REPLAY, DISPATCH), "C10": (REPLAY, DISPATCH), "C20": (REPLAY, DISPATCH),
    "C02": ("TLA+ specification of route overlap checked exhaustively with TLC; its verdicts compared with the derive's",
            "The overlap test is checked against 'some path matches both' for all pairs of small patterns; the real derive gives the specified "
            "verdict for all ordered pairs of small patterns and for random tables in several orders. "),
    "C13": ("TLA+ specification of the declaration rules evaluated by TLC; verdicts and runs compared with the derive's, the compiler's and the code's",
            "Derive.tla decides generated well-formed and mutated declarations; the real derive accepts exactly the same ones, the accepted ones "
            "compile in a crate that depends only on hyperdrive and then behave as Dispatch.tla says. "),
    "C11": ("TLA+ specification of body delivery (chunks, delays, errors, wake-ups) checked with TLC; every explored delivery replayed poll by poll",
            "Safety and liveness of Body.tla are checked over all deliveries of small documents and random ones of longer documents; each is "
            "replayed into the real decoders with the same polls and wake-ups. "),
    "C14": (REPLAY, "Errors.tla is explored exhaustively: every status 100..599, nested causes, method lists and sequences of observations; every "
            "explored behaviour is replayed on the real error type. "),
}
SERVE = ("TLA+ specification of requests on stacks of services checked with TLC; every explored schedule replayed step by step against the code", 
         "Service.tla (calls, polls, delays, wake-ups, drops, panics of any number of requests on adapters, user services and panic-catching layers) is checked for "
         "safety and liveness over all schedules of small scenarios and random ones of larger scenarios; each is replayed, single-threaded poll by poll "
         "and on a thread pool, with the same calls of user code and answers. ")
for _p in ("C15", "C16", "C17", "C18", "C21"):
    CHECKS[_p] = SERVE
CHECKS["C22"] = (
    "TLA+ specification of a server's connections checked with TLC; every explored schedule replayed over real TCP connections to a real server",
    "Server.tla (connections, pipelined, partial and abandoned requests, delays, errors and panics of user code) is checked for safety and liveness over all "
    "schedules of small scenarios and random ones of larger scenarios; each is replayed step by step over loopback connections to hyper's server running the "
    "service, and in free order on parallel connections, with the same calls of user code, answers and connection ends. ")
CHECKS["C19"] = (
    "TLA+ specification of blocking work on a thread pool checked with TLC; recorded runs of the real pool validated as behaviours of the specification",
    "Blocking.tla (creation, polls, wake-ups, drops and panics of blocking tasks on a pool with limited room) is checked for safety and liveness; "
    "schedules generated by TLC from it are run on a real thread pool, and each recorded run must be one of its behaviours. ")
CHECKS["C12"] = (
    REPLAY, "Context.tla decides generated programs (context types with parts and parameters, routers asking for parts, nested routers) and is checked over "
    "every interleaving of several requests; the compiler accepts the same programs, and the accepted ones, driven turn by turn along schedules of the "
    "specification, show each guard and body the specified part of the request's own context. ")
EXTRA = os.path.join(VERIF, "tools", "manifest_extra.json")


def main():
    if os.path.exists(EXTRA):
        for k, v in json.load(open(EXTRA)).items():
            CHECKS[k] = tuple(v)
    props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl")) if l.strip()]
    m = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [
            {"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p, "technique": CHECKS[p][0],
             "level": "model_checking", "level_note": CHECKS[p][1] + TRUST}
            for p in props if p in CHECKS],
        "not_applicable": [{"property": p, "reason": "its check is not built yet"} for p in props if p not in CHECKS],
        "notes": "No hooks: everything is observed through the public interface. ./check PROPERTY [quick|thorough]; VERIF_SEED selects the random inputs.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
