#!/usr/bin/env python3
"""One check: decides one property on /repo's current tree.

usage: check.py <property> [--tier quick|thorough]

The contracts of the functions the property depends on are discharged by Verus on the text extracted from
/repo; at the same time the executable form of the same contracts is run on the real code, looking for an
input on which it fails (and standing in, bounded, for what is not proved).

exit 1, VIOLATION ... replay=<f>                          an input on which the real code breaks the property
exit 1, VIOLATION ... replay=<f> no-failing-input-found   an obligation that held is refuted; no input found
exit 0                                                    neither; the evidence says what was proved and what was
                                                          only bounded
"""
import json, os, sys, threading, time, traceback
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import common as C
import contracts as K
import props

class Proofs:
    """The verification runs behind one property."""
    def __init__(self, prop, extractor=None):
        self.prop, self.units, self.error, self.extra = prop, [], None, []

    def go(self):
        try:
            names = list(dict.fromkeys(n for n, _ in props.PROPS[self.prop]["units"] + props.PROPS[self.prop].get("deps", [])))
            if not names:
                return
            x = K.build_extractor()
            K.expand()
            d = os.path.join(C.CACHE, "run", self.prop)
            os.makedirs(d, exist_ok=True)
            ts = []
            for n in names:
                u = K.Unit(n, x, d)
                u.vac = None
                self.units.append(u)
                def work(u=u):
                    try:
                        if u.extract():
                            def vac():
                                try: u.vac = u.vacuity()
                                except Exception: u.vac = None
                            t = threading.Thread(target=vac)
                            t.start()
                            u.verify()
                            t.join()
                    except Exception:
                        u.undecided.append("internal: " + traceback.format_exc()[-600:])
                t = threading.Thread(target=work)
                t.start()
                ts.append(t)
            for t in ts: t.join()
        except C.NoAnswer as e:
            self.error = str(e)
        except Exception:
            self.error = traceback.format_exc()[-800:]

    def functions(self):
        """(unit, extracted function) pairs this property rests on."""
        return [(u, f) for u in self.units for f in u.own() if f["kind"] in ("fn", "const") and self.mine(u, f["id"])]

    def mine(self, u, who):
        return any(n == u.name and pred(who) for n, pred in props.PROPS[self.prop]["units"])

    def failures(self):
        return [(u, f) for u in self.units for f in u.failed if self.mine(u, f["function"])]

    def callee(self, u, who):
        """Functions of other properties that the functions of this one rely on."""
        return any(n == u.name and pred(who) for n, pred in props.PROPS[self.prop].get("deps", []))

    def undecided(self):
        return ([self.error] if self.error else []) + [f"{u.name}: {x}" for u in self.units for x in u.undecided
                 if self.mine(u, x.split(": ")[0]) or self.callee(u, x.split(": ")[0]) or not (" :: " in x.split(": ")[0] or x.startswith("lemma "))] + \
               [f"{u.name}: {f['function']}, which this property relies on, does not meet its contract: {f['obligation']}"
                for u in self.units for f in u.failed if self.callee(u, f["function"])]

def write_replay(prop, body):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}.txt")
    with open(path, "w") as f:
        f.write(body)
    return path

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    P = props.PROPS[prop]
    pr = Proofs(prop)
    tp = threading.Thread(target=pr.go)
    tp.start()
    nat = C.Native(prop, seed, P.get("seconds", 5.0) if tier == "quick" else 240.0)
    nat.go()
    tp.join()

    undecided = pr.undecided()
    refuted, doubtful = [], []
    for u, f in pr.failures():
        why = "; ".join(x for x in u.undecided) or u.structure_differs(f["function"])
        (doubtful if why else refuted).append((u, f, why))
    searches = [nat]
    if not nat.failure and (refuted or doubtful or undecided):
        # the proof does not go through: look harder for an input
        searches += C.search_more(prop, seed + 1, float(os.environ.get("VERIF_SEARCH_SECONDS") or (60.0 if tier == "quick" else 600.0)))
    failing = next((n for n in searches if n.failure), None)

    lines, code = [], 0
    for u, f, _ in refuted:
        lines.append(f"obligation refuted: {f['function']} ({u.name}): {f['obligation']}\n{f['text']}")
    if failing:
        f = failing.failure
        w = ",".join(str(x) for x in f["words"])
        body = "\n".join([f"property {prop}: {f['what']}", f"harness {f['harness']}",
            f"replay: cd {VERIF}/{C.harness(prop)} && cargo run --release --offline -- replay {f['harness']} {w}"] + f.get("history", []) + [""] + lines) + "\n"
        path, suffix, code = write_replay(prop, body), "", 1
    elif refuted:
        body = f"property {prop}: {len(refuted)} obligation(s) that hold on the original tree are refuted\n" + \
               "\n".join(lines) + "\nverifier: " + refuted[0][0].cmd + "\n"
        path, suffix, code = write_replay(prop, body), " no-failing-input-found", 1

    evidence(prop, tier, seed, t0, P, pr, searches, refuted, doubtful, undecided, code)
    for n in searches:
        if n.error: print("note:", n.error[:1500])
    for x in undecided[:6]: print("not decided by proof, bounded only:", x[:300])
    for u, f, why in doubtful: print(f"proof of {f['function']} no longer fits ({why}): bounded only")
    if code == 0 and not pr.functions() and all(n.error for n in searches):
        # nothing of the property could be looked at
        print(f"NO-ANSWER property={prop}")
        code = 2
    if code == 0 and nat.error and (undecided or doubtful or P["bounded"]):
        print(f"NO-ANSWER property={prop}: neither proof nor bounded check ran")
        code = 2
    if code == 1:
        print(body[:3000])
        print(f"VIOLATION property={prop} replay={path}{suffix}")
    print(f"{prop}: exit {code} after {time.time()-t0:.1f} s")
    sys.exit(code)

def evidence(prop, tier, seed, t0, P, pr, searches, refuted, doubtful, undecided, code):
    fns = pr.functions()
    bad = {f["function"] for _, f, _ in refuted + doubtful}
    units = {u.name: u for u in pr.units}
    obligations = sum(u.verified + len({f["function"] for f in u.failed}) for u in pr.units)
    proved = bool(fns) and not undecided and not doubtful and not P["bounded_only"]
    trusted = sorted({t for u in pr.units if hasattr(u, "text") for t in u.trusted()})
    norms = sorted({n for _, f in fns for n in f["normalisations"]})
    cases = sum(n.result.get("cases", 0) for n in searches)
    distinct = max([n.result.get("distinct", 0) for n in searches] or [0])
    level = P["level"] if proved or P["level"] != "proof" else "exploration"
    cov = {
        "obligations": obligations, "discharged": sum(u.verified for u in pr.units),
        "checker_cmd": "; ".join(u.cmd for u in pr.units if hasattr(u, "cmd")) or "none",
        "trusted_base": ["Verus and Z3", "verif-extract (syn) and rustc -Zunpretty=expanded"] + trusted,
        "functions_under_contract": [f["id"] for _, f in fns],
        "functions_not_discharged": sorted(bad),
        "not_decided_by_proof": undecided,
        "extraction_rewrites": norms,
        "back_end": "Verus (Z3)", "solver_ms": round(sum(u.smt_ms for u in pr.units), 1),
        "verifier_wall_s": {u.name: round(u.wall, 2) for u in pr.units},
        "vacuity": {u.name: u.vac for u in pr.units},
        "bounded": P["bounded"],
        "evaluations": cases, "distinct_nontrivial": distinct,
        "rule": "cases of the executable contracts run on the compiled crates (boundary and random words, enumerated choices); "
                "a case is non-trivial when it evaluates at least one contract clause, and distinct by its sequence of choices and words",
        "samples": (searches[0].result.get("samples") or [])[:5],
    }
    d = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
         "assumptions": P["assumptions"] + trusted, "wall_s": round(time.time() - t0, 2), "violations": 1 if code == 1 else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(d, f, indent=1)

main()
