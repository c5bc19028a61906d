#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo's current tree.

Exit 0: the solver found the property's assertions to hold on every path within
the bounds.  Exit 1 and a VIOLATION line: a counterexample that was reproduced
by the real program.  Anything else: the check could not decide.
"""
from concurrent.futures import ThreadPoolExecutor
import json, os, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/lib")
import build as B
import spec as S


def known():
    out = []
    p = VERIF + "/known_findings.json"
    if os.path.exists(p):
        out = json.load(open(p))
    return [k for k in out if k.get("status") == "open"]


def params_of(e, tier):
    p = dict(e.get("params", {}))
    if tier == "thorough":
        p.update(e.get("tparams", {}))
    return p


def run_entry(mods, symx, e, tier, res):
    prop, name = e["prop"], e["entry"]
    out = f"{B.BUILD}/out/{name}.json"
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.unlink(out)
    tl = e.get("time", 200) if tier == "quick" else e.get("ttime", 2400)
    cmd = [symx, "--entry", name, "--out", out, "--jobs", str(e.get("jobs", 2)), "--time", str(tl), "--viol", "12",
           "--samples", str(e.get("samples", 3 if tier == "quick" else 24)), "--steps", str(e.get("steps", 400_000_000))]
    for m in mods:
        cmd += ["--ll", m]
    for k, v in params_of(e, tier).items():
        cmd += ["--param", f"{k}={v}"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tl + 120)
    try:
        rep = json.load(open(out))
    except Exception:
        rep = {"errors": ["no report: exit %d: %s" % (r.returncode, r.stdout.decode(errors="replace")[-1500:])],
               "violations": [], "covers": {}, "functions": [], "samples": []}
    res[name] = rep


def input_file(path, e, tier, inputs):
    with open(path, "w") as f:
        for k, v in params_of(e, tier).items():
            f.write(f"param {k}\t0\t{int(v).to_bytes(8, 'little').hex()}\n")
        occ = {}
        for n, h in inputs:
            if n == "=marks":
                continue
            o = occ.get(n, 0)
            occ[n] = o + 1
            f.write(f"{n}\t{o}\t{h}\n")


def replay(binary, e, path):
    scr = f"{B.BUILD}/scratch.{os.getpid()}.{threading.get_ident()}"
    os.makedirs(scr, exist_ok=True)
    try:
        r = subprocess.run([binary, e["entry"], path, scr] + ["x"] * 40, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=120)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "the replay did not finish in 120 s"
    finally:
        shutil.rmtree(scr, ignore_errors=True)


def shifted(inputs):
    """The same counterexample with its failing call moved to one nearby: caches and
    page layout depend on the real hash, so the real program may make a few calls
    more or less of one kind before the one that matters."""
    at = [i for i, (n, h) in enumerate(inputs) if n.startswith(("fault ", "crash ")) and h == "01"]
    for i in at[-1:]:
        name = inputs[i][0]
        rest = inputs[:i] + inputs[i + 1:]
        for d in (1, -1, 2, -2, 3, -3, 4, -4):
            occ = sum(1 for n, _ in inputs[:i] if n == name) + d
            if occ < 0:
                continue
            v = [(n, h) for n, h in rest if n != name] + [(name, "00")] * occ + [(name, "01")]
            yield v


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    p = S.PROPS[prop]
    entries = [dict(e, prop=prop) for e in p["entries"] if tier == "thorough" or not e.get("thorough_only")]
    try:
        mods, symx, binary, bt = B.build()
    except B.BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2
    print(f"built from /repo in {bt:.1f} s")
    res = {}
    # entries run side by side as long as they fit the 8 cores
    lock = threading.Condition()
    free = [8]

    def worker(e):
        j = min(8, e.get("jobs", 2))
        with lock:
            while free[0] < j:
                lock.wait()
            free[0] -= j
        try:
            run_entry(mods, symx, e, tier, res)
        except Exception as x:
            res[e["entry"]] = {"errors": [repr(x)], "violations": [], "covers": {}, "functions": [], "samples": []}
        finally:
            with lock:
                free[0] += j
                lock.notify_all()
    only = os.environ.get("ENTRY")
    if only:
        entries = [e for e in entries if e["entry"] == only]
    ts = [threading.Thread(target=worker, args=(e,)) for e in entries]
    for t in ts:
        t.start()
    for t in ts:
        t.join()

    os.makedirs(f"{B.BUILD}/replay", exist_ok=True)
    bad, viol, findings = [], [], []
    validated, samples, agree = 0, [], {True: 0, False: 0}
    kn = [k for k in known() if k["property"] == prop]
    # replay all counterexamples and the sampled passing paths in the real program
    work = []
    for e in entries:
        r = res[e["entry"]]
        for i, v in enumerate(r["violations"]):
            work.append((e, f"{B.BUILD}/replay/{prop}-{e['entry']}-{i}.txt", v["inputs"], False))
        for i, s in enumerate(r.get("samples", [])):
            work.append((e, f"{B.BUILD}/replay/{prop}-{e['entry']}-pass{i}.txt", s, True))

    def rep(w):
        e, path, inputs, passing = w
        input_file(path, e, tier, inputs)
        code, out = replay(binary, e, path)
        if passing and code not in (0, 3):
            code, out = replay(binary, e, path)
        if not passing and code == 0:
            same = binary.replace("/native/", "/native_same/")
            code, out = replay(same, e, path)
            for v in [] if code else shifted([tuple(x) for x in inputs]):
                input_file(path, e, tier, v)
                for b in (binary, same):
                    if not code:
                        code, out = replay(b, e, path)
                if code:
                    break
            if not code:
                input_file(path, e, tier, inputs)
        return path, (code, out)
    with ThreadPoolExecutor(8) as ex:
        done = dict(ex.map(rep, work))
    for e in entries:
        r = res[e["entry"]]
        for x in r.get("errors", [])[:5]:
            bad.append(f"{e['entry']}: {x}")
        for i, v in enumerate(r["violations"]):
            k = [k for k in kn if k["entry"] == e["entry"] and k["message"] in v["msg"]]
            path = f"{B.BUILD}/replay/{prop}-{e['entry']}-{i}.txt"
            code, out = done[path]
            with open(path + ".log", "w") as f:
                f.write(f"{v['kind']}: {v['msg']}\n{v.get('trace','')}\nreplay exit {code}\n{out}\n")
            if code == 1 or code == 124 or (code not in (0, 1, 2, 3) and e.get("crash_ok", True)):
                validated += 1
                if k:
                    findings.append(f"KNOWN-FINDING: property={prop} {k[0]['what']}")
                else:
                    viol.append((path, v["msg"], out.strip().splitlines()[-1:] or [""]))
            else:
                bad.append(f"{e['entry']}: counterexample not reproduced (replay exit {code}): {v['kind']} {v['msg']}; {path}")
        if not r["violations"]:
            for c in e.get("covers", []):
                if c not in r.get("covers", {}):
                    bad.append(f"{e['entry']}: vacuous: never reached \"{c}\"")
        for i, s in enumerate(r.get("samples", [])):
            path = f"{B.BUILD}/replay/{prop}-{e['entry']}-pass{i}.txt"
            code, out = done[path]
            # does the real program take the way that the engine predicts for this path?
            marks = next((bytes.fromhex(h).decode() for n, h in s if n == "=marks"), None)
            if code == 0 and marks is not None:
                real = "\n".join(l[6:] for l in out.splitlines() if l.startswith("mark: "))
                agree[real == marks] += 1
                if real != marks:
                    print(f"  note: {e['entry']}: the engine passes {marks!r}, the real program {real!r}: {path}")
            if code == 0:
                validated += 1
                if marks is None or real == marks:
                    os.unlink(path)
                if len(samples) < 8:
                    samples.append({"entry": e["entry"], "inputs": [[n, h[:64]] for n, h in s if n != "=marks"][:12]})
            elif code in (2, 124):
                bad.append(f"{e['entry']}: the replay does not finish: {path}: {out[-200:]}")
            elif code == 3:
                bad.append(f"{e['entry']}: a path of the engine does not satisfy its assumptions natively: {path}")
            else:
                viol.append((path, "the program fails the check on a path the engine's model passes", out.strip().splitlines()[-1:] or [""]))
    if not samples:
        for e in entries:
            for s in res[e["entry"]].get("samples", [])[:1]:
                samples.append({"entry": e["entry"], "inputs": [[n, h[:64]] for n, h in s if n != "=marks"][:12]})
    tot = lambda k: sum(int(res[e["entry"]].get(k, 0) or 0) for e in entries)
    fns = sorted({f for e in entries for f in res[e["entry"]].get("functions", [])})
    own = [f for f in fns if "snapcd" in f or "hsym" in f]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("forks") + tot("merges"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": validated,
            "traces_of_the_predicted_course": agree[True], "traces_of_another_course": agree[False],
            "samples": samples or [{"note": "no input: one concrete path"}],
            "paths": tot("paths"), "infeasible_branches": tot("infeasible"), "merged_branches": tot("merges"),
            "assertions_decided": tot("asserts"),
            "solver_queries": tot("queries"), "solver_unsat": tot("unsat"), "solver_sat": tot("sat"),
            "solver_unknown": tot("unknown"),
            "solver_s": round(sum(float(res[e["entry"]].get("solver_s", 0) or 0) for e in entries), 3),
            "functions_encoded": len(fns),
            "functions_of_the_program": own[:400],
            "harnesses": [{"entry": e["entry"], "bounds": e.get("bounds", ""), "params": params_of(e, tier),
                           "paths": res[e["entry"]].get("paths"), "covers": res[e["entry"]].get("covers"),
                           "queries": res[e["entry"]].get("queries"), "solver_s": res[e["entry"]].get("solver_s"),
                           "wall_s": res[e["entry"]].get("wall_s")} for e in entries],
            "known_findings_seen": len(set(findings)),
        },
        "assumptions": S.ASSUMPTIONS + p.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for e in entries:
        r = res[e["entry"]]
        print(f"  {e['entry']}: {r.get('paths')} paths, {r.get('merges')} merges, {r.get('asserts')} assertions, "
              f"{r.get('queries')} queries, {float(r.get('solver_s') or 0):.1f} s solver, {float(r.get('wall_s') or 0):.1f} s, "
              f"{len(r['violations'])} counterexamples")
    for f in sorted(set(findings)):
        print(f)
    for x in bad[:20]:
        print("UNDECIDED " + x)
    for path, msg, last in viol[:8]:
        print(f"  {msg}\n    replay: {last[0][:300]}")
        print(f"VIOLATION property={prop} replay={path}")
    if not only:
        print(f"{prop} {tier}: {len(viol)} violations, {validated} traces replayed by the real program, {time.time()-t0:.1f} s")
    if viol:
        return 1
    return 2 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
