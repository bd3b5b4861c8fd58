#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Compiles the harnesses together with /repo's current source to LLVM IR, executes them symbolically
(engine/, deciding with Z3), replays every recorded path natively against the same source, and reports.
exit 0: held on everything explored; 1: VIOLATION; 3: no verdict."""
import os, sys, json, time, subprocess, shutil, hashlib, fcntl, re, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from plan import PLAN

V = build.VERIF
CACHE = build.CACHE
KNOWN = os.path.join(V, "known_findings.txt")
NCPU = 8


def die(msg):
    print("ERROR:", msg)
    sys.exit(3)


def known(prop):
    """finding: property=<id> harness=<h> values=<v v v> :: what fails  ->  {(h, values): what}"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) harness=(\S+) values=([\d ]*?) *:: (.*)", l)
            if m and m.group(1) == prop:
                out[(m.group(2), m.group(3))] = m.group(4).strip()
    return out


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def native_one(nat, props, harness, vals, timeout=30):
    e = dict(os.environ, SYMX_PROPS=props)
    try:
        p = subprocess.run([nat, "-v", harness] + vals, env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                           errors="replace", timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired as x:
        t = x.stdout or b""
        return "h", "0", "0", "no answer within %d s\n" % timeout + (t if isinstance(t, str) else t.decode(errors="replace"))
    m = re.search(r"^result (\S) code (\d+) hash (\S+)(.*)$", p.stdout, re.M)
    if not m:
        return "h", "0", "0", "process died with status %s\n%s" % (p.returncode, p.stdout[-2000:])
    return m.group(1), m.group(2), m.group(3), p.stdout


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rnd = random.Random(seed)
    plan = PLAN[prop]
    num = prop[1:].lstrip("0")
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        src, engine, ll, nat = build.build_all()
    except build.BuildError as e:
        die("build: %s" % e)
    tb = time.time() - t0
    out = os.path.join(CACHE, "run", "%s-%s" % (prop, tier))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    evid = os.path.join(V, "evidence", prop + ".json")
    if os.path.exists(evid):
        os.remove(evid)
    hs = [h for h in plan["harness"] if tier == "thorough" or h[1] == "q"]
    full = [h[0] for h in hs if h[1] == "e"]
    over = {h[2] for h in hs if len(h) > 2}          # a deeper harness replaces its quick version
    if tier == "thorough":
        hs = [h for h in hs if h[0] not in over]
    names = [h[0] for h in hs]
    budget = float(os.environ.get("SYMX_TIME", "0")) or (140 if tier == "quick" else 3600)
    natof = {h: nat for h in names}
    groups = [(ll, [h for h in names if h not in full])]
    if full:
        try:
            ll2, nat2 = build.build_full()
        except build.BuildError as e:
            die("build: %s" % e)
        groups.append((ll2, full))
        natof.update({h: nat2 for h in full})
    for l, g in groups:
        p = subprocess.run([engine, l, out, ",".join(g), "--jobs", str(NCPU), "--time", str(budget), "--total", "420" if tier == "quick" else "14400", "--props", num,
                            "--steps", "200000000" if tier == "quick" else "1000000000", "--maxrec", "400000" if tier == "quick" else "1000000"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            die("symbolic execution failed:\n" + p.stdout[-3000:])
    tot = dict(paths=0, assumed=0, steps=0, forks=0, checks=0, checks_sym=0, tables=0, queries=0, certified=0, solver_s=0.0, truncated=0)
    per, reach, fns, z3 = [], {}, set(), ""
    validated = mismatch = 0
    undecided = []
    viol = []
    samples = []
    kn = known(prop)
    jobs = []
    for h in names:
        d = json.load(open(os.path.join(out, h + ".json")))
        z3 = d["z3"]
        for k in tot:
            tot[k] += d.get(k, 0)
        for k, n in d["reach"].items():
            reach[k] = reach.get(k, 0) + n
        fns |= set(d["functions"])
        per.append({k: d.get(k, 0) for k in ("harness", "wall_s", "paths", "assumed", "steps", "forks", "checks", "checks_sym", "tables", "queries", "certified", "solver_s", "truncated")})
        per[-1]["reach"] = d["reach"]
        ok, bad = [], []
        for l in open(os.path.join(out, h + ".paths"), errors="replace"):
            (ok if l[0] == "o" else bad).append(l)
        # violations: smallest inputs first, a few of each kind
        by = {}
        for l in sorted(bad, key=lambda l: (len(l.split("\t")[3]), l)):
            c = l.rstrip("\n").split("\t")
            if c[0] == "e":
                undecided.append((h, c[3], c[4] if len(c) > 4 else ""))
            else:
                by.setdefault((c[0], c[1]), []).append(c)
        for key, cs in by.items():
            for c in cs[:12 if kn else 3]:
                viol.append((h, c))
        # native replay in chunks
        n = max(1, min(NCPU * 8, len(ok) // 100 + 1))
        for i in range(n):
            part = ok[i::n]
            if part:
                fn = os.path.join(out, "%s.%d.in" % (h, i))
                with open(fn, "w") as f:
                    f.writelines(part)
                jobs.append((h, fn, part))
        for l in rnd.sample(ok, min(2, len(ok))):
            samples.append((h, l.split("\t")[3].split()))

    def replay(job):
        h, fn, part = job
        try:
            p = subprocess.run([natof[h], h, fn], env=dict(os.environ, SYMX_PROPS=num), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               text=True, errors="replace", timeout=240 if tier == "quick" else 1800, preexec_fn=limits)
            lines = p.stdout.split("\n")
        except subprocess.TimeoutExpired:
            lines = []
        good, bad = 0, []
        for a, b in zip(part, lines + [""] * len(part)):
            a = a.split("\t")
            b = b.split("\t")
            if len(b) >= 3 and b[0] == "o" and b[2] == a[2]:
                good += 1
            else:
                bad.append((h, a, b))
        return good, bad

    from concurrent.futures import ThreadPoolExecutor
    broken = []
    with ThreadPoolExecutor(NCPU) as ex:
        for g, b in ex.map(replay, jobs):
            validated += g
            broken += b
    tn = time.time() - t0

    reported, findings, unconfirmed = [], [], []
    for h, c in viol:
        vals = c[3].split()
        what = kn.get((h, " ".join(vals)))
        k, code, _, text = native_one(natof[h], num, h, vals)
        if c[0] in "cph" and k in "cph":     # it fails natively too, be it at another assertion
            (findings if what else reported).append((h, c, k, text, what))
        else:
            unconfirmed.append((h, c, k, code))
    # a path the native run does not reproduce: either the model is wrong or the native run itself fails
    for h, a, b in broken[:5]:
        k, code, hh, text = native_one(natof[h], num, h, a[3].split())
        if k in "cph" and k != "o":
            reported.append((h, a, k, "native replay of a path that passes symbolically\n" + text, None))
        else:
            unconfirmed.append((h, a, k, code))
    for w in sorted({f[4] for f in findings}):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    descr = []
    for h, v in samples[:6]:
        descr.append({"harness": h, "values": " ".join(v), "native": native_one(natof[h], num, h, v)[3][:1500]})
    missing = sorted(r for r in plan.get("reach", []) if not reach.get(str(r)))
    repo_fns = sorted(f for f in fns if "scilla_parser" in f)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot["paths"] + tot["forks"]), "transitions": int(tot["steps"]),
            "traces_validated_against_impl": validated, "samples": descr or [{"none": "no completed path"}],
            "exhaustive": not (tot["truncated"] or undecided),
            "explanation": "states: completed symbolic paths plus branch points where the solver found both sides feasible; transitions: LLVM IR instructions executed symbolically; traces validated: paths whose model was run natively against the same source with the same observations",
            "paths": int(tot["paths"]), "paths_cut_by_assumptions": int(tot["assumed"]),
            "assertions_evaluated": int(tot["checks"]), "assertions_on_symbolic_values": int(tot["checks_sym"]),
            "value_tables": int(tot["tables"]), "z3_queries": int(tot["queries"]), "z3_table_certifications": int(tot["certified"]),
            "z3_seconds": round(tot["solver_s"], 2), "z3": z3, "paths_left_by_time_limit": int(tot["truncated"]),
            "paths_undecided": len(undecided), "undecided_reasons": sorted({u[2][:160] for u in undecided})[:10],
            "bounds": plan["bounds"], "outside": plan.get("outside", ""),
            "reach": reach, "harnesses": per,
            "functions_encoded": len(fns), "functions_of_the_crate": repo_fns[:400],
            "source_sha256": src, "build_s": round(tb, 1),
        },
        "assumptions": plan.get("assume", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(reported),
    }
    with open(evid, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d paths, %d instructions, %d assertions (%d symbolic), %d Z3 queries + %d certifications, %d native replays, build %.0fs, explore+replay %.0fs, total %.0fs"
          % (prop, tier, tot["paths"], tot["steps"], tot["checks"], tot["checks_sym"], tot["queries"], tot["certified"], validated, tb, tn - tb, time.time() - t0))
    if reported:
        seen = set()
        for h, c, k, text, _ in reported:
            key = (h, c[0], c[1])
            if key in seen or len(seen) >= 6:
                continue
            seen.add(key)
            rid = hashlib.sha256(("%s %s" % (h, c[3])).encode()).hexdigest()[:8]
            rp = os.path.join(V, "evidence", "replay-%s-%s.txt" % (prop, rid))
            with open(rp, "w") as f:
                f.write("property %s\nharness %s\nvalues %s\nrerun: SYMX_PROPS=%s %s -v %s %s\n\n%s\n" % (prop, h, c[3], num, natof[h], h, c[3], text))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("   harness %s, check %s: %s" % (h, c[1], " | ".join(text.strip().split("\n"))[:600]))
        sys.exit(1)
    if unconfirmed:
        for u in unconfirmed[:5]:
            print("NOT REPRODUCED NATIVELY:", u[0], u[1][:4], "native:", u[2], u[3])
        die("symbolic and native runs disagree")
    if missing:
        die("vacuous: never reached %s" % missing)
    if not tot["paths"] or len(undecided) * 20 > tot["paths"]:
        die("undecided: %s" % sorted({u[2][:200] for u in undecided})[:5])
    sys.exit(0)


main()
