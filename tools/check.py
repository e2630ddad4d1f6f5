#!/usr/bin/env python3
"""Decides one property by seeded simulation: check.py PROP [quick|thorough] | check.py replay FILE

Everything is rebuilt from /repo's working tree under /verif/.build. Exit 0: held on everything
explored. Exit 1 with a VIOLATION line: broken. Anything else: the check itself could not run.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import gen  # noqa: E402
from props import INFO  # noqa: E402

NCRATES = 8
WORKERS = 8
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2026-02-27", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           RUST_BACKTRACE="0", CARGO_INCREMENTAL="0")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


def giant_feature(dseed):
    return ', features = ["giant"]' if gen.extreme(dseed) else ""


class Broken(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def known_findings(prop):
    out = []
    with open(f"{VERIF}/KNOWN_FINDINGS.txt") as f:
        for l in f:
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def cargo(args, cwd, timeout=780):
    return subprocess.run(["cargo"] + args, cwd=cwd, env=ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def alone(prop, dseed, decls, bad, out):
    """Which of these declarations, without any adapter, does the compiler refuse?"""
    refused = {}
    base = f"{out}/alone"
    for i in bad[:6]:
        d = decls[i]
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base + "/src")
        sim = f"{VERIF}/sim"
        custs = gen.crate_text([d], None)
        head = custs[:custs.index("mod t0;")]
        with open(base + "/src/lib.rs", "w") as f:
            f.write(head + "\n" + gen.alone_text(d))
        with open(base + "/Cargo.toml", "w") as f:
            f.write(f'[workspace]\n[package]\nname = "alone"\nversion = "0.1.0"\nedition = "2024"\n[dependencies]\nbitfields = {gen.dep_text(prop, dseed, REPO)}\nsimcore = {{ path = "{sim}"{giant_feature(dseed)} }}\n')
        shutil.copy(f"{REPO}/Cargo.lock", base + "/Cargo.lock")
        p = cargo(["check", "--offline", "--target-dir", f"{out}/target-alone"], base)
        if p.returncode != 0:
            refused[i] = "\n".join(l for l in p.stdout.splitlines() if not re.match(r"\s*(Compiling|Checking|Locking|Adding)", l))[:3000]
    return refused


def build(prop, dseed, per, out, skip=()):
    """Generates and builds the declarations; returns (decls, dropped {index: error})."""
    os.makedirs(out, exist_ok=True)
    for c in range(NCRATES):
        shutil.rmtree(f"{out}/d{c}", ignore_errors=True)
    dropped = {}
    for attempt in range(6):
        decls, order = gen.emit(prop, dseed, out, NCRATES, per, REPO, f"{VERIF}/sim", set(skip) | set(dropped))
        shutil.copy(f"{REPO}/Cargo.lock", f"{out}/Cargo.lock")
        p = cargo(["build", "--offline", "--keep-going", "-p", "w"] + sum((["-p", f"d{c}"] for c in range(NCRATES)), []), out)
        if p.returncode == 0:
            return decls, dropped
        txt = p.stdout
        bad = {}
        cur = None
        for l in txt.splitlines():
            if l.startswith("error"):
                cur = l
            m = re.search(r"--> d(\d+)/src/t(\d+)\.rs", l)
            if m and cur:
                i = order.get((int(m.group(1)), int(m.group(2))))
                if i is not None:
                    bad.setdefault(i, cur)
        if not bad:
            raise Broken("build failed:\n" + txt[-3000:])
        dropped.update(bad)
        log(f"  {len(bad)} declarations do not compile with their adapter, continuing without them")
        if len(dropped) > 0.9 * len(decls):
            if prop in ("C02", "C13", "C14", "C15"):  # these say that declarations and their operations stay usable
                return decls, dropped
            raise Broken("almost nothing compiles:\n" + txt[-3000:])
    raise Broken("declarations keep failing to compile:\n" + txt[-3000:])


FORWARDING = "cargo features selected on the bitfields crate do not reach bitfields-impl: with default-features = false, features = [\"order_msb\"] a declaration is still laid out lsb first"


def forwarding(out):
    """Offsets of two bytes declared in a crate that selects order_msb on `bitfields`, as the README says."""
    base = f"{out}/forward"
    os.makedirs(base + "/src", exist_ok=True)
    with open(base + "/Cargo.toml", "w") as f:
        f.write(f'[workspace]\n[package]\nname = "forward"\nversion = "0.1.0"\nedition = "2024"\n[dependencies]\nbitfields = {{ path = "{REPO}/bitfields", default-features = false, features = ["order_msb"] }}\n')
    with open(base + "/src/main.rs", "w") as f:
        f.write('#![allow(dead_code)]\n#[bitfields::bitfield(u16)]\npub struct Probe {\n    a: u8,\n    b: u8,\n}\nfn main() {\n    print!("{} {}", Probe::A_OFFSET, Probe::B_OFFSET);\n}\n')
    shutil.copy(f"{REPO}/Cargo.lock", base + "/Cargo.lock")
    p = cargo(["build", "--offline", "--target-dir", f"{out}/target-alone"], base)
    if p.returncode != 0:
        return p.stdout[-1500:]
    return subprocess.run([f"{out}/target-alone/debug/forward"], text=True, stdout=subprocess.PIPE).stdout


def without_std(decls, dseed, prop, out):
    """What the compiler says when the heap-free declarations stand in a crate without the standard library, or None."""
    base = f"{out}/nostd"
    os.makedirs(base + "/src", exist_ok=True)
    with open(base + "/Cargo.toml", "w") as f:
        f.write(f'[workspace]\n[package]\nname = "nostd"\nversion = "0.1.0"\nedition = "2024"\n[dependencies]\nbitfields = {gen.dep_text(prop, dseed, REPO)}\nsimcore = {{ path = "{VERIF}/sim"{giant_feature(dseed)} }}\n')
    with open(base + "/src/lib.rs", "w") as f:
        f.write(gen.no_std_text(decls))
    shutil.copy(f"{REPO}/Cargo.lock", base + "/Cargo.lock")
    p = cargo(["check", "--offline", "--target-dir", f"{out}/target-alone"], base)
    return None if p.returncode == 0 else "\n".join(l for l in p.stdout.splitlines() if not re.match(r"\s*(Compiling|Checking|Locking|Adding)", l))[:3000]


def run_workers(prop, seed, out, count, secs):
    w = f"{out}/target/debug/w"
    ps = []
    for i in range(WORKERS):
        o = f"{out}/o{i}.json"
        if os.path.exists(o):
            os.unlink(o)
        ps.append((i, o, subprocess.Popen([w, "run", prop, str(seed), str(i), str(WORKERS), str(count), str(secs), o], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    res = []
    for i, o, p in ps:
        t, _ = p.communicate()
        if p.returncode == 0:
            res.append(json.load(open(o)))
        elif p.returncode == 3:
            res.append({"crash": True, "nondet": t[-500:]})
        else:
            # the code under test took the worker down (abort, stack overflow, endless loop ...)
            m = re.findall(r"\d+", open(o + ".at").read()) if os.path.exists(o + ".at") else []
            res.append({"crash": True, "rc": p.returncode, "text": t[-2000:], "run": int(m[0]) if m else i})
    nd = [j for j in res if j.get("nondet")]
    res = [j for j in res if not j.get("nondet")]
    if nd and not any(j.get("crash") or j.get("violation") for j in res):
        raise Broken("simulation is not deterministic: " + nd[0]["nondet"])
    return res


def merge(tot, res):
    for j in res:
        if j.get("crash"):
            continue
        for k in ("runs", "steps", "ops", "checks", "inters", "states", "determinism_reruns"):
            tot[k] = tot.get(k, 0) + j[k]
        for k in ("faults", "probes", "kinds", "known"):
            d = tot.setdefault(k, {})
            for a, b in j[k].items():
                d[a] = d.get(a, 0) + b
        tot["sim_s"] = tot.get("sim_s", 0) + j["secs"]
        tot.setdefault("samples", []).extend(j["samples"][:1])
        tot.setdefault("digests", []).append(j["digest"])


def shape(decls, dropped):
    s = {}
    for i, d in enumerate(decls):
        if i in dropped:
            continue
        if d.flag:
            s["flag enum"] = s.get("flag enum", 0) + 1
            continue
        k = ("heap" if d.heap else "array" if d.array else "int") + ("+ignored" if d.ign else "")
        s[k] = s.get(k, 0) + 1
    return s


def replay_steps(prop, seed, run, steps, out):
    f = f"{out}/replay.steps"
    with open(f, "w") as h:
        h.write("\n".join(steps) + "\n")
    return subprocess.run([f"{out}/target/debug/w", "steps", prop, str(seed), str(run), f], env=ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def one_run(prop, seed, run, out):
    return subprocess.run([f"{out}/target/debug/w", "run", prop, str(seed), str(run), "1", str(run + 1), "600", f"{out}/one.json"], env=ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def fails(prop, seed, v, steps, out):
    p = replay_steps(prop, seed, v["run"], steps, out)
    return p.returncode == 1 and f"CLASS {v['class']}" in p.stdout


def reproduce(prop, seed, v, count, secs, out):
    """Makes sure the violation shows in a fresh process, from its minimised steps if that is enough.

    Generated code that keeps something between operations (a static, a thread local) misleads the
    minimiser, which works inside one process: fall back to the steps as they were, minimised across
    processes, and then to the runs that came before in the same process.
    """
    if fails(prop, seed, v, v["steps"], out):
        return
    if fails(prop, seed, v, v["raw"], out):
        cur, chunk, t0 = v["raw"], max(1, len(v["raw"]) // 2), time.time()
        while time.time() - t0 < 60:
            i, shrunk = 0, False
            while i < len(cur) and time.time() - t0 < 60:
                t = cur[:i] + cur[i + chunk:]
                if t and fails(prop, seed, v, t, out):
                    cur, shrunk = t, True
                else:
                    i += chunk
            if chunk == 1 and not shrunk:
                break
            chunk = max(1, chunk // 2)
        v["steps"] = cur
        v["trace"] = replay_steps(prop, seed, v["run"], cur, out).stdout.splitlines()
        return
    back = 0
    while True:
        start = max(v["run"] % WORKERS, v["run"] - back * WORKERS)
        j = history(prop, seed, start, v["run"], out)
        if j and j.get("violation", {}).get("class") == v["class"]:
            v["steps"], v["history"] = [], [start, WORKERS, j["violation"]["run"]]
            v["trace"] = [f"shows only after the runs before it in the same process: runs {start}, {start + WORKERS} ... {j['violation']['run']}"] + v["trace"]
            return
        if start < WORKERS:
            raise Broken("violation does not replay:\n" + v["msg"])
        back = max(1, back * 4)


def history(prop, seed, start, run, out):
    """Runs start, start + WORKERS ... run in one fresh process."""
    p = history_process(prop, seed, start, run, out)
    return json.load(open(f"{out}/history.json")) if p.returncode == 0 else None


def history_process(prop, seed, start, run, out):
    return subprocess.run([f"{out}/target/debug/w", "run", prop, str(seed), str(start), str(WORKERS), str(run + 1), "600", f"{out}/history.json"], env=ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def save_replay(prop, seed, dseed, per, dropped, v, decl, out):
    os.makedirs(f"{VERIF}/replays", exist_ok=True)
    path = f"{VERIF}/replays/{prop}-{seed}-{dseed}-{v['run']}.json"
    body = {"property": prop, "seed": seed, "decl_seed": dseed, "crates": NCRATES, "per_crate": per, "skip": sorted(dropped),
            "run": v["run"], "class": v["class"], "message": v["msg"], "scenario": v.get("scenario"), "declaration": decl,
            "original_steps": v.get("orig_steps"), "steps": v.get("steps", []), "trace": v.get("trace", []), "history": v.get("history"),
            "replay_with": f"python3 tools/check.py replay {path}"}
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def find_decl(decls, name):
    for d in decls:
        if name and name.split(" ")[0] == d.name:
            return d.decl
    return None


def simulate(prop, tier, seed):
    info = INFO[prop]
    t0 = time.time()
    rounds = info["rounds"] if tier == "thorough" else info["qrounds"]
    per = info["per"]
    count = info["count"] if tier == "quick" else info["count"] * info.get("deep", 2)
    secs = info.get("secs", 60) if tier == "quick" else 300
    tot = {}
    shapes = {}
    ndecl = 0
    viol = None
    notes = []
    known = known_findings(prop)
    t_build = 0
    plan = [(rd, per, count, secs) for rd in range(rounds)]
    if info.get("extreme"):
        # very large bitfields and very many fields: slow, so few declarations and a time limit
        plan.insert(1, (900, 2, count, 12 if tier == "quick" else 90))
    for rd, per, count, secs in plan:
        dseed = seed * 1000 + rd
        out = f"{VERIF}/.build/{prop}"
        tb = time.time()
        decls, dropped = build(prop, dseed, per, out)
        t_build += time.time() - tb
        if dropped:
            refused = alone(prop, dseed, decls, sorted(dropped), out)
            notes.append(f"round {rd}: {len(dropped)} declarations dropped because they did not compile with their adapter")
            if not refused and prop in ("C14", "C15"):
                # the declaration compiles, but operations its settings ask for are missing, or not constant
                i = sorted(dropped)[0]
                refused = {i: dropped[i]}
            if refused and prop in ("C02", "C13", "C14", "C15"):
                i, text = sorted(refused.items())[0]
                viol = {"run": 0, "class": "declaration-rejected", "msg": "a documented declaration, or the operations its settings ask for, no longer compile", "trace": text.splitlines(), "decl": decls[i].decl}
                path = save_replay(prop, seed, dseed, per, dropped, viol, decls[i].decl, out)
                viol["path"] = path
                break
        log(f"  {len(decls) - len(dropped)} declarations built in {time.time() - tb:.1f} s")
        for k, v in shape(decls, dropped).items():
            shapes[k] = shapes.get(k, 0) + v
        ndecl += len(decls) - len(dropped)
        res = run_workers(prop, dseed, out, count, secs)
        merge(tot, res)
        if prop == "C09":
            text = without_std([d for i, d in enumerate(decls) if i not in dropped], dseed, prop, out)
            tot.setdefault("probes", {})["declarations compiled without std"] = tot.get("probes", {}).get("declarations compiled without std", 0) + len(decls)
            if text:
                viol = {"run": 0, "class": "needs-std", "msg": "heap-free declarations do not compile in a crate without the standard library", "trace": text.splitlines()}
                viol["path"] = save_replay(prop, seed, dseed, per, dropped, viol, None, out)
                break
        if prop == "C14" and rd == 0:
            got = forwarding(out)
            if got == "0 8":
                tot.setdefault("known", {})[FORWARDING] = 1
            elif got != "8 0":
                raise Broken("the feature forwarding probe answered: " + got)
        vs = [j["violation"] for j in res if j.get("violation")]
        vs += [{"run": j["run"], "class": "process-died", "msg": f"worker ended with {j['rc']}: {j['text']}", "steps": [], "trace": []} for j in res if j.get("crash")]
        if vs:
            v = min(vs, key=lambda x: x["run"])
            if v["class"] == "process-died":
                p = one_run(prop, dseed, v["run"], out)
                if p.returncode == 0:
                    start = v["run"] % WORKERS
                    p = history_process(prop, dseed, start, v["run"], out)
                    if p.returncode in (0, 3):
                        raise Broken("a worker died, but not when its runs are repeated:\n" + v["msg"])
                    v["history"] = [start, WORKERS, v["run"]]
                v["msg"] = ("no progress for 20 s" if p.returncode == 4 else f"ended with {p.returncode}") + ": " + p.stdout[-1500:]
            decl = find_decl(decls, v.get("scenario"))
            if v["class"] != "process-died":
                reproduce(prop, dseed, v, count, secs, out)
            viol = v
            viol["path"] = save_replay(prop, seed, dseed, per, dropped, v, decl, out)
            viol["decl"] = decl
            break
        unl = [k for k in tot.get("known", {}) if k not in known]
        if unl:
            viol = {"run": 0, "class": "unlisted-finding", "msg": unl[0], "steps": [], "trace": []}
            viol["path"] = save_replay(prop, seed, dseed, per, dropped, viol, None, out)
            break
        if tier == "thorough" and time.time() - t0 > info.get("budget", 3000):
            break
        if tier == "thorough":
            shutil.rmtree(f"{VERIF}/.build/{prop}/target/debug/incremental", ignore_errors=True)
    wall = time.time() - t0
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(f"{VERIF}/.build/{prop}", ignore_errors=True)
    write_evidence(prop, tier, seed, info, tot, shapes, ndecl, wall, t_build, viol, notes, known)
    for k in sorted(tot.get("known", {})):
        if k in known:
            log(f"KNOWN-FINDING: property={prop} {k}")
    if viol:
        log(f"{viol['class']}: {viol['msg']}")
        if viol.get("scenario"):
            log(f"  in run {viol['run']}: {viol['scenario']}")
        if viol.get("decl"):
            log(viol["decl"])
        for l in viol.get("trace", [])[:60]:
            log("  " + l)
        log(f"VIOLATION property={prop} replay={viol['path']}")
        return 1
    log(f"{prop}: held on {tot['runs']} runs, {tot['steps']} steps, {tot['ops']} real operations over {ndecl} declarations ({wall:.0f} s)")
    return 0


def write_evidence(prop, tier, seed, info, tot, shapes, ndecl, wall, t_build, viol, notes, known):
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    sim = max(tot.get("sim_s", 0) / WORKERS, 1e-9)
    runs = tot.get("runs", 0)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": tot.get("inters", 0),
        "rule": "One evaluation is one simulated run (one declaration, one seed, one schedule with its faults). Distinct: runs are counted by the hash of their sequence of (actor, action, operation kind, fault); non-trivial: every counted run executes at least one operation of a real generated type. " + info["rule"],
        "samples": tot.get("samples", [])[:6] or ["none"],
        "steps": tot.get("steps", 0),
        "real_operations": tot.get("ops", 0),
        "oracle_checks": tot.get("checks", 0),
        "distinct_states": tot.get("states", 0),
        "distinct_states_measure": "distinct (declaration, stored bits) pairs reached, summed over worker processes",
        "faults_injected": tot.get("faults", {}),
        "probes": tot.get("probes", {}),
        "operation_kinds": tot.get("kinds", {}),
        "declarations": ndecl,
        "declarations_by_storage": shapes,
        "runs_per_hour": int(runs / sim * 3600),
        "seeds_per_hour": int(runs / sim * 3600),
        "simulated_time": f"{tot.get('steps', 0)} scheduler steps (the code under test has no clock; a step is the unit of simulated time)",
        "determinism_reruns": tot.get("determinism_reruns", 0),
        "event_log_digests": tot.get("digests", [])[:8],
        "real_code": "bitfields and bitfields_impl from /repo: every declaration is expanded by the real macros and its real generated code is executed",
        "stubbed": info["stub"],
        "known_findings_seen": tot.get("known", {}),
        "build_s": round(t_build, 1),
        "notes": notes,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": info.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if viol else 0}
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    r = json.load(open(path))
    prop = r["property"]
    if prop == "C10":
        import expand
        return expand.replay(r)
    out = f"{VERIF}/.build/replay-{prop}"
    try:
        decls, dropped = build(prop, r["decl_seed"], r["per_crate"], out, () if r["class"] == "declaration-rejected" else r["skip"])
        if r["class"] == "declaration-rejected":
            bad = alone(prop, r["decl_seed"], decls, sorted(dropped), out) or {i: "operations its settings ask for do not compile" for i in dropped if prop in ("C14", "C15")}
            for i, t in bad.items():
                log(decls[i].decl + t)
            if bad:
                log(f"VIOLATION property={prop} replay={path}")
            return 1 if bad else 0
        if r["class"] == "needs-std":
            text = without_std([d for i, d in enumerate(decls) if i not in dropped], r["decl_seed"], prop, out)
            if text:
                log(text)
                log(f"VIOLATION property={prop} replay={path}")
            return 1 if text else 0
        if r.get("history"):
            start, _, run = r["history"]
            if r["class"] == "process-died":
                j = None
                bad = history_process(prop, r["decl_seed"], start, run, out).returncode not in (0, 3)
                log("the worker died" if bad else "no violation")
            else:
                j = history(prop, r["decl_seed"], start, run, out)
                bad = bool(j and j.get("violation", {}).get("class") == r["class"])
                log("\n".join([j["violation"]["msg"]] + j["violation"]["trace"]) if bad else "no violation")
        elif r["class"] == "process-died" or not r["steps"]:
            p = one_run(prop, r["decl_seed"], r["run"], out)
            log(p.stdout[-2000:])
            bad = p.returncode != 0
        else:
            p = replay_steps(prop, r["decl_seed"], r["run"], r["steps"], out)
            log(p.stdout)
            bad = p.returncode == 1
    finally:
        shutil.rmtree(out, ignore_errors=True)
    if bad:
        log(f"VIOLATION property={prop} replay={path}")
    return 1 if bad else 0


def main():
    a = sys.argv
    if a[1] == "replay":
        return replay(a[2])
    prop = a[1]
    tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    log(f"{prop} {tier} seed={seed}")
    if prop == "C10":
        import expand
        return expand.check_(tier, seed)
    return simulate(prop, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("CHECK BROKEN:", e, file=sys.stderr)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("CHECK BROKEN: timeout", e.cmd, file=sys.stderr)
        sys.exit(2)
