"""C10: the compiler process that hosts the macros is the simulated node. A schedule is a sequence of
declarations expanded by one real rustc process with the real macros; randomness and clock of that
process come from the seed (shim.c), the proc-macro thread strategy is part of the schedule, and the
injected faults are declarations whose expansion fails or panics part-way."""
import json
import os
import random
import re
import shutil
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import check
import gen

VERIF = check.VERIF
# what a build, a user or a CI system puts into the environment of the compiler
VARIABLES = ["CARGO_PKG_NAME", "CARGO_PKG_VERSION", "CARGO_CRATE_NAME", "CARGO_BIN_NAME", "CARGO_PRIMARY_PACKAGE", "CARGO_MANIFEST_DIR", "CARGO_CFG_TARGET_ENDIAN",
             "CARGO_CFG_TARGET_POINTER_WIDTH", "CARGO_FEATURE_ORDER_MSB", "CARGO_ENCODED_RUSTFLAGS", "RUSTFLAGS", "OUT_DIR", "DEBUG", "PROFILE", "OPT_LEVEL", "TARGET", "HOST",
             "NUM_JOBS", "DOCS_RS", "CI", "USER", "HOME", "LANG", "LC_ALL", "TZ", "TMPDIR", "SOURCE_DATE_EPOCH", "BITFIELDS_DEBUG", "BITFIELDS_ORDER"]
VALUES = ["", "0", "1", "2", "3", "true", "false", "debug", "release", "little", "big", "bitfields", "bitfields_impl", "my-crate", "/tmp", "/nonexistent", "C", "de_DE.UTF-8", "UTC", "32", "x86_64-unknown-linux-gnu"]
STUBS = "".join(f"pub struct {c.name};\n" for c in gen.CUSTS)


def bitflag(r, k):
    w = r.choice(gen.INTS)
    n = r.randrange(2, 6)
    vals = sorted({r.getrandbits(min(w, 31)) for _ in range(n)})
    base = r.randrange(len(vals))
    args = [f"u{w}"] + r.choice([[], [], ["from_endian = little"], ["into_endian = little", "from_endian = big"]])
    vs = ",\n".join((("    #[base]\n" if i == base else "") + f"    {r.choice('ABCD')}v{i} = {gen.lit(r, v)}") for i, v in enumerate(vals))
    return f"#[bitflag({', '.join(args)})]\npub enum Kind{k % 7} {{\n{vs}\n}}\n"


def mutate(r, d):
    """A textual edit that usually makes the declaration invalid."""
    for _ in range(20):
        e = r.randrange(12)
        lines = d.split("\n")
        body = [i for i, l in enumerate(lines) if re.match(r"\s+(pub(\(crate\))? )?\w+: ", l)]
        n = d
        if e == 0 and body:
            lines.pop(r.choice(body))
            n = "\n".join(lines)
        elif e == 1:
            n = re.sub(r"#\[bit(field|flag)\(", lambda m: m.group(0)[:-1] + "(", d)
            n = n.replace(")]", f", {r.choice(['colour = red', 'order = up', 'from_endian = middle', 'new = maybe', 'builder = 3'])})]", 1)
        elif e == 2:
            n = re.sub(r"#\[bits\((\d+)", lambda m: f"#[bits({int(m.group(1)) + 1}", d, count=1)
        elif e == 3:
            n = re.sub(r"#\[bits\((\d+)", "#[bits(0", d, count=1)
        elif e == 4:
            n = re.sub(r"access = \w+", "access = maybe", d)
        elif e == 5:
            n = re.sub(r"default = (0x|0b)?[0-9a-fA-F]+\b", "default = 0x1FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", d, count=1)
        elif e == 6:
            n = d.replace("order = msb", "order = msb, order = lsb")
        elif e == 7:
            n = re.sub(r"#\[bits\((\d+)", lambda m: f"#[bits({m.group(1)}, {m.group(1)}", d, count=1)
        elif e == 8:
            n = d.replace("#[base]\n", "")
        elif e == 9:
            n = re.sub(r"#\[bit(field|flag)\(([^,)]*)", lambda m: f"#[bit{m.group(1)}({r.choice(['u7', 'f32', '[u16; 3]', '[u8; 0]', 'usize', ''])}", d, count=1)
        elif e == 10:
            n = re.sub(r"pub (struct|enum) (\w+) \{.*\n\}", lambda m: f"pub enum {m.group(2)} {{ A, B }}" if m.group(1) == "struct" else f"pub struct {m.group(2)} {{ a: u8 }}", d, flags=re.S)
        elif e == 11:
            n = re.sub(r"pub struct (\w+) \{.*\n\}", r"pub struct \1(u8, u8);", d, flags=re.S)
        if n != d:
            return n
    return d


def twist(r, d):
    """A valid neighbour: same name, same fields, something small different."""
    e = r.randrange(5)
    if e == 0:
        return d.replace("#[bitfield(", "#[bitfield(", 1).replace(")]", ", debug = false)]", 1) if "debug" not in d and "bitfield" in d else d
    if e == 1:
        return d.replace("order = msb", "order = lsb") if "order = msb" in d else (d.replace(")]", ", order = msb)]", 1) if "order" not in d and "bitfield" in d else d)
    if e == 2:
        return re.sub(r"default = (0x|0b|0o)?[0-9a-fA-F_]+(?=[,)])", "default = 1", d, count=1)
    if e == 3:
        return re.sub(r", access = \w+|access = \w+, ", "", d, count=1)
    lines = d.split("\n")
    return "\n".join(lines[:1] + ["/// Another."] + lines[1:])


def universe(seed, n):
    r = random.Random(f"C10/{seed}/universe")
    out = []
    for k, d in enumerate(gen.make_decls("C10", seed, n)):
        # few struct names, so that different declarations share one
        src = re.sub(r"(?m)^(pub(\(crate\))? )?struct \w+", f"pub struct T{k % 5}", d.decl)
        src = re.sub(r"pub\((in )?super(::super)?\)", "pub(in crate)", src)
        src = "".join(c + "\n" for c in d.consts) + src
        if len(src) > 6000:
            continue
        out.append(src)
        if r.random() < 0.6:
            out.append(twist(r, src))
        if r.random() < 0.5:
            out.append(mutate(r, src))
    for k in range(n // 3):
        b = bitflag(r, k)
        out.append(b)
        if r.random() < 0.6:
            out.append(mutate(r, b))
    # declarations on which the macro panics (and reports it)
    for k, e in enumerate(["0x1 << 3", "0b1 + 2", "0o7 * 1", "0x1 | B"]):
        out.insert(r.randrange(len(out)), f"#[bitfield(u128)]\npub struct T{k} {{\n    #[bits(128, default = {e})]\n    a: u128,\n}}\n")
    return list(dict.fromkeys(out))


class Host:
    def __init__(self, out):
        self.out = out
        os.makedirs(out + "/src", exist_ok=True)
        with open(out + "/Cargo.toml", "w") as f:
            f.write(f'[workspace]\n[package]\nname = "host"\nversion = "0.1.0"\nedition = "2024"\n[dependencies]\nbitfields = {{ path = "{check.REPO}/bitfields" }}\n')
        with open(out + "/src/lib.rs", "w") as f:
            f.write("")
        shutil.copy(f"{check.REPO}/Cargo.lock", out + "/Cargo.lock")
        p = check.cargo(["build", "--offline"], out)
        if p.returncode:
            raise check.Broken("build failed:\n" + p.stdout[-3000:])
        deps = out + "/target/debug/deps"
        rl = [f for f in os.listdir(deps) if f.startswith("libbitfields-") and f.endswith(".rlib")]
        self.args = ["--edition", "2024", "--crate-type", "lib", "-Zunpretty=expanded", "--error-format=json",
                     "--extern", f"bitfields={deps}/{rl[0]}", "-L", f"dependency={deps}"]
        p = subprocess.run(["rustup", "which", "rustc"], env=check.ENV, text=True, stdout=subprocess.PIPE)
        self.rustc = p.stdout.strip() or "rustc"
        p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", out + "/shim.so", f"{VERIF}/tools/shim.c", "-ldl"], text=True, stderr=subprocess.PIPE)
        if p.returncode:
            raise check.Broken(p.stderr)

    def expand(self, srcs, cfg, tag):
        """Expands these declarations in one process; returns one observation per declaration, or None if the process died."""
        text = "pub mod stubs {\n" + STUBS + "}\n"
        starts = []
        for k, s in enumerate(srcs):
            starts.append(text.count("\n") + 1)
            text += f"mod m{k} {{\nuse bitfields::*; use crate::stubs::*;\n{s}\n}}\n"
        starts.append(text.count("\n") + 1)
        path = f"{self.out}/{tag}.rs"
        with open(path, "w") as f:
            f.write(text)
        env = dict(check.ENV, LD_PRELOAD=self.out + "/shim.so", VSIM_SEED=str(cfg["seed"]), VSIM_ASKED=self.out + "/asked", RUSTC_BOOTSTRAP="1")
        env.update(cfg.get("env", {}))
        cmd = [self.rustc] + self.args + ["--crate-name", cfg.get("crate", "host"), f"-Zproc-macro-execution-strategy={cfg['threads']}", path]
        try:
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600, cwd=self.out if cfg.get("cwd", ".") == "." else cfg["cwd"])
        except subprocess.TimeoutExpired:
            return None, "timeout"
        if p.returncode not in (0, 1):
            return None, f"rustc ended with {p.returncode}: {p.stderr[-800:]}"
        mods = [[] for _ in srcs]
        cur = None
        for l in p.stdout.split("\n"):
            m = re.match(r"mod m(\d+) \{", l)
            if m:
                cur = int(m.group(1))
            if cur is not None:
                mods[cur].append("mod {" if m else l)
            if l.startswith("}"):
                cur = None
        diags = [[] for _ in srcs]
        for l in p.stderr.split("\n"):
            if not l.startswith("{"):
                continue
            j = json.loads(l)
            if j.get("code") or not j["spans"]:
                continue
            at = [s for s in j["spans"] if s["is_primary"]] or j["spans"]
            line = at[0]["line_start"]
            k = max([i for i in range(len(srcs)) if starts[i] <= line], default=None)
            if k is None:
                continue
            sp = sorted((s["line_start"] - starts[k], s["column_start"], s["line_end"] - starts[k], s["column_end"], s["label"] or "") for s in j["spans"])
            ch = [(c["level"], c["message"]) for c in j["children"]]
            diags[k].append([j["level"], j["message"], sp, ch])
        return [json.dumps(["\n".join(m), d]) for m, d in zip(mods, diags)], None


def kind(obs):
    t, d = json.loads(obs)
    if any("panicked" in x[1] or "unexpected error" in x[1] for x in d):
        return "panicking"
    return "failing" if d else "succeeding"


def compare(host, srcs, base, order, cfg, tag):
    """First position whose observation differs from the one in a fresh process: (position, what)."""
    obs, err = host.expand([srcs[i] for i in order], cfg, tag)
    if obs is None:
        return 0, err, []
    for k, i in enumerate(order):
        if obs[k] != base[i]:
            return k, describe(base[i], obs[k]), obs
    return None, None, obs


def describe(a, b):
    ta, da = json.loads(a)
    tb, db = json.loads(b)
    if da != db:
        return f"diagnostics differ: {json.dumps(da)[:400]} in a fresh process, {json.dumps(db)[:400]} in this schedule"
    for x, y in zip(ta.split("\n"), tb.split("\n")):
        if x != y:
            return f"generated code differs: {x.strip()[:200]!r} in a fresh process, {y.strip()[:200]!r} in this schedule"
    return "generated code differs in length"


def minimise(host, srcs, base, order, cfg):
    """Drops declarations while some declaration still expands differently."""
    bad = lambda o: compare(host, srcs, base, o, cfg, "min")[0] is not None
    cur = list(order)
    chunk = max(1, len(cur) // 2)
    t0 = time.time()
    while time.time() - t0 < 60:
        i, shrunk = 0, False
        while i < len(cur):
            t = cur[:i] + cur[i + chunk:]
            if t and bad(t):
                cur, shrunk = t, True
            else:
                i += chunk
        if chunk == 1 and not shrunk:
            break
        chunk = max(1, chunk // 2)
    return cur


def check_round(host, seed, rd, n, runs, tot):
    srcs = universe(f"{seed}/{rd}", n)
    dseed = seed * 1000 + rd
    base = {}
    cfg0 = {"seed": 0, "threads": "same-thread"}
    with ThreadPoolExecutor(8) as ex:
        for i, (obs, err) in enumerate(ex.map(lambda i: host.expand([srcs[i]], cfg0, f"b{i}"), range(len(srcs)))):
            if obs is not None and json.loads(obs[0])[0]:  # rustc could parse the file
                base[i] = obs[0]
    ids = sorted(base)
    kinds = {i: kind(base[i]) for i in ids}
    for i in ids:
        k = f"{kinds[i]} declaration in the pool"
        tot["pool"][k] = tot["pool"].get(k, 0) + 1

    def one(run):
        r = random.Random(f"C10/{dseed}/{run}")
        cfg = {"seed": r.getrandbits(63), "threads": r.choice(["same-thread", "same-thread", "cross-thread"])}
        if r.random() < 0.5:
            cfg["env"] = {v: r.choice(VALUES) for v in r.sample(VARIABLES, r.randrange(1, len(VARIABLES)))}
            cfg["crate"] = r.choice(["host", "a", "bitfields", "bitfields_impl", "my_crate", "build_script_build"])
            cfg["cwd"] = r.choice(["/", "/usr", "."])
        k = r.choice([1, 2, 2, 3, 4, 6, 8, 12, 20, 30]) if r.random() < 0.96 else r.choice([70, 140, 270])
        if run in (3, 4):
            k = 530
        fail = [i for i in ids if kinds[i] != "succeeding"]
        w = r.choice([0.0, 0.2, 0.5])
        order = []
        near = r.randrange(len(ids))
        local = r.random() < 0.5
        for _ in range(k):
            if fail and r.random() < w:
                order.append(r.choice(fail))
            elif local:  # neighbours in the pool share names and layouts
                order.append(ids[(near + r.randrange(5)) % len(ids)])
            else:
                order.append(r.choice(ids))
        pos, what, obs = compare(host, srcs, base, order, cfg, f"r{run % 64}-{run}")
        try:
            os.unlink(f"{host.out}/r{run % 64}-{run}.rs")
        except OSError:
            pass
        again = None
        if run % 16 == 0 and obs:  # determinism of the whole process, position by position
            obs2, _ = host.expand([srcs[i] for i in order], cfg, f"d{run}")
            again = obs2 == obs
        return run, order, cfg, pos, what, again

    found = None
    with ThreadPoolExecutor(8) as ex:
        for run, order, cfg, pos, what, again in ex.map(one, range(runs)):
            tot["runs"] += 1
            tot["steps"] += len(order)
            tot["orders"].add(hash((tuple(order), cfg["threads"])) if len(order) > 1 else 0)
            tot["faults"]["randomness and clock of the compiler process replaced"] = tot["faults"].get("randomness and clock of the compiler process replaced", 0) + 1
            if "env" in cfg:
                tot["faults"]["environment, crate name and directory of the compiler process replaced"] = tot["faults"].get("environment, crate name and directory of the compiler process replaced", 0) + 1
            tot["faults"][f"{cfg['threads']} expansion"] = tot["faults"].get(f"{cfg['threads']} expansion", 0) + 1
            for i in order[:-1]:
                if kinds[i] != "succeeding":
                    k = f"{kinds[i]} expansion before another one"
                    tot["faults"][k] = tot["faults"].get(k, 0) + 1
            tot["reruns"] += again is not None
            if len(tot["samples"]) < 3 and len(order) > 2:
                tot["samples"].append(f"run {run}: {cfg} order={order} kinds={[kinds[i] for i in order]}")
            if pos is not None and found is None:
                found = (run, order, cfg, what)
    if found:
        run, order, cfg, what = found
        small = minimise(host, srcs, base, order, cfg)
        pos, w2, _ = compare(host, srcs, base, small, cfg, "min")
        if pos is None:
            # differs from run to run of the same process: still not a function of the declaration
            pos, w2 = 0, what
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        path = f"{VERIF}/replays/C10-{seed}-{rd}-{run}.json"
        with open(path, "w") as f:
            json.dump({"property": "C10", "seed": seed, "round": rd, "run": run, "class": "expansion-differs", "message": w2, "config": cfg,
                       "original_order": order, "order": small, "position": pos, "declarations": [srcs[i] for i in small],
                       "fresh": [base[i] for i in small], "replay_with": f"python3 tools/check.py replay {path}"}, f, indent=1)
        return {"path": path, "msg": w2, "decls": [srcs[i] for i in small], "cfg": cfg, "pos": pos}
    return None


def check_(tier, seed):
    t0 = time.time()
    out = f"{VERIF}/.build/C10"
    host = Host(out)
    t_build = time.time() - t0
    tot = {"runs": 0, "steps": 0, "orders": set(), "faults": {}, "reruns": 0, "samples": [], "pool": {}}
    rounds, n, runs = (1, 60, 900) if tier == "quick" else (8, 120, 4000)
    v = None
    for rd in range(rounds):
        v = check_round(host, seed, rd, n, runs, tot)
        if v:
            break
    wall = time.time() - t0
    asked = sorted(set(open(out + "/asked").read().split("\n")) - {""}) if os.path.exists(out + "/asked") else []
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(out, ignore_errors=True)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    sim = max(wall - t_build, 1e-9)
    with open(f"{VERIF}/evidence/C10.json", "w") as f:
        json.dump({"property": "C10", "tier": tier, "seed": seed, "level": "exploration", "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(tot["orders"] - {0}),
            "rule": "One evaluation is one compiler process expanding a seeded sequence of 1-530 declarations (repetitions, failing and panicking declarations, same-named neighbours); distinct and non-trivial: distinct sequences of at least two declarations together with the thread strategy.",
            "samples": tot["samples"], "expansions_compared": tot["steps"], "pool": tot["pool"], "faults_injected": tot["faults"],
            "runs_per_hour": int(tot["runs"] / sim * 3600), "seeds_per_hour": int(tot["runs"] / sim * 3600),
            "simulated_time": f"{tot['steps']} expansions (the simulated clock of the compiler process advances 1 ms per reading)",
            "variables_and_files_the_macros_asked_for": asked[:50],
            "determinism_reruns": tot["reruns"],
            "real_code": "the real rustc and the real proc-macro library built from /repo",
            "stubbed": ["getrandom and clock_gettime of the compiler process (LD_PRELOAD shim seeded by the run), its environment variables, crate name and working directory; every environment variable, file, process id and processor count the macro library itself asks for"],
            "build_s": round(t_build, 1)}, "assumptions": ["rustc itself prints the same tokens for the same macro output"],
            "wall_s": round(wall, 2), "violations": 1 if v else 0}, f, indent=1)
    if v:
        check.log(f"expansion-differs: {v['msg']}\n  config {v['cfg']}, position {v['pos']} of:")
        for d in v["decls"]:
            check.log(d)
        check.log(f"VIOLATION property=C10 replay={v['path']}")
        return 1
    check.log(f"C10: held on {tot['runs']} compiler processes, {tot['steps']} expansions ({wall:.0f} s)")
    return 0


def replay(r):
    out = f"{VERIF}/.build/replay-C10"
    try:
        host = Host(out)
        srcs = r["declarations"]
        base = {}
        for i, s in enumerate(srcs):
            obs, _ = host.expand([s], {"seed": 0, "threads": "same-thread"}, f"b{i}")
            base[i] = obs[0] if obs else None
        pos, what, _ = compare(host, srcs, base, list(range(len(srcs))), r["config"], "re")
    finally:
        shutil.rmtree(out, ignore_errors=True)
    if pos is None:
        check.log("no violation")
        return 0
    check.log(f"position {pos}: {what}")
    check.log(f"VIOLATION property=C10 replay={r['replay_with'].split()[-1]}")
    return 1
