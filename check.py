#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds symx, compiles the harness together with /repo's current source to LLVM IR, lets symx execute every
harness function symbolically (SMT solver decides each assertion), replays each counterexample natively against
the real code, and reports only what reproduces there.
"""
import json, os, re, subprocess, sys, time, concurrent.futures as cf
ROOT = os.path.dirname(os.path.abspath(__file__))
T0 = time.time()
PID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
FEAT = PID.lower()
TGT = os.environ.get("VERIF_TARGET", f"{ROOT}/target")
EV = f"{ROOT}/evidence"
sys.path.insert(0, f"{ROOT}/tools")
from checkcfg import CFG
C = CFG[PID]
LIM = dict(C.get("limits", {}))
if TIER == "thorough":
    LIM.update(C.get("limits_thorough", {}))
HARD = 880 if TIER == "quick" else 6 * 3600
BUDGET = LIM.get("time", 150 if TIER == "quick" else 1500)
os.makedirs(EV, exist_ok=True)
os.makedirs(TGT, exist_ok=True)
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")

def sh(cmd, cwd=None, timeout=None, env=None):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env or ENV)

def fail(msg):
    print(f"ERROR {PID}: {msg}")
    sys.exit(2)

def build_engine():
    r = sh(["cargo", "build", "--release", "--offline", "--target-dir", f"{TGT}/engine"], cwd=f"{ROOT}/engine")
    if r.returncode: fail("engine build\n" + r.stdout[-3000:])
    return f"{TGT}/engine/release/symx"
def build_ir():
    r = sh(["bash", f"{ROOT}/tools/ir.sh", FEAT, f"{TGT}/ir"])
    if r.returncode: fail("harness build\n" + r.stdout[-3000:])
    return r.stdout.strip().splitlines()[-1]
def build_replay(asan=False):
    env = dict(ENV, RUSTFLAGS="--cfg verif_hooks")
    cmd = ["cargo", "build", "--release", "--offline", "--features", FEAT, "--target-dir", f"{TGT}/replay"]
    out = f"{TGT}/replay/release/vreplay"
    if asan:
        env["RUSTFLAGS"] += " -Zsanitizer=address"
        env["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
        cmd = ["cargo", "build", "--release", "--offline", "--features", FEAT, "--target", "x86_64-unknown-linux-gnu", "--target-dir", f"{TGT}/replay_asan"]
        out = f"{TGT}/replay_asan/x86_64-unknown-linux-gnu/release/vreplay"
    r = sh(cmd, cwd=f"{ROOT}/replay", env=env)
    if r.returncode: return None, r.stdout[-3000:]
    return out, ""

def replay(bin_, fn, vals, tol, tag, timeout=20):
    f = f"{TGT}/vals_{PID}_{tag}.txt"
    with open(f, "w") as h: h.write(" ".join(repr(v) if not isinstance(v, str) else v for v in vals) + "\n")
    try:
        r = sh([bin_, fn, f, repr(tol)], timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    finally:
        try: os.remove(f)
        except OSError: pass
    if r.returncode == 0: return "held", r.stdout
    if r.returncode == 10: return "fail", r.stdout
    if r.returncode == 11: return "panic", r.stdout
    if r.returncode == 12: return "skip", r.stdout
    return f"crash({r.returncode})", r.stdout

BAD = lambda o: o in ("fail", "panic", "timeout") or o.startswith("crash")

def confirm(bin_, c, tag):
    """native confirmation of one candidate: (outcome, values, output) or None"""
    runs = [c["inputs"]] + c["alts"]
    if c["kind"] == "undecided":
        # the solver gave no verdict: only gross disagreement at several points counts
        bad = []
        for i, v in enumerate(runs):
            o, out = replay(bin_, c["fn"], v, 1e-4, f"{tag}_{i}")
            if BAD(o): bad.append((o, v, out))
            if len(bad) >= 2 or (bad and o != "fail"): return bad[0]
        return None
    for i, v in enumerate(runs):
        o, out = replay(bin_, c["fn"], v, 1e-6, f"{tag}_{i}")
        if c["kind"] == "budget" and o not in ("timeout",) and not o.startswith("crash") and o != "panic": 
            if o == "fail": return o, v, out
            continue
        if BAD(o): return o, v, out
    return None

def known():
    res = []
    p = f"{ROOT}/known_findings.txt"
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) match=(\{.*?\}) replay=(\[.*?\]) (.*)", ln.strip())
            if m and m.group(1) == PID:
                res.append(dict(match=json.loads(m.group(2)), vals=json.loads(m.group(3)), what=m.group(4)))
    return res
def matches(k, c):
    m = k["match"]
    return m["fn"] == c["fn"] and m.get("id", c["id"]) == c["id"] and re.fullmatch(m.get("notes", ".*"), "|".join(c["notes"])) is not None

def main():
    ex = cf.ThreadPoolExecutor(8)
    fe, fi = ex.submit(build_engine), ex.submit(build_ir)
    symx = fe.result()
    fr = ex.submit(build_replay)
    ir = fi.result()
    t_build = time.time() - T0
    fns = sorted(set(re.findall(r"^define [^\n]*@(h_c\w+)\(", open(ir).read(), re.M)))
    order = C.get("order", [])
    fns.sort(key=lambda f: (order.index(f) if f in order else 99, f))
    if TIER == "quick": fns = [f for f in fns if not f.endswith("_t")]
    only = os.environ.get("VERIF_ONLY")
    if only: fns = [f for f in fns if re.search(only, f)]
    if not fns: fail("no harness functions in the IR")
    out = f"{TGT}/{PID}.json"
    if os.path.exists(out): os.remove(out)
    budget = min(BUDGET, HARD - t_build - 160)
    cmd = [symx, "--ir", ir, "--fn", ",".join(fns), "--threads", "8", "--time", str(int(budget)), "--seed", str(SEED), "--out", out]
    for k in ("task-time", "max-steps", "max-paths", "ob-ms", "br-ms"):
        if k in LIM: cmd += ["--" + k, str(LIM[k])]
    cmd += C.get("flags", [])
    try:
        r = sh(cmd, timeout=budget + 120)
    except subprocess.TimeoutExpired:
        fail("symx exceeded its time limit")
    if not os.path.exists(out): fail("symx produced no result\n" + r.stdout[-3000:])
    R = json.load(open(out))
    log = r.stdout
    open(f"{TGT}/{PID}.log", "w").write(log)
    if R["engine_failed"]: fail("symx thread failed\n" + log[-2000:])
    rb, err = fr.result()
    if rb is None: fail("replay build\n" + err)
    ks = known()
    viol, unconf, kf_seen, ntr = [], [], set(), 0
    F = R["functions"]
    # 1. replays of counterexamples
    cands = [c for f in F.values() for c in f["candidates"]]
    groups = {}
    for c in cands: groups.setdefault((c["fn"], c["kind"], c["id"], "|".join(c["notes"])), []).append(c)
    asan = None
    def one(item):
        i, (key, cs) = item
        for j, c in enumerate(cs[:3]):
            r = confirm(rb, c, f"{i}_{j}")
            if r: return c, r, j + 1
        return cs[0], None, min(3, len(cs))
    items = list(enumerate(groups.items()))
    tl = HARD - 30 if TIER == "quick" else HARD
    for c, r, n in ex.map(one, items):
        ntr += n
        if r is None and c["kind"] == "bug":
            if asan is None: asan = build_replay(True)[0] or False
            if asan:
                for v in [c["inputs"]] + c["alts"]:
                    o, o2 = replay(asan, c["fn"], v, 1e-6, "asan", 60)
                    if BAD(o): r = (o, v, o2); break
        if r is None: unconf.append(c); continue
        hit = [k for k in ks if matches(k, c)]
        if hit: kf_seen.add(ks.index(hit[0])); continue
        viol.append((c, r))
    # 2. encoding check: models of completed paths must hold natively as well
    samples, agree, mism = [], 0, []
    todo = [(f, s) for f in F for s in F[f]["samples"][:6]]
    def conf(t):
        i, (f, s) = t
        return f, s, replay(rb, f, s["inputs"], 1e-6, f"s{i}")
    for f, s, (o, out2) in ex.map(conf, enumerate(todo)):
        ntr += 1
        if o in ("held", "skip"): agree += 1
        else: mism.append(dict(fn=f, notes=s["notes"], inputs=s["inputs"], outcome=o, out=out2[-200:]))
        if len(samples) < 12: samples.append(dict(fn=f, notes=s["notes"], inputs=s["inputs"], native=o))
    # 3. known findings still present?
    kf_lines = []
    for i, k in enumerate(ks):
        if k["match"]["fn"] not in F and TIER == "quick": continue
        o = "fail"
        if i not in kf_seen and k["vals"]: o, _ = replay(rb, k["match"]["fn"], k["vals"], 1e-6, f"k{i}")
        if BAD(o): kf_lines.append(f"KNOWN-FINDING: property={PID} {k['what']}")
    # reachability: a harness function whose assertions are never evaluated checks nothing
    vac = [f for f in F if not F[f]["asserts"] and F[f]["paths"] > 0]
    S = R["solver"]
    tot = lambda k: sum(F[f][k] for f in F)
    ob = tot("obligations")
    evid = dict(property=PID, tier=TIER, seed=SEED, level=C.get("level", "model_checking"), wall_s=round(time.time() - T0, 2), violations=len(viol),
        coverage=dict(
            states=tot("paths") + tot("dead") + tot("forks"), transitions=tot("steps"), traces_validated_against_impl=ntr,
            samples=samples or ["no completed path"],
            obligations=ob, discharged=tot("ob_concrete") + tot("ob_norm") + tot("ob_smt") + tot("ob_round"),
            discharged_by=dict(constant_after_execution=tot("ob_concrete"), normal_form=tot("ob_norm"), smt=tot("ob_smt"), normal_form_up_to_coefficient_rounding=tot("ob_round")),
            undecided=tot("ob_unknown"), undecided_inside_code_tolerance_windows=tot("ob_tol"), counterexamples_from_solver=tot("candidates_total"), counterexamples_not_reproduced=len(unconf),
            not_reproduced=[dict(fn=c["fn"], kind=c["kind"], id=c["id"], notes=c["notes"], msg=c["msg"][:160]) for c in unconf[:25]],
            solver=dict(queries=S["queries"], unsat=S["unsat"], sat=S["sat"], unknown=S["unknown"], cached=S["cached"], seconds=S["time"]),
            bounds=C["bounds"], outside=C.get("outside", ""),
            harness_functions={f: dict(tasks=F[f]["tasks"], tasks_complete=F[f]["tasks_full"], tasks_cut=F[f]["tasks_cut"], paths=F[f]["paths"], forks=F[f]["forks"], obligations=F[f]["obligations"], undecided=F[f]["ob_unknown"], tolerance_windows=F[f]["ob_tol"], reached=F[f]["reach"], asserts=F[f]["asserts"], not_encodable=F[f]["cut_unsup"], cut=F[f]["cut_list"][:10], seconds=F[f]["time"]) for f in F},
            encoded_functions=sorted({n for f in F.values() for n in f["functions"]}),
            native_samples_agreeing=agree, native_samples_disagreeing=mism[:10], vacuous=vac, build_seconds=round(t_build, 1), explore_seconds=R["wall"],
            known_findings=kf_lines),
        assumptions=C.get("assumptions", []) + ["f64 arithmetic is read as real arithmetic (finite values; rounding, overflow and -0.0 are outside)", "stable rustc's LLVM IR of /repo's current source at opt-level 1 with fat LTO, overflow checks on", "symx's instruction semantics and rewriting rules; z3"])
    with open(f"{EV}/{PID}.json", "w") as h: json.dump(evid, h, indent=1)
    for l in kf_lines: print(l)
    print(f"{PID} {TIER}: {len(F)} harness functions, tasks {tot('tasks_full')}/{tot('tasks')} complete, {tot('paths')} paths, {ob} obligations, {tot('ob_unknown')} undecided (+{tot('ob_tol')} inside tolerance windows), {tot('candidates_total')} candidates replayed ({len(unconf)} groups not reproduced natively), {S['queries']} queries {S['time']:.1f}s, wall {time.time()-T0:.0f}s")
    for i, (c, (o, v, o2)) in enumerate(viol[:20]):
        rp = f"{EV}/{PID}.violation{i}.json"
        with open(rp, "w") as h: json.dump(dict(property=PID, fn=c["fn"], kind=c["kind"], id=c["id"], notes=c["notes"], values=v, native=o, output=o2[-2000:], solver_message=c["msg"], how="vreplay FN VALUES"), h, indent=1)
        print(f"VIOLATION property={PID} replay={rp}")
        print(f"   {c['fn']}#{c['id']} {c['kind']} {c['notes']} values {v} -> {o}: {o2[-200:].strip()} :: {c['msg'][:200]}")
    sys.exit(1 if viol else 0)
main()
