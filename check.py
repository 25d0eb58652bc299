#!/usr/bin/env python3
"""check.py PROP [quick|thorough]      decide one property by symbolic execution of /repo's code
   check.py --setup                     build everything the checks need
   check.py --replay FILE               run a reported counterexample against the real code

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken, replayed natively.
Exit 2: the check could not decide (engine limit, build failure, encoding mismatch)."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DYN_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
sys.path.insert(0, HERE)
from props import PROPS, CFG_GUARD  # noqa: E402

HARD_S = 840  # the whole check has to end before 900 s


class Undecided(Exception):
    pass


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            fs = [root]
        else:
            fs = sorted(
                os.path.join(d, f)
                for d, ds, ff in os.walk(root)
                if "/target" not in d and "/.git" not in d
                for f in ff
            )
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:16]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=kw.pop("env", ENV), **kw)


def cargo(args, cwd, extra_env=None, what=""):
    env = dict(ENV, **(extra_env or {}))
    r = run(["cargo"] + args, cwd=cwd, env=env)
    if r.returncode != 0:
        errs = [x for x in re.split(r"\n\n", r.stderr) if re.search(r"^error", x, re.M)]
        raise Undecided("build of %s failed:\n%s" % (what, "\n\n".join(errs)[:6000] or r.stderr[-2000:]))


def build_engine():
    d = os.path.join(BUILD, "engine-" + tree_hash(os.path.join(HERE, "engine/src"), os.path.join(HERE, "engine/Cargo.toml")))
    exe = os.path.join(d, "symex")
    if not os.path.exists(exe):
        cargo(["build", "--release", "--offline", "--target-dir", d + "/t"], os.path.join(HERE, "engine"), what="engine")
        shutil.copy(d + "/t/release/symex", exe + ".tmp")
        os.rename(exe + ".tmp", exe)
        for x in os.listdir(BUILD):
            if x.startswith("engine-") and os.path.join(BUILD, x) != d:
                shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
        shutil.rmtree(d + "/t", ignore_errors=True)
    return exe


def find_ll(d):
    best = None
    for root, _, ff in os.walk(d):
        for f in ff:
            if f.startswith("vharness") and f.endswith(".ll"):
                p = os.path.join(root, f)
                if best is None or os.path.getsize(p) > os.path.getsize(best):
                    best = p
    if best is None:
        raise Undecided("no IR produced")
    return best


def grammar_text(d):
    """the grammar of grammars as published in the source (a raw string), else the copy kept here"""
    t = None
    for root, _, ff in sorted(os.walk(REPO + "/src")):
        for f in sorted(ff):
            if f.endswith(".rs") and "test" not in f:
                for m in re.finditer(r'r(#+)"(.*?)"\1', open(os.path.join(root, f), encoding="utf-8").read(), re.S):
                    x = m.group(2)
                    if t is None and all(re.search(r"^\s*%s\s+=" % n, x, re.M) for n in ("grammar", "rule", "mbetween", "hex_char", "line_comment")):
                        t = x
    p = os.path.join(d, "grammar.txt")
    if t is None:
        shutil.copy(os.path.join(HERE, "harness/grammar.txt"), p)
    else:
        open(p, "w", encoding="utf-8").write(t)
    return p


def build_harness():
    """IR, dev replay and release replay of /repo's current tree.  Returns the directory."""
    key = tree_hash(REPO + "/src", REPO + "/Cargo.toml", os.path.join(HERE, "harness/src"), os.path.join(HERE, "harness/Cargo.toml"), os.path.join(HERE, "harness/grammar.txt"))
    d = os.path.join(BUILD, "h-" + key)
    if os.path.exists(d + "/ok"):
        os.utime(d)
        return d
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    h = os.path.join(HERE, "harness")
    if REPO != "/repo":  # development only
        h = os.path.join(d, "src")
        shutil.copytree(os.path.join(HERE, "harness"), h, ignore=shutil.ignore_patterns("target"))
        p = h + "/Cargo.toml"
        s = open(p).read().replace('"/repo"', '"%s"' % REPO)
        open(p, "w").write(s)
    gram = {"DYN_GRAMMAR": grammar_text(d)}
    guard = "--cfg %s" % CFG_GUARD if CFG_GUARD else ""

    def ir():
        cargo(
            ["rustc", "--offline", "--lib", "--crate-type", "staticlib", "--profile", "ir", "--target-dir", d + "/ir", "--", "--emit=llvm-ir"],
            h,
            dict(gram, RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp " + guard),
            "IR",
        )
        os.rename(find_ll(d + "/ir"), d + "/program.ll")
        shutil.rmtree(d + "/ir", ignore_errors=True)

    def nat(profile):
        def f():
            fl = ["--release"] if profile == "release" else []
            cargo(["build", "--offline", "--bin", "replay", "--target-dir", d + "/" + profile[0]] + fl, h, dict(gram, RUSTFLAGS=guard), "replay (%s)" % profile)
            sub = "release" if profile == "release" else "debug"
            os.rename(d + "/%s/%s/replay" % (profile[0], sub), d + "/replay-" + profile)
            shutil.rmtree(d + "/" + profile[0], ignore_errors=True)

        return f

    with ThreadPoolExecutor(3) as ex:
        for f in [ex.submit(ir), ex.submit(nat("dev")), ex.submit(nat("release"))]:
            f.result()
    open(d + "/ok", "w").write("ok")
    # keep the newest few
    olds = sorted((x for x in os.listdir(BUILD) if x.startswith("h-")), key=lambda x: os.path.getmtime(os.path.join(BUILD, x)))
    for x in olds[:-4]:
        shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
    return d


def build_all():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(2) as ex:
            a, b = ex.submit(build_engine), ex.submit(build_harness)
            return a.result(), b.result()


def native(hd, profile, entry, params, inputs_list, timeout=30, verbose=False):
    """replay the given assignments; returns (output, ended: 'ok' | 'timeout' | 'crash N')"""
    import resource, tempfile

    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    with tempfile.NamedTemporaryFile("w", suffix=".in", delete=True) as f:
        for i in inputs_list:
            f.write(" ".join(map(str, i)) + "\n")
        f.flush()
        p = list(params) + [0] * (7 - len(params)) + [1 if verbose else 0]
        try:
            r = subprocess.run(
                [os.path.join(hd, "replay-" + profile), entry, f.name] + [str(x) for x in p],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=lim, env=ENV,
            )
            out = r.stdout.decode("utf-8", "replace")
            return out, "ok" if r.returncode == 0 else "crash %d" % r.returncode
        except subprocess.TimeoutExpired as e:
            return (e.stdout or b"").decode("utf-8", "replace"), "timeout"


def confirm(hd, entry, params, inputs):
    """does the real code show the failure on this input?  -> (profile, how, output) or None"""
    for profile in ("release", "dev"):
        out, ended = native(hd, profile, entry, params, [inputs], timeout=30, verbose=True)
        m = re.search(r"^(CHECK \d+|PANIC .*)$", out, re.M)
        if "desync" in out and not m:
            continue
        if ended == "timeout":
            return profile, "does not terminate within 30 s", out
        if ended.startswith("crash"):
            return profile, "process died (%s)" % ended, out
        if m:
            return profile, m.group(1), out
    return None


def confirm_history(hd, entry, params, history):
    """does the real code fail on the last input when the others came before it in the same process?  Twice, to be sure"""
    for _ in range(2):
        out, ended = native(hd, "release", entry, params, history, timeout=120)
        res = re.findall(r"^RESULT (\S+) (\S+) (\S+) (\d+)$", out, re.M)
        if ended != "ok" or len(res) != len(history) or (res[-1][1] == "ok" and res[-1][3] == "0"):
            return None
    return "release", "fails after the %d inputs before it in the same process" % (len(history) - 1), out


def load_known():
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) inputs=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def cvc5_cross(smt, budget):
    """re-decide dumped queries with cvc5"""
    agree = dis = unk = 0
    t0 = time.time()
    for q in smt:
        if time.time() - t0 > budget:
            break
        r = run(["cvc5", "--lang=smt2", "--tlimit=20000", "-"], input=q["text"])
        a = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "?"
        if a in ("sat", "unsat"):
            if (a == "sat") == q["sat"]:
                agree += 1
            else:
                dis += 1
        else:
            unk += 1
    return {"agree": agree, "disagree": dis, "undecided": unk, "s": round(time.time() - t0, 1)}


def check(prop, tier):
    t0 = time.time()
    spec = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    exe, hd = build_all()
    build_s = time.time() - t0
    ev_path = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], instructions=0, checks_discharged=0,
               symbolic_checks=0, queries=0, queries_sat=0, queries_unsat=0, query_cache_hits=0, solver_s=0.0, engine_s=0.0,
               assume_pruned_paths=0, functions_encoded=[], harnesses=[])
    funcs = set()
    problems, viols = [], []
    entries = spec["entries"]
    for e in entries:
        if tier == "quick" and e.get("thorough_only"):
            continue
        name = e.get("run", e["h"])
        params = e.get("thorough", e.get("quick", [])) if tier == "thorough" else e.get("quick", [])
        left = HARD_S - (time.time() - t0)
        if left < 15:
            problems.append("%s: no time left" % name)
            break
        lim = min(left - 10, e.get("time", 400))
        keys = (12345 + 7919 * seed, 67890 + 104729 * seed)
        cmd = [exe, hd + "/program.ll", "H_" + name, "time=%d" % lim, "key0=%d" % keys[0], "key1=%d" % keys[1],
               "max_ins=%d" % e.get("max_ins", 60_000_000), "sample=%d" % e.get("sample", 97), "sample_max=%d" % e.get("sample_max", 60),
               "max_viol=%d" % e.get("max_viol", 6), "dump=%d" % (40 if tier == "thorough" else 0)]
        cmd += ["p%d=%d" % (i, p) for i, p in enumerate(params)]
        r = run(cmd)
        try:
            j = json.loads(r.stdout)
        except Exception:
            problems.append("%s: engine output unreadable (rc %s) %s" % (name, r.returncode, (r.stdout + r.stderr)[-500:]))
            continue
        if "fatal" in j:
            problems.append("%s: %s" % (name, j["fatal"]))
            continue
        # the need for stack is estimated: where the real code gets by, go on without that limit
        if any(v["kind"] == "stack overflow" for v in j["violations"]) and not any(
                v["kind"] == "stack overflow" and confirm(hd, name, params, v["inputs"]) for v in j["violations"]):
            r = run(cmd + ["max_stack=%d" % (1 << 20)])
            try:
                j = json.loads(r.stdout)
            except Exception:
                problems.append("%s: engine output unreadable (rc %s) %s" % (name, r.returncode, (r.stdout + r.stderr)[-500:]))
                continue
        cov["states"] += j["paths"]
        cov["transitions"] += j["forks"]
        for a, b in (("instructions", "instructions"), ("checks_discharged", "checks"), ("symbolic_checks", "symbolic_checks"),
                     ("queries", "queries"), ("queries_sat", "sat"), ("queries_unsat", "unsat"), ("query_cache_hits", "cache_hits"),
                     ("assume_pruned_paths", "assume_killed"), ("solver_s", "solver_s"), ("engine_s", "wall_s")):
            cov[a] = round(cov[a] + j[b], 2)
        funcs.update(f for f in j["functions"] if "dynparser" in f and "vharness" not in f.split("dynparser")[0])
        h = {"harness": name, "bounds": e["bounds"], "params": params, "paths": j["paths"], "completed": j["done"],
             "assume_pruned": j["assume_killed"], "wall_s": j["wall_s"], "reach": j["reach"], "checks_by_id": j["checks_by_id"],
             "max_path_instructions": j["max_path_instructions"], "max_stack_estimate": j["max_stack"]}
        if j["violations"]:
            for v in j["violations"]:
                viols.append((e, params, v))
        if j["fatal_list"]:
            problems.append("%s: %s" % (name, "; ".join(j["fatal_list"][:3])))
        if not j["violations"]:
            if j["timeout"]:
                problems.append("%s: not finished within %d s" % (name, lim))
            elif not j["fatal_list"]:
                missing = [x for x in e.get("reach", []) if str(x) not in j["reach"]]
                if missing:
                    problems.append("%s: vacuous, never reached %s" % (name, missing))
                if j["checks"] == 0 and not e.get("nocheck"):
                    problems.append("%s: no assertion evaluated" % name)
        # the encoding against the real code: same inputs, same observable digest
        if j["samples"]:
            bad = 0
            for profile in ("release",) if tier == "quick" else ("release", "dev"):
                out, ended = native(hd, profile, name, params, [s["inputs"] for s in j["samples"]], timeout=120)
                res = re.findall(r"^RESULT (\S+) (\S+) (\S+) (\d+)$", out, re.M)
                if ended.startswith("crash") and len(res) < len(j["samples"]):
                    viols.append((e, params, {"kind": "native run of a path the engine passed", "inputs": j["samples"][len(res)]["inputs"], "stack": []}))
                    break
                if ended != "ok" or len(res) != len(j["samples"]):
                    problems.append("%s: native run of sampled paths ended with %s" % (name, ended))
                    break
                for i, (s, q) in enumerate(zip(j["samples"], res)):
                    if q[1] != "ok" or q[3] != "0":
                        viols.append((e, params, {"kind": "native run of a path the engine passed", "inputs": s["inputs"], "stack": [],
                                                  "history": [x["inputs"] for x in j["samples"][: i + 1]]}))
                        bad += 1
                    elif q[2] != "sync" or q[0] != s["digest"]:
                        problems.append("%s: encoding differs from native run on %s" % (name, s["inputs"]))
                        bad += 1
                        break
            h["validated"] = len(j["samples"]) - bad
            cov["traces_validated_against_impl"] += h["validated"]
            out, _ = native(hd, "release", name, params, [j["samples"][len(j["samples"]) // 2]["inputs"]], timeout=30, verbose=True)
            notes = [l[5:] for l in out.splitlines() if l.startswith("NOTE ")]
            cov["samples"].append({"harness": name, "inputs": j["samples"][len(j["samples"]) // 2]["inputs"], "case": notes[:8]})
        if tier == "thorough" and j.get("smt"):
            h["cvc5"] = cvc5_cross(j["smt"], 20)
            if h["cvc5"]["disagree"]:
                problems.append("%s: cvc5 disagrees with z3" % name)
        cov["harnesses"].append(h)
        if viols:
            break
    cov["functions_encoded"] = sorted(funcs)
    cov["exhaustive"] = not problems and not viols

    rc, confirmed, known = 0, 0, load_known()
    for e, params, v in viols:
        c = confirm(hd, e.get("run", e["h"]), params, v["inputs"])
        if not c and v.get("history"):
            c = confirm_history(hd, e.get("run", e["h"]), params, v["history"])
        if not c:
            problems.append("%s: counterexample %s %s does not reproduce natively" % (e["h"], v["kind"], v["inputs"]))
            continue
        key = ",".join(map(str, v["inputs"]))
        k = [x for x in known if x[0] == prop and x[1] == e.get("run", e["h"]) and x[2] == key]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0][3]))
            continue
        confirmed += 1
        if confirmed > 3:
            continue
        rd = os.path.join(HERE, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%s-%d.json" % (prop, e["h"], confirmed))
        json.dump({"property": prop, "harness": e.get("run", e["h"]), "params": params, "inputs": v["inputs"], "history": v.get("history"), "engine": v["kind"], "stack": v["stack"][:12],
                   "native_profile": c[0], "native": c[1], "native_output": c[2][-4000:], "assertion": spec.get("ids", {}).get(str(v["kind"])),
                   "rerun": "python3 %s/check.py --replay %s" % (HERE, rp)}, open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("  %s: %s; native (%s): %s" % (e["h"], v["kind"], c[0], c[1]))
        for l in c[2].splitlines():
            if l.startswith("NOTE "):
                print("   ", l[5:])
        rc = 1
    if rc == 0 and problems:
        rc = 2
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 1), "violations": confirmed}
    cov["build_s"] = round(build_s, 1)
    cov["solver_s"] = round(cov["solver_s"], 2)
    if problems:
        cov["problems"] = problems[:20]
    json.dump(ev, open(ev_path, "w"), indent=1)
    for p in problems[:5]:
        print("PROBLEM", p)
    print("%s %s: rc=%d paths=%d forks=%d instr=%.1fM checks=%d queries=%d solver=%.1fs engine=%.1fs build=%.1fs validated=%d wall=%.1fs" % (
        prop, tier, rc, cov["states"], cov["transitions"], cov["instructions"] / 1e6, cov["checks_discharged"], cov["queries"],
        cov["solver_s"], cov["engine_s"], build_s, cov["traces_validated_against_impl"], time.time() - t0))
    return rc


COMMON_ASSUMPTIONS = [
    "the claim is bounded: it covers every value of the symbolic inputs within the bounds listed per harness, nothing outside",
    "rustc/LLVM lower the source to IR faithfully; the symbolic executor and Z3 are trusted (sampled paths are re-run natively and compared)",
    "allocation never fails; HashMap's random keys are fixed per run (derived from the seed)",
    "Debug formatting of symbolic characters and strings inside error descriptions is stubbed; those texts are not compared",
]


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            build_all()
            print("built")
            return 0
        if a[:1] == ["--replay"]:
            j = json.load(open(a[1]))
            _, hd = build_all()
            c = confirm(hd, j["harness"], j["params"], j["inputs"]) or (j.get("history") and confirm_history(hd, j["harness"], j["params"], j["history"]))
            print(c[2] if c else "does not reproduce")
            return 1 if c else 0
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(a[0], tier)
    except Undecided as e:
        print("PROBLEM", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
