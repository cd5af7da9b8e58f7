#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]

Decides one property on /repo's current source:
  1. the symbolic build of the real code (engine/) is regenerated from /repo/src and its harness run;
  2. the Kani harnesses of the property, if any, are run on the real crate;
  3. every counterexample is replayed on the real crate, compiled by stock rustc;
  4. evidence/<ID>.json is rewritten.
exit 0: held on everything explored.  exit 1 + VIOLATION line: a counterexample that reproduces natively.
exit 2: no answer (build failure, solver unknown, cap reached, counterexample that does not reproduce).
"""
import json, os, re, shutil, subprocess, sys, time, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

REPO = "/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)
BUILD = os.path.join(HERE, "build")
DEADLINE = {"quick": 820, "thorough": 7200}


class NoAnswer(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -9, out


def tail(s, n=40):
    return "\n".join(s.splitlines()[-n:])


def cargo(crate, target):
    # Cargo.lock of the harness crates is committed: the build must not rewrite it
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, target))
    go = lambda env: sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(HERE, "harness", crate), env=env, timeout=600)
    rc, out = go(env)
    if rc != 0 and crate == "hsym":
        # a float variable cast to an integer only builds with every cast routed through a trait
        rc2, out2 = go(dict(env, FEM_CASTS="1"))
        rc, out = (rc2, out2) if rc2 == 0 else (rc, out)
    if rc != 0:
        raise NoAnswer("the %s harness does not build against /repo:\n%s" % (crate, tail(out)))
    return os.path.join(BUILD, target, "release", crate)


def load_known():
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                out.append(json.loads(line))
    return out


def is_known(known, pid, part, label):
    for k in known:
        if k["property"] == pid and k["part"] == part and re.fullmatch(k["label"], label):
            return k
    return None


def crashed(scratch):
    # the choices of every path that was being explored when the process went down
    try:
        part = open(os.path.join(scratch, "part")).read().strip()
    except OSError:
        return []
    out = []
    for n in sorted(os.listdir(scratch)):
        if not n.startswith("cur."):
            continue
        ch = []
        for line in open(os.path.join(scratch, n), errors="replace"):
            f = line.rstrip("\n").split("\t")
            if len(f) == 3 and f[1].isdigit() and f[2].isdigit():
                ch.append([f[0], int(f[1]), int(f[2])])
        out.append({"part": part, "label": "the operation comes to an end", "how": "no end", "choices": ch, "vars": {}})
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[pid]
    t0 = time.time()
    left = lambda: DEADLINE[tier] - (time.time() - t0)
    known = load_known()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="hx-", dir=shm)
    rc = 2
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "other"), "coverage": {"explanation": "no answer"}, "wall_s": 0.0, "violations": 0}
    try:
        rc = run(pid, spec, tier, seed, left, known, rdir, scratch, ev)
    except NoAnswer as e:
        print("NO-ANSWER property=%s %s" % (pid, e))
        ev["coverage"]["no_answer"] = str(e)[:2000]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        ev["wall_s"] = round(time.time() - t0, 2)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    sys.exit(rc)


def run(pid, spec, tier, seed, left, known, rdir, scratch, ev):
    env = dict(ENV, HX_SCRATCH=scratch, VERIF_TIER=tier, VERIF_SEED=str(seed), HX_THREADS=str(min(8, os.cpu_count() or 8)))
    parts, z3, problems, fails, skipped = [], "", [], [], []
    kani_proc = None
    if spec.get("kani"):
        import kani_run
        kani_proc = kani_run.start(HERE, BUILD, spec["kani"], tier, env)
    if spec.get("sym", True):
        exe = cargo("hsym", "hs")
        out = os.path.join(scratch, "out.json")
        secs = spec.get("seconds", {}).get(tier, 400 if tier == "quick" else 5400)
        rc, log = sh([exe, pid, out], env=dict(env, HX_SECONDS=str(int(min(secs, max(30, left() - 240))))), timeout=max(60, left() - 120))
        sys.stdout.write(log)
        if rc != 0 or not os.path.exists(out):
            # the code under test did not come back: crash, endless loop or memory; see whether it does so natively
            fails = crashed(scratch)
            if not fails:
                raise NoAnswer("symbolic run ended with %d\n%s" % (rc, tail(log)))
            problems.append("symbolic run ended with %d: %s" % (rc, tail(log, 3)))
        else:
            d = json.load(open(out))
            parts, z3 = d["parts"], d["z3"]
            if not parts:
                raise NoAnswer("no harness for this property")
        # parts of very many cells: a bonus on top of the bounds, not owed when the code takes too long for them
        for w in spec.get("vast", []):
            if fails or problems or left() < 240 or any(p["failures"] for p in parts):
                break
            vo = os.path.join(scratch, "vast.json")
            rc, log = sh([exe, w, vo], env=dict(env, HX_SECONDS="100", HX_PATH_S="100"), timeout=130)
            sys.stdout.write(log)
            if rc == 0 and os.path.exists(vo):
                got = json.load(open(vo))["parts"]
                parts += [p for p in got if p["failures"] or not p["truncated"]]
                skipped += ["%s: not finished within its time, not counted" % p["part"] for p in got if p["truncated"] and not p["failures"]]
            elif rc in (97, -9):
                skipped.append("%s: not finished within its time, not counted" % w)
            else:
                fails = crashed(scratch)
                problems.append("%s ended with %d: %s" % (w, rc, tail(log, 3)))
            if os.path.exists(vo):
                os.remove(vo)
        for p in parts:
            if p["inconclusive"]:
                problems.append("%s: inconclusive: %s" % (p["part"], "; ".join(p["inconclusive"][:3])))
            if p["truncated"]:
                problems.append("%s: exploration stopped at its cap" % p["part"])
            # a feasibility query without an answer keeps the branch: sound, but a part that mostly guesses is no answer
            if p["feas_unknown"] * 10 > p["feas_queries"] + 10:
                problems.append("%s: %d of %d feasibility queries unknown" % (p["part"], p["feas_unknown"], p["feas_queries"]))
            fails += p["failures"]
        # vacuity: every expected witness label must have been reached
        if not fails:
            missing = [k for k in spec.get("reach", {}) if k not in [p["part"] for p in parts]]
            if missing:
                problems.append("parts not run: %s" % missing)
            for p in parts:
                if p["paths"] == 0 or p["obligations"] == 0:
                    problems.append("%s: vacuous (paths %d, obligations %d)" % (p["part"], p["paths"], p["obligations"]))
                for w in spec.get("reach", {}).get(p["part"], []):
                    if not p["reach"].get(w):
                        problems.append("%s: witness '%s' never reached" % (p["part"], w))
    kres = None
    if kani_proc:
        kres = kani_run.finish(kani_proc, max(60, left() - 100), rdir, pid)
        problems += kres["problems"]
    # ---- replay
    violations, known_hit, unrepro = [], {}, []
    if fails:
        real = cargo("hreal", "hr")
        groups = {}
        for f in fails:
            groups.setdefault((f["part"], f["label"]), []).append(f)
        for (part, label), fs in sorted(groups.items()):
            ok = None
            for i, f in enumerate(fs[:8]):
                for _ in range(3 if "schedule" in str(f["choices"]) else 8 if pid == "D05" else 1):
                    path = os.path.join(rdir, "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9]+", "-", part + "-" + label)[:80]))
                    with open(path, "w") as fh:
                        json.dump(f, fh, indent=1)
                    cmd = 'ulimit -v 8000000; ulimit -c 0; exec "$0" "$1"'
                    rc, log = sh(["bash", "-c", cmd, real, path], env=env, timeout=25)
                    if rc == 1 or rc in (-6, -11, 134, 139) or (rc == -9 and "no end" in f["how"]):
                        ok = (path, log.strip().splitlines()[:3])
                        break
                if ok or left() < 60:
                    break
            k = is_known(known, pid, part, label)
            if ok and k:
                known_hit.setdefault(k["what"], []).append(label)
            elif ok:
                violations.append((part, label, ok))
            else:
                unrepro.append("%s / %s" % (part, label))
    if kres:
        for v in kres["violations"]:
            violations.append(("kani", v["label"], (v["path"], v["log"])))
        unrepro += kres["unreproduced"]
    for what in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for part, label, (path, log) in violations:
        print("%s: %s" % (part, label))
        for l in log:
            print("   native: " + l[:300])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    # ---- evidence
    tot = lambda k: sum(p[k] for p in parts)
    cov = {
        "explanation": spec["explain"],
        "functions_encoded": spec["encoded"],
        "bounds": spec["bounds"],
        "outside": spec["outside"],
        "skipped": skipped,
        "solver": z3,
        "paths": tot("paths"),
        "infeasible_paths": tot("infeasible"),
        "decisions": tot("decisions"),
        "forks": tot("forks"),
        "feasibility_queries": tot("feas_queries"),
        "feasibility_unknown_branch_kept": tot("feas_unknown"),
        "obligations": tot("obligations"),
        "obligations_decided_by_the_path": tot("obl_path"),
        "obligations_by_normal_form": tot("obl_normal_form"),
        "obligations_by_solver": tot("obl_solver"),
        "obligation_queries": tot("obl_queries"),
        "path_condition_witnesses_sat": tot("witness_sat"),
        "solver_s": round(sum(p["solver_s"] for p in parts), 3),
        "parts": [{k: p[k] for k in ("part", "paths", "obligations", "decisions", "max_path_decisions", "wall_s", "reach", "labels")} for p in parts],
        "samples": [s for p in parts for s in p["samples"][:2]][:6],
        "known_findings_seen": sorted(known_hit),
        "violations": ["%s: %s (%s)" % (a, b, c[0]) for a, b, c in violations],
        "not_reproduced": unrepro,
        "problems": problems,
    }
    if kres:
        cov["kani"] = kres["summary"]
    ev["coverage"] = cov
    ev["assumptions"] = spec.get("assumptions", [])
    ev["violations"] = len(violations)
    print("%s: %d paths, %d obligations (%d path, %d normal form, %d solver), %d queries, %.1fs solver" % (pid, cov["paths"], cov["obligations"], cov["obligations_decided_by_the_path"], cov["obligations_by_normal_form"], cov["obligations_by_solver"], cov["feasibility_queries"] + cov["obligation_queries"], cov["solver_s"]))
    if violations:
        return 1
    if unrepro and any("no end" in u for u in unrepro):
        raise NoAnswer("; ".join(problems) or "; ".join(unrepro))
    if unrepro:
        raise NoAnswer("counterexample does not reproduce on the real code: " + "; ".join(unrepro))
    if problems:
        raise NoAnswer("; ".join(problems))
    return 0


if __name__ == "__main__":
    main()
