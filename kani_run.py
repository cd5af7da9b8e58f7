"""Kani (CBMC) over the integer kernels of the real crate; counterexamples are replayed natively (kani/src/bin/kreal.rs)."""
import json, os, re, subprocess, threading, time


def _sh(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -9, out


def _env(env, target):
    e = dict(env, CARGO_TARGET_DIR=target)
    return e


def _one(here, build, name, env, timeout):
    crate = os.path.join(here, "kani")
    e = _env(env, os.path.join(build, "kk"))
    e.pop("RUSTUP_TOOLCHAIN", None)
    t = time.time()
    rc, out = _sh(["cargo", "kani", "--lib", "--exact", "--harness", "proofs::" + name, "-Z", "concrete-playback", "--concrete-playback=print"], crate, e, timeout)
    r = {"harness": name, "wall_s": round(time.time() - t, 2), "problem": None, "fails": [], "checks": 0, "covers": ""}
    m = re.search(r"\*\* (\d+) of (\d+) failed", out)
    r["checks"] = int(m.group(2)) if m else 0
    m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", out)
    covers = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    r["covers"] = "%d of %d" % covers
    m = re.search(r"Verification Time: ([0-9.]+)s", out)
    r["solver_s"] = round(float(m.group(1)), 3) if m else 0.0
    if "VERIFICATION:- SUCCESSFUL" in out and rc == 0:
        if covers[1] == 0 or covers[0] < covers[1]:
            r["problem"] = "kani %s: witness not reached (%s)" % (name, r["covers"])
        return r
    if "VERIFICATION:- FAILED" not in out:
        r["problem"] = "kani %s: no verdict (status %d)\n%s" % (name, rc, "\n".join(out.splitlines()[-15:]))
        return r
    for blk in out.split("Concrete playback unit test for")[1:]:
        k = re.search(r"Check for `([a-z_]+)`: (.*)", blk)
        if not k:
            continue
        # Kani prints inputs that serve several checks once, under the first of them, which may be a cover
        label = None if k.group(1) == "cover" else k.group(2).strip().strip('"').replace('\\"', "")
        vals = []
        for v in re.findall(r"^\s*vec!\[([0-9, ]*)\],?\s*$", blk, re.M):
            vals.append("".join("%02x" % int(x) for x in v.split(",") if x.strip()))
        r["fails"].append({"label": label, "values": vals})
    named = [x.strip().strip('"') for x in re.findall(r"Failed Checks: (.*)", out)]
    r["fails"].sort(key=lambda f: f["label"] is None)
    for f in r["fails"]:
        f["label"] = f["label"] or (named or ["?"])[0]
    if not r["fails"]:
        r["problem"] = "kani %s: failed without a counterexample: %s" % (name, "; ".join(re.findall(r"Failed Checks: (.*)", out))[:300])
    return r


def start(here, build, names, tier, env):
    box = {"here": here, "build": build, "env": env, "res": [], "names": names}
    cap = 700 if tier == "quick" else 3600

    def work():
        for n in names:
            box["res"].append(_one(here, build, n, env, cap))

    box["t"] = threading.Thread(target=work, daemon=True)
    box["t"].start()
    return box


def finish(box, timeout, rdir, pid):
    box["t"].join(timeout)
    out = {"problems": [], "violations": [], "unreproduced": [], "summary": []}
    if box["t"].is_alive():
        out["problems"].append("kani did not finish in time")
    for r in list(box["res"]):
        if r["problem"]:
            out["problems"].append(r["problem"])
        out["summary"].append({k: r[k] for k in ("harness", "checks", "covers", "solver_s", "wall_s")})
        if not r["fails"]:
            continue
        e = _env(box["env"], os.path.join(box["build"], "kr"))
        rc, log = _sh(["cargo", "build", "--offline", "--bin", "kreal"], os.path.join(box["here"], "kani"), e, 400)
        if rc != 0:
            out["problems"].append("native replay does not build: " + log[-500:])
            continue
        exe = os.path.join(box["build"], "kr", "debug", "kreal")
        done = set()
        for f in r["fails"]:
            if f["label"] in done:
                continue
            rc, log = _sh([exe, r["harness"]] + f["values"], "/", dict(e, RUST_BACKTRACE="0"), 60)
            path = os.path.join(rdir, "%s-kani-%s.json" % (pid, r["harness"]))
            with open(path, "w") as fh:
                json.dump(dict(f, harness=r["harness"], how="kreal %s %s" % (r["harness"], " ".join(f["values"]))), fh, indent=1)
            if rc == 1:
                done.add(f["label"])
                out["violations"].append({"label": "%s: %s" % (r["harness"], f["label"]), "path": path, "log": log.strip().splitlines()[:3]})
            else:
                out["unreproduced"].append("kani %s: %s" % (r["harness"], f["label"]))
        if done:
            # one reproduced counterexample of this harness is enough
            out["unreproduced"] = [u for u in out["unreproduced"] if not u.startswith("kani %s:" % r["harness"])]
    return out
