#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo.

  1. TLC explores the property's specification exhaustively for small constants
     (design check, and generation of the scenarios some drivers replay);
  2. the conformance driver (harness/, built from /repo's working tree) runs the
     real code and records what it did as a trace, one JSON object per line;
  3. TLC evaluates the recorded trace against the specification: the lines which
     no action of the specification explains are the violations.

Exit 0: held; 1: violation (with VIOLATION lines); 2: the check itself failed.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
CODE = "github.com/si-co/vpir-code"
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
EVID = os.path.join(HERE, "evidence")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

T0 = time.time()


class Broken(Exception):
    """the check itself failed: no verdict"""


def log(*a):
    print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)


def go_env():
    env = dict(os.environ)
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"],
                             capture_output=True, env=env).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                env[k.decode()] = v.decode()
    env.setdefault("GOTOOLCHAIN", "local")
    env["GOPROXY"] = "off"
    env["GOFLAGS"] = "-mod=mod"
    env.setdefault("CGO_ENABLED", "1")
    env["TZ"] = "UTC"
    return env


def run(cmd, env, cwd, timeout, stdout=None, dump=False):
    """runs cmd in its own session, returns (rc, output); rc None on timeout.
    With dump, a Go program that is late says where it is"""
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=f, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
            if dump:
                p.send_signal(signal.SIGQUIT)
                try:
                    p.wait(10)
                except subprocess.TimeoutExpired:
                    pass
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        f.seek(0)
        return rc, f.read().decode("utf8", "replace")


def build(env, work, what):
    """builds the driver, and the programs of /repo the driver runs"""
    src = os.path.join(work, "harness")
    shutil.copytree(os.path.join(HERE, "harness"), src)
    # the driver is a module of its own, with the dependencies of the repository
    gm = open(os.path.join(REPO, "go.mod")).read()
    gm = re.sub(r"(?m)^module .*$", "module verif.local/harness", gm, count=1)
    gm += "\nrequire github.com/si-co/vpir-code v0.0.0\nreplace github.com/si-co/vpir-code => %s\n" % REPO
    open(os.path.join(src, "go.mod"), "w").write(gm)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(src, "go.sum"))
    procs = []
    # never touch go.mod and go.sum of the repository
    renv = dict(env, GOFLAGS="-mod=readonly")
    def go(args, cwd):
        procs.append((args, subprocess.Popen(["go"] + args, env=env if cwd == src else renv, cwd=cwd, stdin=subprocess.DEVNULL,
                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    go(["build", "-o", os.path.join(work, "vh"), "."], src)
    for name, (pkg, files) in what.items():
        ov = {"Replace": {os.path.join(REPO, pkg, "zz_verif_" + os.path.basename(f)): os.path.join(HERE, "overlay", f)
                          for f in files}}
        ovf = os.path.join(work, f"overlay-{name}.json")
        json.dump(ov, open(ovf, "w"))
        go(["build", "-overlay", ovf, "-o", os.path.join(work, name), "./" + pkg], REPO)
    for args, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise Broken("go %s failed:\n%s" % (" ".join(args), out.decode("utf8", "replace")[-4000:]))


def tlc(module, cfg, env, work, timeout, workers=4, extra=(), mem="6g"):
    meta = tempfile.mkdtemp(dir=work)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss64m", "-cp", CP, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-nowarning", "-workers", str(workers), "-config", cfg, *extra, module]
    rc, out = run(cmd, env, SPEC, timeout)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, out, gen, dist


def known_findings(prop):
    res = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == prop:
                    res.append(d)
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = CHECKS[prop]
    os.makedirs(EVID, exist_ok=True)
    evf = os.path.join(EVID, prop + ".json")
    if os.path.exists(evf):
        os.unlink(evf)
    rdir = os.path.join(EVID, "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        return decide(prop, c, tier, seed, evf, rdir, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, c, tier, seed, evf, rdir, work):
    env = go_env()
    env["VERIF_SEED"] = str(seed)
    env["VERIF_TIER"] = tier
    env["VERIF_WORK"] = work
    log(f"{prop} tier={tier} seed={seed}: building")
    build(env, work, c.get("programs", {}))
    log("built")

    # 1. the specification, exhaustively, for small constants
    states = trans = 0
    models = []
    for m in c["models"]:
        if m.get("tier", "quick") == "thorough" and tier != "thorough":
            continue
        e = dict(env)
        if "scenarios" in m:
            e["VERIF_SCEN"] = os.path.join(work, m["scenarios"])
        rc, out, gen, dist = tlc(m["module"], m["cfg"], e, work, m.get("timeout", 300 if tier == "quick" else 3000),
                                 extra=m.get("extra", ()), workers=m.get("workers", 4))
        if "refuted" in m:
            # a defective variant of the design, which the properties have to exclude
            if not re.search(m["refuted"], out):
                raise Broken(f"TLC {m['module']} {m['cfg']}: not refuted, rc={rc}\n{excerpt(out)}")
            models.append(dict(module=m["module"], config=m["cfg"], refuted=m["refuted"]))
            continue
        if rc != 0:
            raise Broken(f"TLC {m['module']} {m['cfg']} rc={rc}\n{excerpt(out)}")
        states += dist
        trans += gen
        models.append(dict(module=m["module"], config=m["cfg"], distinct_states=dist, states_generated=gen))
        log(f"model {m['module']}/{m['cfg']}: {dist} distinct states, {gen} generated")

    # 2. the real code
    violations = []
    traced = 0
    samples = []
    events = 0
    kinds = {}
    for d in c["drivers"]:
        if d.get("tier", "quick") == "thorough" and tier != "thorough":
            continue
        trace = os.path.join(work, f"trace-{d['cmd']}.ndjson")
        open(trace, "w").close()
        cmd = [os.path.join(work, "vh"), d["cmd"], "-seed", str(seed), "-tier", tier, "-out", trace, "-work", work]
        tmo = d.get("timeout", 480 if tier == "quick" else 3600)
        rc, out = run(cmd, env, work, tmo, dump=True)
        late = rc is None
        if late and time.time() - os.path.getmtime(trace) > 120 and CODE + "/lib/" in out:
            # one call into the code under test that does not come back: an event no specification allows
            log(f"driver {d['cmd']} does not come back\n{out[:3000]}")
            with open(trace, "a") as f:
                f.write("\n" + json.dumps({"ev": "hang", "msg": out[-400:]}) + "\n")
        elif rc == 3 or "VERIF-DRIVER-ERROR" in out:
            raise Broken(f"driver {d['cmd']} failed:\n{out[-4000:]}")
        elif late:
            # what was recorded so far may already show why
            log(f"driver {d['cmd']} timed out after {tmo}s\n{out[-1500:]}")
        elif rc != 0:
            if rc < 0:
                raise Broken(f"driver {d['cmd']} killed by signal {-rc}\n{out[-3000:]}")
            # the code under test terminated the process: an event no specification allows
            log(f"driver terminated by the code under test, rc={rc}:\n{out[-2500:]}")
            with open(trace, "a") as f:
                f.write("\n" + json.dumps({"ev": "crash", "rc": rc, "msg": out[-400:]}) + "\n")
        lines = [x for x in open(trace).read().split("\n") if x.strip()]
        # a line cut by the termination of the process
        good = []
        for x in lines:
            try:
                good.append((x, json.loads(x)))
            except ValueError:
                if rc == 0 and not late:
                    raise Broken("malformed trace line: " + x[:200])
        if not good:
            raise Broken(f"driver {d['cmd']}: empty trace\n{out[-2000:]}")
        open(trace, "w").write("\n".join(x for x, _ in good) + "\n")
        # segments
        seg_of, seg = [], -1
        starts = []
        for i, (_, e) in enumerate(good):
            if e["ev"] == "begin":
                seg += 1
                starts.append(i)
            seg_of.append(seg)
            kinds[e["ev"]] = kinds.get(e["ev"], 0) + 1
        events += len(good)
        log(f"driver {d['cmd']}: {len(good)} events in {len(starts)} traces")

        if os.environ.get("VERIF_KEEP"):
            shutil.copy(trace, os.path.join(os.environ["VERIF_KEEP"], f"{prop}-{d['cmd']}.ndjson"))

        # 3. conformance of the trace to the specification
        e = dict(env)
        e["VERIF_TRACE"] = trace
        tmo = d.get("trace_timeout", 500 if tier == "quick" else 3000)
        for attempt in range(6):
            rc, out, gen, dist = tlc(d["trace"], d.get("cfg", d["trace"] + ".cfg"), e, work, tmo, workers=1)
            at = re.findall(r"(?m)^/\\ l = (\d+)", out)
            if rc not in (75, 76, 255) or not at or "Error:" not in out:
                break
            # the specification is not defined for this event: it does not explain it
            n = int(at[-1]) - 1
            log(f"event {n+1} cannot be evaluated: {good[n][0][:300]}\n" + excerpt(out)[:600])
            good[n] = (json.dumps({"ev": "undefined", "name": good[n][1].get("name", ""), "was": clip(good[n][1])}), good[n][1])
            open(trace, "w").write("\n".join(x for x, _ in good) + "\n")
        bad = sorted({int(x) for x in re.findall(r'<<"BAD", (\d+)', out)})
        done = re.search(r'<<"DONE", (\d+)>>', out)
        if rc != 0 or not done or int(done.group(1)) != len(good):
            raise Broken(f"TLC {d['trace']} rc={rc}\n{excerpt(out)}")
        states += dist
        trans += gen
        traced += len(starts)
        log(f"trace {d['trace']}: {len(good)} events checked, {len(bad)} not explained by the specification")
        for s in starts[:: max(1, len(starts) // 2)][:2]:
            samples.append({"driver": d["cmd"], "events": [clip(x[1]) for x in good[s:s + 4]]})
        for b in bad:
            i = b - 1
            s = starts[seg_of[i]] if seg_of[i] >= 0 else 0
            name = good[s][1].get("name", "")
            violations.append((d, name, good, s, i))
        if late and not bad:
            raise Broken(f"driver {d['cmd']} timed out after {tmo}s")

    # 4. report
    known = known_findings(prop)
    shown, suppressed, seen = 0, 0, set()
    for d, name, good, s, i in violations:
        ev = good[i][1]
        k = next((k for k in known if re.fullmatch(k["trace"], name) and
                  all(ev.get(f) == v for f, v in k.get("event", {}).items())), None)
        if k:
            suppressed += 1
            if k["what"] not in seen:
                seen.add(k["what"])
                print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
            continue
        shown += 1
        if shown <= 10:
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, f"{d['cmd']}-{i+1}.ndjson")
            with open(rp, "w") as f:
                f.write(json.dumps({"ev": "replay", "property": prop, "driver": d["cmd"], "trace": name, "seed": seed,
                                    "tier": tier, "rejected_line": i + 1, "spec": d["trace"]}) + "\n")
                for x, _ in good[max(s, i - 40):i + 1]:
                    f.write(x + "\n")
            print(f"  unexplained event in trace '{name}': {json.dumps(clip(ev))[:600]}", flush=True)
            print(f"VIOLATION property={prop} replay={rp}", flush=True)
    if shown > 10:
        print(f"  ... {shown} unexplained events in total", flush=True)

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": c["level"],
        "coverage": {
            "states": states, "transitions": trans, "traces_validated_against_impl": traced,
            "samples": samples[:6], "models": models, "trace_events": events, "event_kinds": kinds,
            "known_findings_seen": suppressed,
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1), "violations": shown,
    }
    json.dump(ev, open(evf, "w"), indent=1)
    log(f"{prop}: {'VIOLATED' if shown else 'held'}")
    return 1 if shown else 0


def excerpt(out):
    """what TLC complains about, without the long behaviour"""
    i = out.find("Error:")
    return (out[i:i + 2500] if i >= 0 else "") + "\n...\n" + out[-1500:]


def clip(x, n=24):
    if isinstance(x, dict):
        return {k: clip(v, n) for k, v in x.items()}
    if isinstance(x, list):
        return [clip(v, n) for v in x[:n]] + (["... %d more" % (len(x) - n)] if len(x) > n else [])
    if isinstance(x, str) and len(x) > 200:
        return x[:200] + "..."
    return x


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("CHECK-ERROR:", e, flush=True)
        sys.exit(2)
