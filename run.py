#!/usr/bin/env python3
"""run.py <property-id> <quick|thorough> [--keep-going]: build /repo's current tree with the model-checking runtime,
explore, replay what was found, write /verif/evidence/<id>.json."""
import fcntl, json, os, re, shlex, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(V, ".build"))
sys.path.insert(0, V)
from checks import CHECKS, CONFIGS  # noqa: E402

CXX = "clang++"
INSTR = "-O1 -g1 -fsanitize=thread -mllvm -tsan-instrument-read-before-write=1 -mllvm -tsan-instrument-func-entry-exit=0"
JOBS = str(os.cpu_count() or 8)


def die(msg, code=2):
    print("ERROR:", msg, flush=True)
    sys.exit(code)


def sh(cmd, log, env=None):
    with open(log, "ab") as f:
        f.write(("$ %s\n" % cmd).encode())
        f.flush()
        return subprocess.run(cmd, shell=True, stdout=f, stderr=f, env=env).returncode


LIBS = {
    "hoofs": ["iceoryx_hoofs", "iceoryx_platform"],
    "posh": ["iceoryx_posh", "iceoryx_hoofs", "iceoryx_platform"],
    "roudi": ["iceoryx_posh_roudi", "iceoryx_posh", "iceoryx_hoofs", "iceoryx_platform"],
    "gw": ["iceoryx_posh_gateway", "iceoryx_posh", "iceoryx_hoofs", "iceoryx_platform"],
    "c": ["iceoryx_binding_c", "iceoryx_posh_roudi", "iceoryx_posh", "iceoryx_hoofs", "iceoryx_platform"],
}
LIBFILE = {
    "iceoryx_platform": "platform/libiceoryx_platform.a",
    "iceoryx_hoofs": "hoofs/libiceoryx_hoofs.a",
    "iceoryx_posh": "posh/libiceoryx_posh.a",
    "iceoryx_posh_roudi": "posh/libiceoryx_posh_roudi.a",
    "iceoryx_posh_gateway": "posh/libiceoryx_posh_gateway.a",
    "iceoryx_binding_c": "iceoryx_binding_c/libiceoryx_binding_c.a",
}


def configure(cfg):
    d = os.path.join(BUILD, cfg)
    os.makedirs(d, exist_ok=True)
    log = os.path.join(d, "build.log")
    flags = INSTR + " " + CONFIGS[cfg].get("cxxflags", "")
    cm = ('GIT_DIR=/nonexistent cmake -S %s/iceoryx_meta -B %s -G Ninja -DCMAKE_BUILD_TYPE=None -DCMAKE_C_COMPILER=clang '
          '-DCMAKE_CXX_COMPILER=clang++ -DCMAKE_CXX_FLAGS="%s" -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DBUILD_STRICT=OFF '
          '-DCCACHE=OFF -DDOWNLOAD_TOML_LIB=OFF -DTOML_CONFIG=OFF -DFETCHCONTENT_FULLY_DISCONNECTED=ON '
          '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON %s') % (REPO, d, flags, CONFIGS[cfg].get("cmake", ""))
    stampf = os.path.join(d, "cfg.stamp")
    have = open(stampf).read() if os.path.exists(stampf) else ""
    if have != cm or not os.path.exists(os.path.join(d, "build.ninja")):
        if sh(cm, log):
            tail(log)
            die("configuring %s failed" % cfg)
        open(stampf, "w").write(cm)
    return d, log


def tail(log, n=60):
    try:
        print("\n".join(open(log, errors="replace").read().splitlines()[-n:]))
    except OSError:
        pass


def incs(d):
    db = json.load(open(os.path.join(d, "compile_commands.json")))
    best = max((x for x in db), key=lambda x: x["command"].count("-I") + x["command"].count("-isystem"))
    t = shlex.split(best["command"])
    out, i = [], 0
    while i < len(t):
        if t[i].startswith("-I") or t[i].startswith("-D"):
            out.append(t[i])
        elif t[i] == "-isystem":
            out += [t[i], t[i + 1]]
            i += 1
        i += 1
    return " ".join(shlex.quote(x) for x in out)


def build(spec):
    """returns path of the harness binary"""
    cfg = spec.get("cfg", "base")
    d, log = configure(cfg)
    libs = LIBS[spec["libs"]]
    bins = os.path.join(d, "mc")
    os.makedirs(bins, exist_ok=True)
    name = spec["harness"]
    # libraries, runtime and harness are built in parallel
    procs = []
    def bg(cmd):
        f = open(log, "ab")
        f.write(("$ %s\n" % cmd).encode()); f.flush()
        procs.append((cmd, subprocess.Popen(cmd, shell=True, stdout=f, stderr=f)))
    inc = incs(d) + " -I%s/mc -I%s/iceoryx_binding_c/include" % (V, REPO)
    # generated headers come from configure; nothing else to wait for
    bg("%s -std=c++17 -O2 -g1 -Wall %s -c %s/mc/rt.cpp -o %s/rt.%s.o" % (CXX, "-DMC_MAXF=16" if spec.get("os") else "", V, bins, name))
    objs = ["%s/rt.%s.o" % (bins, name)]
    if spec.get("os"):  # simulated kernel
        bg("%s -std=c++17 -O2 -g1 -Wall -c %s/mc/os.cpp -o %s/os.%s.o" % (CXX, V, bins, name))
        objs.append("%s/os.%s.o" % (bins, name))
    for extra in spec.get("uninstrumented", []):
        o = "%s/u_%s.o" % (bins, extra)
        bg("%s -std=c++17 -O1 -g1 %s -c %s/harness/%s.cpp -o %s" % (CXX, inc, V, extra, o))
        objs.append(o)
    for h in [name] + spec.get("extra", []):
        o = "%s/%s.o" % (bins, h)
        bg("%s -std=c++17 %s %s %s -Wall -Wno-unused-function -c %s/harness/%s.cpp -o %s" % (
            CXX, INSTR, CONFIGS[cfg].get("cxxflags", ""), inc, V, h, o))
        objs.append(o)
    bg("ninja -C %s -j %s %s" % (d, JOBS, " ".join(libs)))
    bad = [c for c, p in procs if p.wait()]
    if bad:
        tail(log)
        die("build failed: %s" % bad[0][:200])
    exe = "%s/%s" % (bins, name)
    link = "%s -no-pie -static-libstdc++ -static-libgcc -Wl,-z,now %s %s -lpthread -lrt -ldl -lacl -o %s" % (
        CXX, " ".join(objs), " ".join(os.path.join(d, LIBFILE[x]) for x in libs), exe)
    if sh(link, log) and sh(link.replace(" -lacl", ""), log):
        tail(log)
        die("link failed")
    return exe


def known(prop):
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN property=(\S+) sig=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def symbolize(exe, trace):
    if not os.path.exists(trace):
        return
    txt = open(trace, errors="replace").read()
    pcs = sorted(set(re.findall(r"pc (0x[0-9a-f]+)", txt)))
    if not pcs:
        return
    try:
        r = subprocess.run(["addr2line", "-e", exe, "-s"] + [hex(int(p, 16) - 1) for p in pcs], capture_output=True, text=True, timeout=60)
        m = dict(zip(pcs, r.stdout.splitlines()))
        txt = re.sub(r"pc (0x[0-9a-f]+)", lambda k: m.get(k.group(1), "?"), txt)
        open(trace, "w").write(txt)
    except Exception:
        pass


def main():
    if len(sys.argv) < 3:
        die("usage: run.py <id> <quick|thorough>")
    prop, tier = sys.argv[1], sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    c = CHECKS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lockf = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lockf, fcntl.LOCK_EX)
    rdir = os.path.join(V, "replays")
    os.makedirs(rdir, exist_ok=True)
    kn = known(prop)
    scen, violations, hits = [], [], {}
    tb = 0.0
    for spec in c["runs"]:
        if tier == "quick" and spec.get("thorough_only"):
            continue
        t1 = time.time()
        exe = build(spec)
        tb += time.time() - t1
        outj = os.path.join(BUILD, "out.%s.%s.json" % (prop, spec["harness"]))
        vrep = os.path.join(rdir, "%s-%s.replay" % (prop, spec["harness"]))
        args = [exe, "explore", tier, outj, "-v", vrep, "-j", JOBS]
        for s, _ in kn:
            args += ["-k", s]
        sel = only or spec.get("scenario")
        if sel:
            args += ["-s", sel]
        print("== %s/%s (%s)" % (prop, spec["harness"], tier), flush=True)
        env = dict(os.environ)
        rc = subprocess.run(args, env=env).returncode
        try:
            res = json.load(open(outj))["scenarios"]
        except Exception as e:
            die("no result from %s (rc=%d): %s" % (exe, rc, e))
        for r in res:
            r["harness"] = spec["harness"]
            r["cfg"] = spec.get("cfg", "base")
        scen += res
        for r in res:
            for k, v in r.get("known_hits", {}).items():
                hits[k] = hits.get(k, 0) + v
        if rc == 1:
            r = [x for x in res if "violation" in x][0]
            # replay twice before reporting
            outs = []
            for i in range(2):
                tr = vrep + ".trace"
                try:
                    p = subprocess.run([exe, "replay", tier, vrep, tr], capture_output=True, text=True, timeout=200)
                    outs.append((p.returncode, p.stdout.strip().splitlines()[-1] if p.stdout.strip() else ""))
                except subprocess.TimeoutExpired:
                    outs.append((1, "REPLAY sig=hang msg=does not terminate"))
                    if r["violation"]["sig"] == "hang":
                        outs.append(outs[0])
                        break
            print("replay:", outs)
            if outs[0][0] != 1 or outs[1][0] != 1:
                die("the violation did not replay identically")
            symbolize(exe, vrep + ".trace")
            r["violation"]["trace"] = vrep + ".trace"
            violations.append(dict(r["violation"], scenario=r["name"], harness=spec["harness"]))
            break
        elif rc != 0:
            die("%s ended with %d" % (exe, rc))
    tot = lambda k: sum(x.get(k, 0) for x in scen)
    exh = all(x["exhaustive"] for x in scen) and not violations
    distinct = sum(max(x.get("outcomes", 0), x.get("states", 0)) for x in scen)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": c["level"],
        "coverage": {
            "states": tot("tree_nodes"),
            "transitions": tot("transitions"),
            "executions": tot("executions"),
            "distinct_outcomes": distinct,
            "traces_validated_against_impl": tot("executions") - tot("pruned"),
            "samples": ["%s/%s: %s" % (x["harness"], x["name"], x.get("sample", "")) for x in scen],
            "exhaustive": exh,
            "scenarios": scen,
            "explanation": "Every execution runs the implementation itself under the controlled scheduler / environment, so "
                           "every explored trace is a trace of the code in /repo. states = nodes of the explored choice tree, "
                           "transitions = visible operations and context switches executed, executions = complete runs (all of them of the implementation), "
                           "exhaustive = every scenario finished its stated bounds.",
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "build_s": round(tb, 1),
        "violations": len(violations),
        "violation_details": violations,
        "known_findings_hit": hits,
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    capped = [x["name"] for x in scen if not x["exhaustive"] and "violation" not in x]
    if capped:
        print("note: time cap reached in", ", ".join(capped), "(completed bound is in the evidence)")
    print("%s %s: %d executions, %d choice points, %d outcomes/states, build %.0fs, total %.0fs" % (
        prop, tier, tot("executions"), tot("choice_points"), distinct, tb, time.time() - t0))
    for k, d in kn:
        if k in hits:
            print("KNOWN-FINDING: property=%s %s (%d executions)" % (prop, d, hits[k]))
    if violations:
        v = violations[0]
        print("  scenario %s: %s: %s" % (v["scenario"], v["sig"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        sys.exit(1)
    if not scen:
        die("nothing was explored")
    sys.exit(0)


if __name__ == "__main__":
    main()
