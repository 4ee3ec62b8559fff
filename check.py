#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--replay CASE]: builds the property's harness from
/repo's working tree, explores its bounded space exhaustively, writes evidence/<property>.json.
Exit 0: held on everything explored; 1: VIOLATION line; 2: the check itself could not run."""
import sys, os, re, json, time, shutil, subprocess, signal
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
REPO = os.environ.get("VP_REPO", "/repo")
from specs import SPECS

def config_header(path, overrides=None):
    """Emulates CMake's configure_file on ristra-config.h.in (all features the build here enables)."""
    vals = {"RISTRA_DOUBLE_PRECISION": "1", "RISTRA_TEST_TOLERANCE": "1.0e-14", "RISTRA_ENABLE_EXCEPTIONS": "1",
            "RISTRA_ENABLE_MPI": "1", "RISTRA_ENABLE_PYTHON": "1", "RISTRA_ENABLE_LUA": "1", "RISTRA_DBC_REQUIRE": "1",
            "ENABLE_EXCEPTIONS": "1", "ENABLE_MPI": "1", "ENABLE_PYTHON": "1", "ENABLE_LUA": "1",
            "RISTRA_DBC_THROW": "1", "HAVE_PYTHON": "1", "HAVE_LUA": "1"}
    if overrides: vals.update(overrides)
    out = []
    for line in open(os.path.join(REPO, "ristra/ristra-config.h.in")):
        m = re.match(r"\s*#\s*cmakedefine(01)?\s+(\w+)(.*)$", line)
        if m:
            n, rest = m.group(2), m.group(3)
            on = bool(vals.get(n))
            if m.group(1): line = "#define %s %d\n" % (n, 1 if on else 0)
            elif on: line = "#define %s%s\n" % (n, rest)
            else: line = "/* #undef %s */\n" % n
        line = re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda k: str(vals.get(k.group(1) or k.group(2), "")), line)
        out.append(line)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write("".join(out))

class BuildError(Exception): pass

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, **kw)

def subst(x, d):
    return [s.replace("{repo}", REPO).replace("{mc}", os.path.join(VERIF, "mc")).replace("{b}", d) for s in x]

def compile_one(unit, d):
    obj = os.path.join(d, unit["obj"])
    cmd = subst([unit.get("cxx", "g++")] + unit["flags"] + ["-c", unit["src"], "-o", obj], d)
    r = sh(cmd, cwd=d)
    return unit, cmd, r

STALL = [0]
def current(prog):
    try: return open(prog, "rb").read().split(b"\0")[0].decode(errors="replace")
    except OSError: return ""
def rss_mb(pid):
    try: return int(open("/proc/%d/statm" % pid).read().split()[1]) // 256
    except (OSError, IndexError, ValueError): return 0
def run_part(cmd, d, i, limit, env_extra, stall=120, stop=None):
    """Runs one part; ends it when it makes no progress, uses too much memory, or stop() says so."""
    prog = os.path.join(d, "progress.%d" % i)
    env = dict(os.environ, MC_PROGRESS=prog, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=0",
               UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=98", LC_ALL="C.UTF-8", OMPI_MCA_btl="self", **env_extra)
    work = os.path.join(d, "work.%d" % i); os.makedirs(work, exist_ok=True)
    outp = os.path.join(d, "out.%d" % i); errp = os.path.join(d, "err.%d" % i)
    why = ""
    with open(outp, "w") as fo, open(errp, "w") as fe:
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env, cwd=work, start_new_session=True)
        t0 = last_t = time.time(); last = None; pause = 0.02
        while True:
            try: rc = p.wait(timeout=pause); break
            except subprocess.TimeoutExpired: pause = min(0.25, pause * 2)
            now = time.time(); cur = current(prog)
            if cur != last: STALL[0] = max(STALL[0], now - last_t if last else 0); last, last_t = cur, now
            if now - t0 > limit: why = "no end within %d s" % limit
            elif now - last_t > stall: why = "case not finished within %d s" % stall
            elif rss_mb(p.pid) > 2500: why = "memory use beyond 2.5 GB"
            elif stop and stop(): why = "stopped"
            if why:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                rc = p.wait(); break
    case = current(prog)
    return rc, why, open(outp, errors="replace").read(), open(errp, errors="replace").read()[-20000:], case

def parse(out):
    res = {"stats": {}, "viol": [], "samples": [], "detail": [], "done": False}
    det = None
    for line in out.splitlines():
        if det is not None:
            if line == "DETAIL-END": res["detail"].append("\n".join(det)); det = None
            else: det.append(line)
        elif line == "DETAIL-BEGIN": det = []
        elif line.startswith("STAT "):
            _, k, v = line.split(); res["stats"][k] = res["stats"].get(k, 0) + int(v)
        elif line.startswith("VIOL "):
            c, _, m = line[5:].partition("\t"); res["viol"].append((c, m))
        elif line.startswith("SAMPLE "): res["samples"].append(line[7:])
        elif line == "DONE": res["done"] = True
    return res

def crash_text(err):
    for pat in (r"runtime error: .*", r"ERROR: AddressSanitizer: \S+.*", r"Assertion .*", r"terminate called.*(\n.*what\(\).*)?", r"PANIC: .*"):
        m = re.search(pat, err)
        if m: return m.group(0).replace("\n", " ")[:300]
    return (err.strip().splitlines() or ["(no output)"])[-1][:300]

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\w+) match=/(.*?)/ (.*)$", l)
            if m and m.group(1) == pid: out.append((re.compile(m.group(2)), m.group(3)))
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    rest = sys.argv[2:]
    if rest and rest[0] in ("quick", "thorough"): tier = rest.pop(0)
    replay = rest[1] if len(rest) > 1 and rest[0] == "--replay" else None
    t0 = time.time()
    spec = SPECS[pid](tier)
    d = os.path.join(VERIF, "build", pid + ("-replay" if replay else ""))
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    config_header(os.path.join(d, "cfg/ristra/ristra-config.h"), spec.get("config"))
    cfg = os.path.join(d, "cfg")
    for name, over in spec.get("configs", {}).items(): config_header(os.path.join(d, name, "ristra/ristra-config.h"), over)
    if spec.get("cmake"): # the real build configuration, one per set of options
        def conf(kv):
            return kv[0], sh(["cmake", "-S", REPO, "-B", os.path.join(d, kv[0]), "-G", "Ninja"] + kv[1])
        with ThreadPoolExecutor(8) as ex:
            for name, r in ex.map(conf, spec["cmake"].items()):
                if r.returncode or not os.path.exists(os.path.join(d, name, "ristra/ristra-config.h")):
                    print("error: cmake fails for %s: %s" % (name, r.stderr[-500:]), file=sys.stderr); sys.exit(2)
    # ---- build
    viols = []; build_problem = None
    units = spec["units"]
    with ThreadPoolExecutor(8) as ex: done = list(ex.map(lambda u: compile_one(u, d), units))
    bad = [(u, c, r) for u, c, r in done if r.returncode]
    for pl in spec.get("prelink", []) if not bad else []:
        cmd = subst(["g++"] + pl, d); r = sh(cmd, cwd=d)
        if r.returncode: print("error: " + r.stderr[-500:], file=sys.stderr); sys.exit(2)
    if not bad and spec.get("progs"):
        def link(p):
            cmd = subst(["g++"] + p["link"], d); return cmd, sh(cmd, cwd=d)
        with ThreadPoolExecutor(8) as ex:
            for cmd, r in ex.map(link, spec["progs"]):
                if r.returncode: bad.append(({"src": "link", "flags": []}, cmd, r))
    results = []
    if bad:
        u, c, r = bad[0]
        first = next((l for l in r.stderr.splitlines() if "error" in l or "undefined reference" in l), r.stderr[-300:])
        # Does the library itself still compile?  If so, its public interface no longer supports what the property says.
        probe = spec.get("probe", [])
        ok = True
        for k, h in enumerate(probe):
            src = os.path.join(d, "probe%d.cc" % k)
            open(src, "w").write(h["code"] if "code" in h else '#include "%s"\n' % h["header"])
            pr = sh(subst(["g++"] + h["flags"] + ["-fsyntax-only", src], d), cwd=d)
            if pr.returncode: ok = False; first = "library does not compile: " + next((l for l in pr.stderr.splitlines() if "error" in l), ""); break
        if not probe or not ok or c[0] == "g++" and "fatal error" in r.stderr and "/verif" in first:
            print("error: cannot build the harness: " + first, file=sys.stderr); sys.exit(2)
        # a second, independent attempt guards against resource problems
        r2 = sh(c, cwd=d)
        if r2.returncode == 0: print("error: compiler failed once: " + first, file=sys.stderr); sys.exit(2)
        viols.append(("build", "the library compiles but its documented use does not: " + first.strip()[:400], r.stderr[:6000]))
    else:
        jobs = []
        for p in spec["progs"]:
            exe = os.path.join(d, p["exe"])
            n = p.get("parts", 8)
            for i in range(n):
                jobs.append((p, i, [exe, "--tier", tier, "--part", "%d/%d" % (i, n)] + subst(p.get("args", []), d)))
        if replay:
            jobs = [(p, 0, [os.path.join(d, p["exe"]), "--tier", tier, "--only", replay] + subst(p.get("args", []), d)) for p in spec["progs"]]
        stall = spec.get("stall", {"quick": 120, "thorough": 1800}[tier])
        limit = spec.get("limit", {"quick": 600, "thorough": 7200})[tier]
        first_bad = [] # once something is found the other parts get another minute
        def stop(): return bool(first_bad) and time.time() - first_bad[0] > (60 if tier == "quick" else 600)
        def go(k):
            p, i, cmd = jobs[k]
            env = {a: b.replace("{repo}", REPO).replace("{b}", d).replace("{mc}", os.path.join(VERIF, "mc")) for a, b in p.get("env", {}).items()}
            if stop(): return (p, cmd, (0, "stopped", "", "", ""))
            res = run_part(cmd, d, k, limit, env, stall, stop)
            if res[1] != "stopped" and (res[1] or res[0] != 0 or "\nVIOL " in "\n" + res[2]) and not first_bad: first_bad.append(time.time())
            return (p, cmd, res)
        with ThreadPoolExecutor(8) as ex: results = list(ex.map(go, range(len(jobs))))
        cand = []
        for p, cmd, (rc, timed, out, err, case) in results:
            r = parse(out)
            for c, m in r["viol"]: cand.append((p, c, m))
            if rc == 3 and "mcrt:" in err:
                print("error: exploration not deterministic: " + err.strip()[-300:], file=sys.stderr); sys.exit(2)
            if timed == "stopped": continue
            if timed or rc != 0 or not r["done"]:
                if not case: # ended before the first case: twice the same means the code under test does it
                    rc2, timed2, out2, err2, case2 = run_part(cmd, d, 800, spec.get("case_limit", 240), {a: b.replace("{repo}", REPO).replace("{b}", d).replace("{mc}", os.path.join(VERIF, "mc")) for a, b in p.get("env", {}).items()}, stall)
                    if rc in (99, -6, -11, -4, -8) and rc2 == rc and not case2:
                        if not viols: viols.append(("start", "CRASH " + crash_text(err2), err2[-6000:] + "\nthe program ends before its first case"))
                        continue
                    print("error: harness ended with %s before any case: %s" % (rc, err[-500:]), file=sys.stderr); sys.exit(2)
                cand.append((p, case, "HANG " + timed if timed else "CRASH " + crash_text(err)))
        # ---- confirm every reported case by running it alone
        known = known_findings(pid); printed = set(); unconf = []
        seen = set(); nconf = 0; tc = time.time()
        cand.sort(key=lambda x: x[2].startswith("HANG"))
        for p, c, m in cand:
            if (c, m) in seen: continue
            seen.add((c, m))
            k = next((x for x in known if x[0].search(c + " " + m)), None)
            if not k and (nconf >= 6 or viols and (m.startswith("HANG") or time.time() - tc > 120)): continue
            if k and k[1] in printed: continue
            cmd = [os.path.join(d, p["exe"]), "--tier", tier, "--only", c] + subst(p.get("args", []), d)
            env = {a: b.replace("{repo}", REPO).replace("{b}", d).replace("{mc}", os.path.join(VERIF, "mc")) for a, b in p.get("env", {}).items()}
            rc, timed, out, err, case = run_part(cmd, d, 900 + len(seen), spec.get("case_limit", 240), env, stall)
            r = parse(out)
            confirmed = bool(r["viol"]) or bool(timed) or rc != 0
            if not confirmed: unconf.append((p, c, m)); continue
            if k: print("KNOWN-FINDING: property=%s %s" % (pid, k[1])); printed.add(k[1]); continue
            nconf += 1
            text = "\n".join(r["detail"]) or err[-6000:]
            viols.append((c, m, text + "\n" + "replay command: python3 check.py %s %s --replay '%s'" % (pid, tier, c)))
        if unconf and not viols and not replay: # perhaps the code remembers earlier cases: the same exploration from its start has to fail in the same case again
            for p, cmd, (rc, timed, out, err, case) in results:
                mine = set((c, m) for q, c, m in unconf if q is p) & (set(parse(out)["viol"]) | ({(case, "CRASH " + crash_text(err))} if rc else set()))
                if not mine or timed: continue
                env = {a: b.replace("{repo}", REPO).replace("{b}", d).replace("{mc}", os.path.join(VERIF, "mc")) for a, b in p.get("env", {}).items()}
                rc2, timed2, out2, err2, case2 = run_part(cmd, d, 850, limit, env, stall)
                again = sorted(mine & (set(parse(out2)["viol"]) | ({(case2, "CRASH " + crash_text(err2))} if rc2 else set())))
                if again: viols.append((again[0][0], again[0][1], "\n".join(parse(out2)["detail"][:1]) + "\nonly after the cases before it in the same run: " + " ".join(cmd))); break
        if unconf and not viols:
            print("error: %d reported case(s) did not reproduce alone, e.g. %s: %s" % (len(unconf), unconf[0][1], unconf[0][2]), file=sys.stderr)
            sys.exit(2)
    # ---- evidence
    tot = {}; samples = []
    for p, cmd, (rc, timed, out, err, case) in results:
        r = parse(out)
        for k, v in r["stats"].items(): tot[k] = tot.get(k, 0) + v
        samples += r["samples"]
    cov = {"states": tot.get("states", tot.get("cases", 0)), "transitions": tot.get("transitions", 0),
           "traces_validated_against_impl": tot.get("executions", tot.get("cases", 0)),
           "exhaustive": not viols and tot.get("capped", 0) == 0,
           "samples": samples[:6] or ["none"], "rule": spec["rule"], "bounds": spec["bounds"], "counts": tot}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(viols)}
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if os.environ.get("VP_DEBUG"): print("longest case %.1fs" % STALL[0])
    print("%s %s: %s wall=%.1fs" % (pid, tier, " ".join("%s=%s" % x for x in sorted(tot.items())), time.time() - t0))
    if not viols and not bad:
        if tot.get("cases", tot.get("executions", 0)) == 0 and not replay:
            print("error: nothing was explored", file=sys.stderr); sys.exit(2)
        if not os.environ.get("VP_KEEP"): shutil.rmtree(d, ignore_errors=True)
        sys.exit(0)
    rdir = os.path.join(VERIF, "replay"); os.makedirs(rdir, exist_ok=True)
    for k, (c, m, text) in enumerate(viols[:6]):
        path = os.path.join(rdir, "%s-%d.txt" % (pid, k))
        open(path, "w").write("property %s\ncase %s\n%s\n\n%s\n" % (pid, c, m, text))
        print("  case %s: %s" % (c, m[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if not os.environ.get("VP_KEEP"): shutil.rmtree(d, ignore_errors=True)
    sys.exit(1)
if __name__ == "__main__": main()
