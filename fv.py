#!/usr/bin/env python3
"""Driver of the contract checks: builds every harness from /repo's current sources,
lets cbmc discharge the obligations, replays refutations on the real code, and writes
the evidence.

  fv.py check P01 [quick|thorough]
  fv.py job NAME            one harness job, verbose (development)
  fv.py setup
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FV_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
GB = 1 << 30
CORES = 8
MEM_BUDGET = 24 * GB
T0 = time.time()
DEADLINE = 860          # seconds for one check

PATHS = {
    "PIDFILE": "/var/run/fcron.pid", "REBOOT_LOCK": "/var/run/fcron.reboot",
    "SUSPEND_FILE": "/var/run/fcron.suspend", "FIFOFILE": "/var/run/fcron.fifo",
    "ETC": "/etc", "FCRON_SHELL": "/usr/bin/sh", "FCRON_CONF": "fcron.conf",
    "FCRONTABS": "/var/spool/fcron", "FCRON_ALLOW": "fcron.allow",
    "FCRON_DENY": "fcron.deny", "SENDMAIL": "/usr/sbin/sendmail",
    "FCRON_EDITOR": "/usr/bin/sensible-editor", "MAILDISPLAYNAME": "",
    "BINDIREX": "/usr/bin",
}


def sh(cmd, timeout=None, mem=None, cwd=None, env=None):
    def lim():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd,
                         env=env, preexec_fn=lim)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return 124, "timeout"


def make_config(d):
    """config.h from /repo/config.h.in as it is now, with the answers configure gave
    when the sandbox was built (lib/config_answers.json)."""
    ans = json.load(open(os.path.join(HERE, "lib", "config_answers.json")))
    out = []
    for line in open(os.path.join(REPO, "config.h.in"), errors="replace"):
        m = re.match(r"^(\s*)#(\s*)undef\s+(\w+)(.*)$", line)
        if m:
            v = ans.get(m.group(3))
            if v is not None:
                out.append("#define %s %s\n" % (m.group(3), v))
            else:
                out.append("/* #undef %s */\n" % m.group(3))
        else:
            out.append(line)
    with open(os.path.join(d, "config.h"), "w") as f:
        f.write("".join(out))


def base_flags(d, job=None):
    if job and job.get("cfg"):      # a reduced constant of config.h
        c = os.path.join(d, "cfg_" + job["name"])
        os.makedirs(c, exist_ok=True)
        t = open(os.path.join(d, "config.h")).read()
        for k, v in job["cfg"].items():
            t, n = re.subn(r"(?m)^(#define\s+%s)\s.*$" % k, r"\1 %s" % v, t)
        open(os.path.join(c, "config.h"), "w").write(t)
        d = c
    fl = ["-DHAVE_CONFIG_H", "-I" + d, "-I" + REPO, "-I/usr/include/selinux",
          "-I" + os.path.join(HERE, "lib"), "-I" + os.path.join(HERE, "harness"), "-w"]
    for k, v in PATHS.items():
        fl.append('-D%s="%s"' % (k, v))
    return fl


def _load(prefix):
    out = {}
    d = os.path.join(HERE, "props")
    for f in sorted(os.listdir(d)):
        m = re.match(r"^(%s\d+)\.py$" % prefix, f)
        if m:
            spec = importlib.util.spec_from_file_location(m.group(1), os.path.join(d, f))
            mod = importlib.util.module_from_spec(spec)
            sys.dont_write_bytecode = True
            spec.loader.exec_module(mod)
            out[m.group(1)] = mod.PROP
    return out


def load_props():
    return {k: v for k, v in _load("P").items() if "jobs" in v}


def load_na():
    return {k: v for k, v in _load("P").items() if "jobs" not in v}


class Result:
    def __init__(self, job):
        self.job = job
        self.name = job["name"]
        self.status = "error"   # proved | failed | degraded | error
        self.obl = 0
        self.discharged = 0
        self.failed = []        # (property, description)
        self.covers = 0
        self.cover_missing = []
        self.unwind_failed = []
        self.solver_s = 0.0
        self.wall = 0.0
        self.note = ""
        self.nobody = []
        self.trace_values = None
        self.trace_text = ""
        self.cmd = ""
        self.funcs = []


_mem_lock = threading.Condition()
_mem_used = [0]


class MemSlot:
    def __init__(self, n):
        self.n = min(n, MEM_BUDGET)

    def __enter__(self):
        with _mem_lock:
            while _mem_used[0] + self.n > MEM_BUDGET:
                _mem_lock.wait()
            _mem_used[0] += self.n

    def __exit__(self, *a):
        with _mem_lock:
            _mem_used[0] -= self.n
            _mem_lock.notify_all()


def parse_json(out):
    """the json-ui message list, also when the run was cut short"""
    try:
        return json.loads(out)
    except ValueError:
        pass
    i = out.find("[")
    if i < 0:
        return []
    dec = json.JSONDecoder()
    pos = i + 1
    res = []
    while True:
        m = re.compile(r"[\s,]*").match(out, pos)
        pos = m.end()
        try:
            o, pos = dec.raw_decode(out, pos)
        except ValueError:
            return res
        res.append(o)


def build_cbmc(job, d):
    src = os.path.join(HERE, "harness", job["src"])
    a = os.path.join(d, job["name"] + ".gb")
    b = os.path.join(d, job["name"] + ".b.gb")
    cmd = (["goto-cc", "-DFV_CBMC"] + base_flags(d, job) + ["-D" + x for x in job.get("defs", [])]
           + ["--function", job.get("entry", "harness"), src, "-o", a])
    rc, out = sh(cmd, timeout=120)
    if rc != 0 or not os.path.exists(a):
        return None, "goto-cc failed:\n" + out[-3000:]
    repl = []
    note = ""
    cur = a
    if job.get("repl") or job.get("nobody"):
        rc, out = sh(["goto-instrument", "--list-goto-functions", a], timeout=120)
        have = set(re.findall(r"^([A-Za-z_]\w*) /\* .*$", out, re.M))
        for f, g in job.get("repl", []):
            if f in have and g in have:
                repl += ["--replace-calls", "%s:%s" % (f, g)]
            else:
                note += " [%s not found: its body is used where it was]" % f
        if repl:
            rc, out = sh(["goto-instrument"] + repl + [cur, b], timeout=120)
            while rc != 0:      # a signature changed: use the body instead of the contract
                m = re.search(r"functions (\w+) and (\w+) are not type-compatible", out)
                if not m or m.group(1) + ":" + m.group(2) not in repl:
                    break
                i = repl.index(m.group(1) + ":" + m.group(2))
                del repl[i - 1:i + 1]
                note += " [%s changed its type: its body is used]" % m.group(1)
                rc, out = sh((["goto-instrument"] + repl if repl else ["cp"]) + [cur, b],
                             timeout=120)
            if rc != 0 or not os.path.exists(b):
                return None, "goto-instrument failed:\n" + out[-3000:]
            cur = b
    if job.get("dfcc"):
        c = os.path.join(d, job["name"] + ".c.gb")
        cmd = ["goto-instrument", "--dfcc", job.get("entry", "harness")]
        for f in job["dfcc"].get("enforce", []):
            cmd += ["--enforce-contract", f]
        for f in job["dfcc"].get("replace", []):
            cmd += ["--replace-call-with-contract", f]
        rc, out = sh(cmd + [cur, c], timeout=200)
        if rc != 0 or not os.path.exists(c):
            return None, "goto-instrument --dfcc failed:\n" + out[-3000:]
        cur = c
    return cur, note


def cbmc_cmd(job, gb):
    cmd = ["cbmc", gb, "--object-bits", str(job.get("object_bits", 10)), "--json-ui",
           "--verbosity", "8"]
    if job.get("unwind"):
        cmd += ["--unwind", str(job["unwind"])]
    if job.get("unwind_fn"):
        rc, out = sh(["cbmc", gb, "--show-loops"], timeout=100)
        us = []
        for loop, fn in re.findall(r"^Loop (\S+):\n\s+file .*? function (\S+)", out, re.M):
            if loop in job["unwind_fn"]:
                us.append("%s:%d" % (loop, job["unwind_fn"][loop]))
            elif fn in job["unwind_fn"]:
                us.append("%s:%d" % (loop, job["unwind_fn"][fn]))
        if us:
            cmd += ["--unwindset", ",".join(us)]
    if job.get("std", True):
        cmd += job.get("std_flags", [])
    else:
        cmd += ["--no-standard-checks"]
    cmd += ["--unwinding-assertions"]
    cmd += job.get("flags", [])
    s = job.get("solver", "minisat")
    if s == "cadical":
        cmd += ["--sat-solver", "cadical"]
    elif s == "cvc5":
        cmd += ["--cvc5"]
    elif s == "z3":
        cmd += ["--z3"]
    return cmd


def trace_values(trace):
    vals = []
    for st in trace:
        if st.get("stepType") != "assignment":
            continue
        if st.get("lhs") == "fv_nd_value" and st.get("assignmentType") != "actual-parameter":
            v = st.get("value", {})
            b = v.get("binary")
            if b is None:
                continue
            n = int(b, 2)
            if n >= 1 << 63:
                n -= 1 << 64
            vals.append(n)
    return vals


def short_trace(trace):
    keep = []
    for st in trace:
        if st.get("stepType") == "assignment" and not st.get("hidden"):
            loc = st.get("sourceLocation", {})
            keep.append("%s:%s %s = %s" % (os.path.basename(loc.get("file", "?")),
                                           loc.get("line", "?"), st.get("lhs"),
                                           st.get("value", {}).get("data")))
        elif st.get("stepType") == "failure":
            keep.append("FAILURE %s: %s" % (st.get("property"), st.get("reason")))
    return "\n".join(keep[-400:])


def run_job(job, d, timeout):
    t = time.time()
    r = Result(job)
    gb, note = build_cbmc(job, d)
    r.note = note.strip() if gb else ""
    if gb is None:
        r.note = note
        r.wall = time.time() - t
        return r
    cmd = cbmc_cmd(job, gb)
    r.cmd = " ".join(cmd[:1] + [os.path.basename(cmd[1])] + cmd[2:])
    mem = int(job.get("mem_gb", 3) * GB)
    with MemSlot(mem):
        left = min(timeout, job.get("timeout", timeout))
        rc, out = sh(cmd, timeout=left, mem=mem)
    msgs = parse_json(out)
    results = None
    oom = False
    for m in msgs:
        if isinstance(m, dict):
            if "out of memory" in m.get("messageText", ""):
                oom = True
            if "result" in m:
                results = m["result"]
            txt = m.get("messageText", "")
            mm = re.match(r"Runtime (?:Solver|decision procedure): ([\d.]+)s", txt)
            if mm and txt.startswith("Runtime Solver"):
                r.solver_s += float(mm.group(1))
            mm = re.search(r"no body for (?:function|callee) (\S+)", txt)
            if mm:
                r.nobody.append(mm.group(1))
    if oom:
        results = None          # cbmc reports the open obligations as failed then
    if results is None:
        r.note += " cbmc gave no result (rc %s): %s" % (rc, out[-300:].replace("\n", " "))
        r.wall = time.time() - t
        r.status = "undecided"
        return r
    best = None
    for p in results:
        desc = p.get("description", "")
        st = p.get("status")
        if desc.startswith("COVER "):
            r.covers += 1
            if st != "FAILURE":
                r.cover_missing.append(desc[6:])
            continue
        r.obl += 1
        if st == "SUCCESS":
            r.discharged += 1
        elif ".unwind." in p.get("property", "") or "unwinding assertion" in desc:
            r.unwind_failed.append(p.get("property"))
        else:
            r.failed.append((p.get("property"), desc))
            tr = p.get("trace")
            if tr and (best is None or (desc.startswith("OBL") and not best[0])):
                best = (desc.startswith("OBL"), tr)
    if best:
        r.trace_values = trace_values(best[1])
        r.trace_text = short_trace(best[1])
    r.wall = time.time() - t
    if r.obl == 0:
        r.note += " no obligations generated"
        r.status = "undecided"
    elif r.failed:
        r.status = "failed"
    elif r.unwind_failed:
        r.status = "degraded"
        r.note += " loop bound exceeded in %s" % ",".join(r.unwind_failed[:4])
    elif r.cover_missing:
        r.status = "failed"
        r.failed = [("cover", "no longer reachable: " + c) for c in r.cover_missing]
    else:
        r.status = "proved"
    return r


def native_build(job, d):
    """the same harness text over the real code, compiled by gcc with sanitizers. Calls to
    the functions in job["nrepl"] reach the same contracts as in the cbmc run: the harness
    is a shared object and the executable interposes these symbols."""
    src = os.path.join(HERE, "harness", job.get("native_src", job["src"]))
    exe = os.path.join(d, job["name"] + ".native")
    if os.path.exists(exe):
        return exe, ""
    san = ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
           "-fno-sanitize=alignment", "-fno-omit-frame-pointer"]
    comp = (["gcc"] + san + ["-DFV_NATIVE"] + base_flags(d, job)
            + ["-D" + x for x in job.get("native_defs", job.get("defs", []))]
            + job.get("native_flags", []))
    main = os.path.join(HERE, "lib", "fv_main.c")
    und = os.path.join(d, job["name"] + "_und.c")
    nrepl = job.get("repl", []) if job.get("nrepl") is True else job.get("nrepl", [])
    extra = []
    for attempt in (0, 1):
        if not nrepl:
            rc, out = sh(comp + [src, main] + extra + ["-o", exe] + job.get("native_libs", []), timeout=120)
        else:
            so = os.path.join(d, "lib" + job["name"] + "_n.so")
            rc, out = sh(comp + ["-fPIC", "-shared", "-fsemantic-interposition", "-fno-inline",
                                 "-fno-builtin", "-fno-ipa-sra", "-fno-ipa-cp", src, "-o", so]
                         + job.get("native_libs", []), timeout=120)
            if rc == 0:
                tr = os.path.join(d, job["name"] + "_tr.S")
                with open(tr, "w") as f:
                    f.write(".section .note.GNU-stack,\"\",@progbits\n.text\n")
                    for a, b in nrepl:
                        f.write(".globl %s\n.type %s,@function\n%s: jmp %s@PLT\n" % (a, a, a, b))
                rc, out = sh(["gcc"] + san + ["-rdynamic", main, tr] + extra + [so, "-o", exe,
                                              "-Wl,-rpath," + d], timeout=120)
        miss = sorted(set(re.findall(r"undefined reference to `(\w+)'", out)))
        if rc == 0 or not miss:
            break
        # functions that neither the harness nor libc defines: a path that calls one is given up
        with open(und, "w") as f:
            f.write("#include <setjmp.h>\nextern jmp_buf fv_jmp;\n")
            for m in miss:
                f.write("void %s(void) { longjmp(fv_jmp, 2); }\n" % m)
        extra = ["-fno-builtin", und]
    if rc != 0:
        return None, out[-2000:]
    return exe, ""


NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=11:"
            "allocator_may_return_null=1",
            UBSAN_OPTIONS="halt_on_error=1:exitcode=11:print_stacktrace=0")


def native_replay(job, d, values):
    exe, err = native_build(job, d)
    if not exe:
        return None, "native build failed: " + err
    f = os.path.join(d, job["name"] + ".values")
    with open(f, "w") as fh:
        fh.write("".join("%d\n" % v for v in values))
    rc, out = sh([exe, "replay", f], timeout=100, env=NENV, cwd=d)
    return rc == 10, out


def native_search(job, d, secs, seed, base=None):
    exe, err = native_build(job, d)
    if not exe:
        return None, "native build failed: " + err, None
    outp = os.path.join(d, job["name"] + ".found")
    cmd = [exe, "search", str(secs), str(seed), outp]
    if base:
        bf = os.path.join(d, job["name"] + ".base")
        with open(bf, "w") as fh:
            fh.write("".join("%d\n" % v for v in base))
        cmd.append(bf)
    rc, out = sh(cmd, timeout=secs + 60, env=NENV, cwd=d)
    vals = None
    if rc == 10 and os.path.exists(outp):
        vals = [int(x) for x in open(outp).read().split()]
    return rc == 10, out, vals


def left():
    return DEADLINE - (time.time() - T0)


def write_replay(pid, job, r, values, text, native_out):
    rd = os.path.join(HERE, "replays")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-%s.txt" % (pid, job["name"]))
    with open(path, "w") as f:
        f.write("# property %s, harness %s (%s)\n" % (pid, job["name"], job["src"]))
        f.write("# replay: python3 %s replay %s %s\n"
                % (os.path.join(HERE, "fv.py"), pid, path))
        for p, dsc in r.failed[:20]:
            f.write("# failed obligation: %s: %s\n" % (p, dsc))
        if native_out:
            for l in native_out.splitlines()[-40:]:
                f.write("# native: %s\n" % l)
        for l in (text or "").splitlines():
            f.write("# verifier: %s\n" % l)
        for v in values or []:
            f.write("%d\n" % v)
    return path


def known_findings():
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"^finding: property=(\S+) match=/(.*?)/ (.*)$", l.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


def check(pid, tier):
    props = load_props()
    P = props[pid]
    jobs = [j for j in P["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    d = tempfile.mkdtemp(prefix="fv-%s-" % pid)
    results = []
    violations = []
    lines = []
    try:
        make_config(d)
        with cf.ThreadPoolExecutor(CORES) as ex:
            futs = {ex.submit(run_job, j, d, max(60, left() - 200)): j for j in jobs}
            for f in cf.as_completed(futs):
                results.append(f.result())
        results.sort(key=lambda r: r.name)
        # refuted obligations first
        for r in results:
            j = r.job
            if r.status == "failed":
                violations.append(handle_failure(pid, j, r, d))
        undec = [r for r in results if r.status in ("undecided", "degraded", "error")]
        for r in undec:
            j = r.job
            fb = j.get("fallback")
            rr = None
            if fb and left() > 120 and r.status != "error":
                j2 = dict(j)
                j2.update(fb)
                j2["name"] = j["name"] + "_fallback"
                rr = run_job(j2, d, max(60, left() - 150))
                r.note += " | fallback %s: %s %s" % (j2["name"], rr.status, rr.note)
                r.obl = max(r.obl, rr.obl)
                r.discharged = max(r.discharged, rr.discharged)
                if rr.status == "failed":
                    violations.append(handle_failure(pid, j2, rr, d))
                    continue
            if j.get("native", True):
                hit, out, vals = native_search(j, d, min(j.get("search_s", 30), max(5, left() - 60)), SEED)
                r.note += " | native search: %s" % (out.strip().splitlines()[-1:] or [""])[0]
                if hit:
                    r.failed.append(("native", out.strip()[-300:]))
                    path = write_replay(pid, j, r, vals, "", out)
                    violations.append((path, True, "%s: %s" % (r.name, out.strip()[-200:])))
    finally:
        shutil.rmtree(d, ignore_errors=True)

    kf = known_findings()
    real = []
    for path, has_input, text in violations:
        hit = [k for k in kf if k[0] == pid and re.search(k[1], text)]
        if hit:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, hit[0][2]))
        else:
            real.append((path, has_input, text))
    for path, has_input, text in real:
        lines.append("VIOLATION property=%s replay=%s%s"
                     % (pid, path, "" if has_input else " no-failing-input-found"))
    nerr = [r for r in results
            if (r.status in ("error", "undecided") and "accepted=" not in r.note
                and not r.job.get("fallback"))
            or (r.status == "undecided" and not r.job.get("fallback") and not r.job.get("native", True))]
    # what holds within a bound only is never counted among the discharged obligations
    obl = sum(r.obl for r in results if not r.job.get("bounded"))
    dis = sum(r.discharged for r in results if not r.job.get("bounded"))
    bobl = sum(r.obl for r in results if r.job.get("bounded"))
    bdis = sum(r.discharged for r in results if r.job.get("bounded"))
    trusted = list(P.get("trusted", []))
    bounded = [r.name + ": " + r.job["bounded"] for r in results if r.job.get("bounded")]
    degraded = ["%s: %s %s" % (r.name, r.status, r.note) for r in results
                if r.status in ("undecided", "degraded", "error")]
    nobody = sorted({n for r in results for n in r.nobody})
    ev = {
        "property": pid, "tier": tier, "seed": SEED, "level": P["level"],
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": "; ".join(r.cmd for r in results if r.cmd)[:6000],
            "trusted_base": trusted + [
                "goto-cc/cbmc 6.11 translation and its SAT back end",
                "functions without a body in the verified text (arbitrary result, no side "
                "effect): " + (", ".join(nobody) or "none")],
            "functions_under_contract": P.get("functions", []),
            "bounded_stand_ins": bounded,
            "bounded_obligations": bobl, "bounded_obligations_discharged": bdis,
            "not_decided_unboundedly_in_this_run": degraded,
            "reachability_covers": sum(r.covers for r in results),
            "solver_s": round(sum(r.solver_s for r in results), 2),
            "jobs": [{"harness": r.name, "source": r.job["src"], "status": r.status,
                      "obligations": r.obl, "discharged": r.discharged, "covers": r.covers,
                      "back_end": r.job.get("solver", "minisat"),
                      "bounded": r.job.get("bounded"), "solver_s": round(r.solver_s, 2),
                      "wall_s": round(r.wall, 2), "note": r.note.strip()[:600]}
                     for r in results],
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(real),
    }
    if P["level"] not in ("proof",):
        ev["coverage"]["explanation"] = P.get("explanation", "")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in results:
        print("%-28s %-9s obligations %d/%d covers %d %.1fs %s"
              % (r.name, r.status, r.discharged, r.obl, r.covers, r.wall, r.note.strip()[:300]))
        for p, dsc in r.failed[:6]:
            print("    failed: %s: %s" % (p, dsc))
    for l in sorted(set(lines)):
        print(l)
    if real:
        return 1
    if nerr:
        for r in nerr:
            print("ERROR: %s could not be decided: %s" % (r.name, r.note[-1500:]))
        return 3
    return 0


def handle_failure(pid, j, r, d):
    """replay the counterexample on the real code, then look for another failing input"""
    desc = "; ".join("%s %s" % (p, x) for p, x in r.failed[:6])
    if not j.get("native", True):
        return (write_replay(pid, j, r, r.trace_values, r.trace_text, ""), False,
                "%s: %s" % (r.name, desc))
    out = ""
    if r.trace_values:
        hit, out = native_replay(j, d, r.trace_values)
        if hit:
            return (write_replay(pid, j, r, r.trace_values, r.trace_text, out), True,
                    "%s: %s %s" % (r.name, desc, out))
    fb = j.get("refute")
    if fb and left() > 150:
        j2 = dict(j)
        j2.update(fb)
        j2["name"] = j["name"] + "_refute"
        rr = run_job(j2, d, max(60, min(300, left() - 120)))
        if rr.status == "failed" and rr.trace_values:
            hit, out2 = native_replay(j2, d, rr.trace_values)
            if hit:
                rr.failed = r.failed + rr.failed
                return (write_replay(pid, j2, rr, rr.trace_values, rr.trace_text, out2), True,
                        "%s: %s %s" % (r.name, desc, out2))
    secs = max(5, min(j.get("search_s", 40), left() - 40))
    hit, out2, vals = native_search(j, d, secs / 2, SEED, r.trace_values)
    if not hit:
        hit, out2, vals = native_search(j, d, secs / 2, SEED + 1)
    if hit:
        return (write_replay(pid, j, r, vals, r.trace_text, out2), True,
                "%s: %s %s" % (r.name, desc, out2))
    return (write_replay(pid, j, r, r.trace_values, r.trace_text, (out or "") + (out2 or "")), False,
            "%s: %s" % (r.name, desc))


def one_job(name):
    for pid, P in load_props().items():
        for j in P["jobs"]:
            if j["name"] == name:
                d = tempfile.mkdtemp(prefix="fv-job-")
                try:
                    make_config(d)
                    r = run_job(j, d, 1800)
                    print(name, r.status, "obl %d/%d covers %d wall %.1f solver %.1f" % (
                        r.discharged, r.obl, r.covers, r.wall, r.solver_s), r.note[-3000:])
                    print(r.cmd)
                    if r.nobody:
                        print("no body:", sorted(set(r.nobody)))
                    for f in r.failed[:40]:
                        print("  FAILED", f)
                    if r.unwind_failed:
                        print("  UNWIND", r.unwind_failed)
                    if r.status == "failed" and "-t" in sys.argv:
                        print(r.trace_text)
                    if j.get("native", True):
                        if r.trace_values:
                            print("replay:", native_replay(j, d, r.trace_values))
                        s = 5
                        print("search:", native_search(j, d, s, SEED, r.trace_values)[:2])
                finally:
                    shutil.rmtree(d, ignore_errors=True)


def replay(pid, path):
    name = None
    vals = []
    for l in open(path):
        m = re.match(r"# property \S+, harness (\S+)", l)
        if m:
            name = m.group(1)
        if re.match(r"^-?\d+$", l.strip()):
            vals.append(int(l))
    base = re.sub(r"_(refute|fallback)$", "", name)
    d = tempfile.mkdtemp(prefix="fv-replay-")
    try:
        make_config(d)
        for j in load_props()[pid]["jobs"]:
            if j["name"] == base:
                hit, out = native_replay(j, d, vals)
                print(out)
                return 1 if hit else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return 2


def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        for t in ("goto-cc", "goto-instrument", "cbmc", "gcc"):
            if not shutil.which(t):
                print("missing tool", t)
                return 1
        return 0
    if a[0] == "check":
        return check(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if a[0] == "job":
        one_job(a[1])
        return 0
    if a[0] == "replay":
        return replay(a[1], a[2])
    return 2


if __name__ == "__main__":
    sys.exit(main())
