#!/usr/bin/env python3
"""Runs the check of one property.  usage: run.py PROPERTY [--only ENTRY] [--keep]

Every run lowers the harnesses and /repo's current sources to LLVM IR, executes
the harness entry points symbolically (engine/), has z3 decide every branch and
assertion, replays any counterexample against a native g++ build of the same
sources, and replays a witness of explored paths to validate the encoding."""
import concurrent.futures as cf
import errno
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "checks"))
import overlay as overlay_mod  # noqa: E402
import registry  # noqa: E402

BUILD = os.path.join(VERIF, "build")
SYMEX = os.path.join(BUILD, "symex")
NCPU = os.cpu_count() or 4
SRC = ["src/common", "src/common/data", "src/physics", "src/physics/electromagnetics", "src/physics/fluidflow",
       "src/physics/thermal", "src/utils", "src/utils/mesh_warper"]
SYSINC = ["/usr/include/mfem", "/usr/include/hypre", "/usr/lib/x86_64-linux-gnu/openmpi/include",
          "/usr/include/suitesparse", "/usr/include/superlu-dist"]
LIBS = ["-lmfem", "-lmpi_cxx", "-lmpi", "-ldl"]
ENV = dict(os.environ, OMPI_MCA_btl="self", OMPI_MCA_btl_base_warn_component_unused="0",
           OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", LC_ALL="C.UTF-8")


class CheckError(Exception):
    pass


def sh(cmd, timeout=800, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True,
                       errors="replace", env=ENV, **kw)
    return p


def must(cmd, what, **kw):
    p = sh(cmd, **kw)
    if p.returncode:
        raise CheckError("%s failed:\n%s\n%s" % (what, " ".join(cmd), p.stderr[-3000:]))
    return p


def incs(overlay):
    r = ["-I" + VERIF + "/shim"]
    if overlay:
        r += ["-I" + BUILD + "/overlay", "-I" + VERIF + "/overlay"]
    r += ["-I%s/%s" % (REPO, d) for d in SRC] + ["-I" + REPO] + ["-I" + d for d in SYSINC]
    return r


def src_path(s):
    for base in (VERIF, REPO):
        p = os.path.join(base, s)
        if os.path.exists(p):
            return p
    raise CheckError("source %s not found" % s)


def bitcode(src, out, defs, overlay, symshim):
    cmd = ["clang++-18", "-std=c++17", "-O1", "-gline-tables-only", "-DNDEBUG", "-DVERIF_SYMBOLIC", "-w", "-fno-threadsafe-statics",
           "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-fno-discard-value-names", "-fno-pic", "-fno-pie", "-fno-builtin-printf", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-include", VERIF + "/shim/constexpr_math.h", "-include", VERIF + "/shim/stream_endl.h"]
    if symshim:
        cmd += ["-I" + VERIF + "/symshim"]
    if "std_models" in src:
        cmd += ["-fno-builtin"]
    must(cmd + defs + incs(overlay) + ["-emit-llvm", "-c", src, "-o", out], "lowering " + src)
    return out


def native_obj(src, out, defs, overlay, san):
    cmd = ["g++", "-std=c++17", "-O1", "-g1", "-DNDEBUG", "-w", "-ffp-contract=off", "-fPIC"] + san
    must(cmd + defs + incs(overlay) + ["-c", src, "-o", out], "native build of " + src)
    return out


def key(*a):
    return hashlib.sha1(repr(a).encode()).hexdigest()[:12]


class Check:
    def __init__(self, pid, only=None):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, pid + (".only" if only else ""))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        spec = registry.CHECKS[pid]
        self.spec = spec
        self.hs = [h for h in spec["harnesses"] if (self.tier == "thorough" or h.get("tier", "quick") == "quick")]
        if only:
            self.hs = [h for h in spec["harnesses"] if h["entry"] in only]
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.futs = {}
        self.lock = threading.Lock()
        self.nat_pool = cf.ThreadPoolExecutor(NCPU)

    def defs(self, h):
        d = list(h.get("defs", []))
        if self.tier == "thorough":
            d.append("-DVERIF_THOROUGH")
        return d

    # -- building -----------------------------------------------------------
    def once(self, k, fn, *a):
        with self.lock:
            if k not in self.futs:
                self.futs[k] = self.nat_pool.submit(fn, *a)
            return self.futs[k]

    def unit_bc(self, src, h):
        d, ov, ss = self.defs(h), h.get("overlay", False), h.get("symshim", False)
        k = key("bc", src, d, ov, ss)
        out = os.path.join(self.dir, k + ".bc")
        return self.once(k, bitcode, src_path(src), out, d, ov, ss)

    def unit_obj(self, src, h, san):
        d, ov = self.defs(h), h.get("overlay", False)
        k = key("o", src, d, ov, san)
        out = os.path.join(self.dir, k + ".o")
        s = src if os.path.isabs(src) else src_path(src)
        return self.once(k, native_obj, s, out, d, ov, san)

    def sources(self, h):
        return ["harness/" + h["file"]] + list(h.get("units", []))

    def start_builds(self, h):
        for s in self.sources(h):
            self.unit_bc(s, h)
        for s in h.get("models", []):
            self.unit_bc("models/" + s, h)
        if not h.get("nonative"):
            for s in self.sources(h) + ["runtime/replay.cpp"] + ["models/" + m for m in h.get("native_models", [])] + list(h.get("native_units", [])):
                self.unit_obj(s, h, [])

    def native(self, h, san=()):
        san = list(san)
        srcs = self.sources(h) + ["runtime/replay.cpp"] + ["models/" + m for m in h.get("native_models", [])] + list(h.get("native_units", []))
        k = key("exe", srcs, self.defs(h), h.get("overlay", False), san)
        out = os.path.join(self.dir, k + ".exe")
        objs = [self.unit_obj(s, h, san).result() for s in srcs]

        def link():
            cmd = ["g++", "-rdynamic"] + san + objs + ["-o", out] + (h.get("libs") or LIBS)
            if any("unresolved" in l for l in cmd):
                # virtual functions nobody calls still have to be somewhere
                probe = [l for l in cmd if "unresolved" not in l] + ["-Wl,--warn-unresolved-symbols,--no-demangle"]
                p = must(probe, "native link")
                miss = sorted(set(re.findall(r"undefined reference to `([^']+)'", p.stderr)))
                if not miss:
                    return out
                with open(out + ".s", "w") as f:
                    for m in miss:
                        f.write(".section %s\n.weak \"%s\"\n\"%s\":\n%s\n" % (
                            ('.data.rel,"aw"', m, m, ".skip 512") if m.startswith(("_ZTV", "_ZTI", "_ZTS")) else ('.text,"ax"', m, m, "ud2")))
                    f.write('.section .note.GNU-stack,"",@progbits\n')
                cmd.insert(2, out + ".s")
            must(cmd, "native link")
            return out
        lk = "link" + k
        with self.lock:
            if lk not in self.futs:
                self.futs[lk] = self.pool_link.submit(link)
            f = self.futs[lk]
        return f.result()

    def run_native(self, h, replay, san=()):
        exe = self.native(h, san)
        scratch = replay + ".d"
        os.makedirs(scratch, exist_ok=True)
        cmd = [exe, h["entry"], replay]
        env = dict(ENV, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1", VERIF_SCRATCH=scratch)
        if "sym_diff" in open(src_path("harness/" + h["file"])).read():
            env["VERIF_DIFF"] = "1"
        if h.get("perturb"):
            env["MALLOC_PERTURB_"] = "165"
        try:
            for attempt in range(50):
                try:
                    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, text=True,
                                       errors="replace", env=env, cwd=scratch)
                    return p.returncode, p.stdout, p.stderr
                except OSError as e:    # a sibling thread forked while the linker's output was open
                    if e.errno != errno.ETXTBSY or attempt == 49:
                        raise
                    time.sleep(0.2)
        except subprocess.TimeoutExpired:
            return 124, "", "timeout"
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    # -- one harness --------------------------------------------------------
    def symex(self, h):
        bcs = [self.unit_bc(s, h).result() for s in self.sources(h)]
        bcs += [self.unit_bc("models/" + s, h).result() for s in h.get("models", [])]
        base = os.path.join(self.dir, h["entry"])
        if len(bcs) > 1:
            must(["llvm-link-18"] + bcs + ["-o", base + ".full.bc"], "llvm-link")
        else:
            shutil.copy(bcs[0], base + ".full.bc")
        must(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=" + h["entry"],
              base + ".full.bc", "-o", base + ".bc"], "opt")
        budget = h.get("budget", 500) * (4 if self.tier == "thorough" else 1)
        if self.tier == "quick":
            # every check has to give its answer within its 900 s
            budget = min(budget, int(790 - (time.time() - self.t0)))
            if budget < 10:
                raise CheckError("%s: no time left" % h["entry"])
        cmd = [SYMEX, "--entry", h["entry"], "--mode", h.get("mode", "R"), "--out", base + ".json",
               "--seed", str(self.seed), "--budget", str(budget),
               "--timeout", str(h.get("timeout", 10000) * (3 if self.tier == "thorough" else 1)),
               "--max-paths", str(h.get("max_paths", 20000)), base + ".bc"] + list(h.get("opts", []))
        if self.tier == "thorough":
            cmd += ["--cross"]
        p = sh(["timeout", str(int(budget + 90))] + cmd, timeout=budget + 120)
        open(base + ".stderr", "w").write(p.stderr)
        if not os.path.exists(base + ".json"):
            raise CheckError("%s: engine ended with %d: %s" % (h["entry"], p.returncode, p.stderr[-500:]))
        return json.load(open(base + ".json"))

    def harness(self, h):
        r = self.symex(h)
        r["h"] = h
        r["problems"] = []
        r["confirmed"] = []
        r["validated"] = 0
        if r["error"]:
            r["problems"].append("engine: " + r["error"])
        ninc = sum(a["inconclusive"] for a in r["asserts"].values())
        if ninc or r["inconclusive"]:
            r["problems"].append("undecided: " + "; ".join(r["inconclusive"][:4]))
        # counterexamples: replay against the native build
        rdir = os.path.join(BUILD, "replays", self.pid)
        os.makedirs(rdir, exist_ok=True)
        done, failed = set(), {}
        for i, v in enumerate(r["violations"]):
            g = v["group"]
            if g in done or len(done) >= 6:
                continue
            path = os.path.join(rdir, "%s-%d.replay" % (h["entry"], i))
            with open(path, "w") as f:
                for k, x in sorted(v["inputs"].items()):
                    f.write("%s %s\n" % (k, x))
            rc, out, err = self.run_native(h, path)
            how = "native"
            if rc in (0, 3) and v["kind"] not in ("assert", "assert_eq"):
                rc, out, err = self.run_native(h, path, ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"])
                how = "asan"
            if rc not in (0, 3, 4, 127):
                with open(path + ".txt", "w") as f:
                    f.write("property %s harness %s assertion %s (%s) %s\nreplay: %s %s %s (%s build), exit %d\n%s\n%s\n" % (
                        self.pid, h["entry"], v["label"], v["kind"], v["detail"], self.native(h), h["entry"], path, how, rc, out[-2000:], err[-2000:]))
                r["confirmed"].append((v, path))
                done.add(g)
                failed.pop(g, None)
            else:
                failed[g] = "counterexample of '%s' did not replay natively (exit %d): %s %s" % (v["label"], rc, v["kind"], v["detail"])
        r["problems"] += list(failed.values())
        if r["confirmed"]:
            return r
        # vacuity
        for lab in h.get("reach", []):
            if not r["reached"].get(lab):
                r["problems"].append("vacuous: '%s' not reached" % lab)
        if not h.get("known") and sum(a["checked"] for a in r["asserts"].values()) == 0:
            r["problems"].append("vacuous: no assertion evaluated")
        if not r["ended"].get("returned") and not h.get("may_not_return"):
            r["problems"].append("vacuous: no path returned")
        # validation of the encoding on concrete traces
        if not h.get("nonative"):
            for i, t in enumerate(r["traces"][:h.get("traces", 6)]):
                path = os.path.join(self.dir, "%s-trace%d" % (h["entry"], i))
                with open(path, "w") as f:
                    for k, x in sorted(t["inputs"].items()):
                        f.write("%s %s\n" % (k, x))
                rc, out, err = self.run_native(h, path)
                if rc not in (0, 3):
                    r["problems"].append("trace validation: native run of a proved path exits %d: %s" % (rc, (out + err)[-300:]))
                    continue
                obs = re.findall(r"^OBS (\S+) (\S+)$", out, re.M)
                exp = t["observed"]
                if rc == 3:
                    continue
                if [o[0] for o in obs] != [e[0] for e in exp]:
                    r["problems"].append("trace validation: observed labels differ natively: %s vs %s" % (obs[:5], exp[:5]))
                    continue
                bad = None
                for (lab, val), (_, want) in zip(obs, exp):
                    if want is None:
                        continue
                    a, b = float(val), float(want)
                    if not (a == b or (a != a and b != b) or abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))):
                        bad = (lab, val, want)
                if bad:
                    r["problems"].append("trace validation: %s is %s natively but %s symbolically" % bad)
                else:
                    r["validated"] += 1
        return r

    # -- all ------------------------------------------------------------------
    def run(self):
        self.pool_link = cf.ThreadPoolExecutor(2)
        known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
        known = {k["id"]: k for k in known if k.get("status") == "known" and k["property"] == self.pid}
        shutil.rmtree(os.path.join(BUILD, "replays", self.pid), ignore_errors=True)
        if any(h.get("overlay") for h in self.hs):
            overlay_mod.write(os.path.join(BUILD, "overlay"))
        for h in self.hs:
            self.start_builds(h)
        results, errors = [], []
        futs = {self.pool.submit(self.harness, h): h for h in self.hs}
        for f in cf.as_completed(futs):
            h = futs[f]
            try:
                results.append(f.result())
            except CheckError as e:
                errors.append("%s: %s" % (h["entry"], e))
            except OSError as e:
                errors.append("%s: %s" % (h["entry"], e))
            except subprocess.TimeoutExpired as e:
                errors.append("%s: time limit: %s" % (h["entry"], str(e)[:200]))
        viol = []
        results.sort(key=lambda r: r["h"]["entry"])
        for r in results:
            h = r["h"]
            if h.get("known"):
                k = known.get(h["known"])
                if r["confirmed"] and k:
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                    r["known_hit"] = True
                elif r["confirmed"]:
                    viol += r["confirmed"][:1]
                r["problems"] = [p for p in r["problems"] if not p.startswith("vacuous")]
            else:
                viol += [(v, p) for v, p in r["confirmed"]]
            if r["error"]:
                r["problems"] = [p for p in r["problems"] if not p.startswith("vacuous")]
            for p in r["problems"]:
                errors.append("%s: %s" % (h["entry"], p))
        self.evidence(results, errors, viol)
        for r in results:
            n = sum(a["checked"] for a in r["asserts"].values())
            d = sum(a["discharged"] for a in r["asserts"].values())
            print("  %-34s paths %-5d obligations %d/%d queries %-5d solver %.1fs wall %.1fs traces %d" % (
                r["h"]["entry"], r["paths"], d, n, r["queries"], r["solver_s"], r["wall_s"], r["validated"]))
        seen = set()
        for v, p in viol:
            if (v["label"], os.path.basename(p).split("-")[0]) in seen:
                continue
            seen.add((v["label"], os.path.basename(p).split("-")[0]))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("   assertion: %s  inputs: %s" % (v["label"], json.dumps(v["inputs"])[:400]))
        for e in errors:
            print("ERROR " + e[:1500])
        if viol:
            return 1
        return 2 if errors else 0

    def evidence(self, results, errors, viol):
        asserts = sum(a["checked"] for r in results for a in r["asserts"].values())
        disc = sum(a["discharged"] for r in results for a in r["asserts"].values())
        samples = []
        for r in results:
            for s in r["samples"][:2]:
                samples.append(r["h"]["entry"] + ": " + s)
        funcs = sorted({f for r in results for f in r["functions"]})
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": sum(r["paths"] + r["forks"] for r in results),
                "transitions": sum(r["blocks"] for r in results),
                "traces_validated_against_impl": sum(r["validated"] for r in results),
                "samples": samples[:40] or ["none"],
                "states_rule": "symbolic states created: one per explored path plus one per fork",
                "transitions_rule": "basic blocks of the lowered code executed symbolically",
                "functions_encoded": funcs,
                "bounds": self.spec["bounds"],
                "harnesses": [{
                    "entry": r["h"]["entry"], "mode": r["mode"], "paths": r["paths"], "instructions": r["instructions"],
                    "what": r["h"].get("what", ""), "ended": r["ended"], "reached": r["reached"],
                    "asserts": r["asserts"], "queries": r["queries"], "unsat": r["unsat"], "sat": r["sat"],
                    "unknown": r["unknown"], "identities_by_normal_form": r["normalised"], "cross_checked": r["cross"],
                    "cross_confirmed": r["cross_ok"], "solver_s": r["solver_s"], "normal_form_s": r["norm_s"],
                    "max_query_s": r["max_query_s"], "known_finding": bool(r.get("known_hit"))} for r in results],
                "queries": sum(r["queries"] for r in results),
                "solver_s": sum(r["solver_s"] for r in results),
                "assertion_checks": asserts, "assertion_checks_discharged": disc,
                "errors": errors,
            },
            "assumptions": sorted({a for r in results for a in r["assumptions"]}) + list(self.spec.get("assumptions", [])) + registry.COMMON_ASSUMPTIONS,
            "wall_s": time.time() - self.t0, "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def main():
    pid = sys.argv[1]
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1].split(",")
    if not os.path.exists(SYMEX):
        os.makedirs(BUILD, exist_ok=True)
        must(["bash", VERIF + "/engine/build.sh", SYMEX], "engine build")
    c = Check(pid, only)
    try:
        rc = c.run()
    except CheckError as e:
        print("ERROR " + str(e))
        rc = 2
    if "--keep" not in sys.argv:
        for f in os.listdir(c.dir):
            if f.endswith((".bc", ".o")):
                os.remove(os.path.join(c.dir, f))
    print("property %s: exit %d after %.1f s" % (pid, rc, time.time() - c.t0))
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
