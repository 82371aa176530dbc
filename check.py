#!/usr/bin/env python3
"""Runs the check of one property:  check.py ID [--tier quick|thorough]

Builds the library and the property's harnesses from /repo's working tree, explores, writes
evidence/<ID>.json, and exits 0 (held on everything explored) or 1 (VIOLATION line)."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LPBT_REPO", "/repo")
BUILD = os.environ.get("LPBT_BUILD", os.path.join(VERIF, ".build"))
JOBS = 8

sys.path.insert(0, VERIF)
from registry import CHECKS, HARNESSES, CONFIGS  # noqa: E402

COMMON = ["-std=c++14", "-g1", "-fPIC", "-fno-omit-frame-pointer", "-w",
          "-include", "fstream", "-DZMQ_BUILD_DRAFT_API", "-D_GLIBCXX_ASSERTIONS"]
LIBDIR = "/usr/lib/x86_64-linux-gnu"
LIBS = [LIBDIR + "/libflatbuffers.a", "-ljson-c", "-lzmq", "-ldl", "-lpthread"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def run(cmd, timeout=600, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode("utf-8", "replace")[-6000:])
    return p.stdout


_tree = {}


def headers_hash(dirs, exts=(".h", ".hpp", ".inc")):
    key = (tuple(dirs), exts)
    if key not in _tree:
        parts = []
        for d in dirs:
            for root, _, files in sorted(os.walk(d)):
                if "/schemas" in root[len(d):] and d.endswith("include"):
                    continue  # generated, ignored by git; generated afresh below
                for f in sorted(files):
                    if f.endswith(exts):
                        parts += [os.path.join(root, f)[len(d):], read(os.path.join(root, f))]
        _tree[key] = sha(*parts)
    return _tree[key]


def schemas():
    """Generates the flatbuffers headers into a directory of our own."""
    fbs = sorted(glob.glob(REPO + "/schemas/*.fbs"))
    key = sha("schemas", *[x for f in fbs for x in (os.path.basename(f), read(f))])
    out = os.path.join(BUILD, "gen-" + key)
    if not os.path.isdir(out):
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(tmp + "/lamppost/schemas")
        for f in fbs:
            run(["flatc", "--cpp", "-o", tmp + "/lamppost/schemas/", f])
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out, key


def compile_one(compiler, flags, source, key, suffix=".o"):
    out = os.path.join(BUILD, "obj", key + suffix)
    if not os.path.exists(out):
        tmp = "%s.tmp%d%s" % (out, os.getpid(), suffix)
        run([compiler] + flags + ["-c", source, "-o", tmp])
        os.rename(tmp, out)
    return out


class Builder:
    def __init__(self):
        os.makedirs(BUILD + "/obj", exist_ok=True)
        os.makedirs(BUILD + "/bin", exist_ok=True)
        self.gen, self.genkey = schemas()
        self.repo_headers = headers_hash([REPO + "/include", REPO + "/src"])
        self.own_headers = headers_hash([VERIF + "/engine", VERIF + "/props"])
        self.includes = ["-I" + self.gen, "-I" + REPO + "/include", "-I" + REPO + "/src", "-I/usr/include/json-c",
                         "-I" + VERIF + "/engine", "-I" + VERIF + "/props"]

    def repo_objects(self):
        return sorted(f for f in glob.glob(REPO + "/src/lamppost/**/*.cpp", recursive=True) if "platformspecific" not in f)

    def job(self, source, flags, own):
        compiler = "clang++"
        allflags = COMMON + flags + self.includes
        parts = ["v1", compiler, " ".join(allflags), source, read(source), self.genkey, self.repo_headers]
        if own:
            parts.append(self.own_headers)
        return (compiler, allflags, source, sha(*parts))

    def harness(self, name):
        """Builds a harness; returns (binary path, dict of plugin libraries)."""
        h = HARNESSES[name]
        cfg = CONFIGS[h["config"]]
        jobs, own_start = [], 0
        for s in self.repo_objects():
            extra = cfg.get("repo", []) if not re.search(cfg.get("repo_except", "^$"), s) else []
            jobs.append(self.job(s, cfg["cxx"] + extra + h.get("flags", []), False))
        for s in h.get("repo_sources", []):
            for f in sorted(glob.glob(os.path.join(REPO, s))):
                jobs.append(self.job(f, cfg["cxx"] + cfg.get("repo", []) + h.get("flags", []) + h.get("repo_flags", []), False))
        for s in ["engine/lpbt.cpp"] + h["sources"]:
            jobs.append(self.job(os.path.join(VERIF, s), cfg["cxx"] + cfg.get("own", []) + h.get("flags", []), True))
        for s in cfg.get("plain", []):
            jobs.append(self.job(os.path.join(VERIF, s), ["-O2", "-fno-access-control"], True))
        with ThreadPoolExecutor(JOBS) as pool:
            objects = list(pool.map(lambda j: compile_one(*j), jobs))
            plugins = {}
            todo = []
            for pname, p in h.get("plugins", {}).items():
                todo.append((pname, pool.submit(self.plugin, pname, p, cfg)))
            link = ["clang++"] + cfg["cxx"] + cfg.get("link", []) + h.get("link", []) + ["-rdynamic"] + objects + LIBS
            key = sha("bin", " ".join(link), name)
            out = os.path.join(BUILD, "bin", name + "-" + key)
            if not os.path.exists(out):
                tmp = out + ".tmp%d" % os.getpid()
                run(link + ["-o", tmp])
                os.rename(tmp, out)
            for pname, f in todo:
                plugins["PLUGIN_" + pname] = f.result()
            for pname, p in h.get("programs", {}).items():
                plugins["PROGRAM_" + pname] = self.program(pname, p, cfg)
        return out, plugins

    def program(self, name, p, cfg):
        """A program of the repository itself."""
        files = self.repo_objects() + [f for s in p["sources"] for f in sorted(glob.glob(os.path.join(REPO, s)))]
        with ThreadPoolExecutor(JOBS) as pool:
            objs = list(pool.map(lambda f: compile_one(*self.job(f, cfg["cxx"], False)), files))
        link = ["clang++"] + cfg["cxx"] + objs + LIBS
        out = os.path.join(BUILD, "bin", "%s-%s" % (name, sha("program", " ".join(link))))
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            run(link + ["-o", tmp])
            os.rename(tmp, out)
        return out

    def plugin(self, name, p, cfg):
        flags = (cfg["cxx"] if p.get("sanitize", True) else ["-O1"]) + p.get("flags", [])
        objs = [compile_one(*self.job(f, flags, False)) for f in self.repo_objects()] if p.get("library") else []
        for s in p["sources"]:
            if s.startswith("repo:"):
                files = sorted(glob.glob(os.path.join(REPO, s[5:])))
            else:
                files = [os.path.join(VERIF, s)]
            for f in files:
                objs.append(compile_one(*self.job(f, flags, not s.startswith("repo:"))))
        link = ["clang++"] + cfg["cxx"] + ["-shared", "-fPIC"] + objs + p.get("link", [])
        out = os.path.join(BUILD, "bin", "lib%s-%s.so" % (name, sha("so", " ".join(link))))
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            run(link + ["-o", tmp])
            os.rename(tmp, out)
        return out


def prune():
    """Keeps the build cache small."""
    try:
        files = []
        for d in ("obj", "bin"):
            for f in os.listdir(os.path.join(BUILD, d)):
                p = os.path.join(BUILD, d, f)
                st = os.stat(p)
                files.append((st.st_mtime, st.st_size, p))
        total = sum(f[1] for f in files)
        now = time.time()
        for m, s, p in sorted(files):
            if total < 3 << 30:
                break
            if now - m > 1800:
                os.unlink(p)
                total -= s
    except OSError:
        pass


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path))["findings"]


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        # Checks build what they need; this only makes sure that they can.
        run(["flatc", "--version"])
        run(["clang++", "--version"])
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    check = CHECKS[pid]
    t0 = time.time()
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    results, violations, notes = [], [], []

    builder = Builder()
    harnesses = []
    for part in check["parts"]:
        if part["harness"] not in harnesses and not (part.get("thorough_only") and tier != "thorough"):
            harnesses.append(part["harness"])
    built = {}
    for h in harnesses:
        tb = time.time()
        built[h] = builder.harness(h)
        print("built %s in %.1f s" % (h, time.time() - tb), flush=True)
    build_s = time.time() - t0

    for part in check["parts"]:
        if part.get("thorough_only") and tier != "thorough":
            continue
        binary, plugins = built[part["harness"]]
        env = dict(os.environ)
        for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"):
            env.pop(k, None)
        for pname, so in plugins.items():
            env["LPBT_" + pname.upper()] = so
        env["LPBT_TIER"] = tier
        out = os.path.join(BUILD, "result-%s-%d.json" % (part["prop"], os.getpid()))
        if part.get("kind") == "fuzz":
            r = fuzz(part, binary, env, seed, tier, replays)
        else:
            cmd = [binary, "run", "--prop", part["prop"], "--out", out, "--seed", str(seed), "--tier", tier,
                   "--workers", str(part.get("workers", JOBS)), "--cap", str(part.get("cap", {"quick": 100, "thorough": 1800}[tier])),
                   "--shrink", str(part.get("shrink", 40)), "--replays", replays]
            if "cases" in part and tier == "quick":
                cmd += ["--cases", str(part["cases"])]
            p = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            if p.returncode not in (0, 1) or not os.path.exists(out):
                raise BuildError("%s: exit %d: %s" % (part["prop"], p.returncode, p.stderr.decode("utf-8", "replace")[-3000:]))
            r = json.load(open(out, encoding="utf-8", errors="replace"))
            os.unlink(out)
        r["part"] = part["prop"]
        results.append(r)
        print("%s: %d cases, %d distinct non-trivial, %.1f s%s" % (part["prop"], r["evaluations"], r["distinct_nontrivial"],
              r["explore_s"], ", " + r["note"] if r.get("note") else ""), flush=True)
        if r["violation"]:
            print("  %s: %s" % (r["outcome"], r["message"][:2000]))
            if r.get("description"):
                print("  case: " + r["description"][:3000])
            if r.get("err"):
                print("  " + r["err"][:3000].replace("\n", "\n  "))
            violations.append(r["replay"])
            break
        if r["failed"]:
            notes.append("%s: case %d: %s, %s" % (part["prop"], r["case"], r["message"][:300], r["note"]))
            print("  inconclusive: " + notes[-1])

    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": " || ".join("%s: %s" % (r["part"], r["rule"]) for r in results),
            "samples": [s for r in results for s in r["samples"]],
            "parts": [{k: r[k] for k in ("part", "evaluations", "nontrivial", "distinct_nontrivial", "discarded", "choices",
                                         "explore_s", "labels", "inconclusive") if k in r} for r in results],
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(build_s, 2),
        "violations": len(violations),
    }
    if notes:
        evidence["coverage"]["notes"] = notes
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    prune()
    for f in known_findings():
        if f.get("property") == pid and f.get("status") == "known":
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    if violations:
        for v in violations:
            print("VIOLATION property=%s replay=%s" % (pid, v), flush=True)
        sys.exit(1)
    print("OK property=%s" % pid)
    sys.exit(0)


def fuzz(part, binary, env, seed, tier, replays):
    """A coverage-guided campaign over the choices of a property (or its raw bytes)."""
    t = part["seconds"][tier]
    runs = part.get("runs", {}).get(tier, -1)
    work = os.path.join(BUILD, "fuzz-%s-%d" % (part["prop"], os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work + "/corpus")
    corpus = part.get("corpus")
    if corpus:
        for f in sorted(os.listdir(os.path.join(VERIF, corpus))):
            shutil.copy(os.path.join(VERIF, corpus, f), work + "/corpus/" + f)
    env = dict(env, LPBT_PROP=part["prop"])
    procs = []
    t0 = time.time()
    for w in range(JOBS):
        os.makedirs("%s/w%d" % (work, w))
        cmd = [binary, "-seed=%d" % (seed * 100 + w + 1), "-max_total_time=%d" % t, "-runs=%d" % runs,
               "-max_len=%d" % part.get("max_len", 4096), "-timeout=20", "-rss_limit_mb=3000", "-use_value_profile=%d" % (w % 2),
               "-print_final_stats=1", "-artifact_prefix=%s/w%d/" % (work, w), "-detect_leaks=0", "-reload=1", work + "/corpus"]
        log = open("%s/w%d.log" % (work, w), "wb")
        procs.append((subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=log, cwd="%s/w%d" % (work, w)), log))
    failed = None
    while any(p.poll() is None for p, _ in procs):
        time.sleep(0.1)
        if any(p.poll() not in (None, 0) for p, _ in procs) or time.time() - t0 > t + 120:
            time.sleep(0.5)
            for p, _ in procs:
                if p.poll() is None:
                    p.terminate()
            break
    for p, _ in procs:
        try:
            p.wait(20)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    execs, cov = 0, 0
    for w in range(JOBS):
        text = open("%s/w%d.log" % (work, w), errors="replace").read()
        m = re.findall(r"stat::number_of_executed_units:\s*(\d+)", text) or re.findall(r"^#(\d+)", text, re.M)
        if m:
            execs += int(m[-1])
        m = re.findall(r"cov: (\d+)", text)
        if m:
            cov = max(cov, int(m[-1]))
        for a in sorted(os.listdir("%s/w%d" % (work, w))):
            if a.startswith(("crash-", "timeout-", "oom-")) and not failed:
                path = "%s/w%d/%s" % (work, w, a)
                good = 0
                for _ in range(3):
                    try:
                        q = subprocess.run([binary, "-timeout=60", "-rss_limit_mb=3000", "-detect_leaks=0", path], env=env,
                                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=180)
                        good += q.returncode != 0
                        text = q.stderr.decode("utf-8", "replace")
                    except subprocess.TimeoutExpired:
                        good += 1
                if good == 3:
                    small = path + ".min"
                    try:
                        subprocess.run([binary, "-minimize_crash=1", "-max_total_time=20", "-exact_artifact_path=" + small, path], env=env,
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=90)
                    except subprocess.TimeoutExpired:
                        pass
                    keep = small if os.path.exists(small) else path
                    dest = os.path.join(replays, "%s-%s" % (part["prop"], a))
                    shutil.copy(keep, dest)
                    m = re.search(r"(LPBT-FAIL.*|SUMMARY:.*|ERROR: .*)", text)
                    failed = {"message": m.group(1) if m else text[-300:], "replay": dest, "err": text[:6000], "outcome": a.split("-")[0]}
    corpus_files = sorted(os.listdir(work + "/corpus"))
    samples = ["fuzzed input: " + open(work + "/corpus/" + f, "rb").read()[:200].hex() for f in corpus_files[:3]]
    n = len(corpus_files)
    shutil.rmtree(work, ignore_errors=True)
    r = {"rule": part["rule"], "evaluations": execs, "nontrivial": n, "distinct_nontrivial": n, "samples": samples,
         "explore_s": round(time.time() - t0, 2), "labels": {"edges covered": cov}, "failed": bool(failed), "violation": bool(failed),
         "note": "", "discarded": 0, "choices": 0, "inconclusive": 0, "case": 0}
    if failed:
        r.update(failed)
    return r


if __name__ == "__main__":
    try:
        main()
    except BuildError as e:
        print("ERROR: " + str(e))
        sys.exit(2)
