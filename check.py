#!/usr/bin/env python3
"""Build a property's harness from /repo's working tree, run it, write evidence.

  check.py <ID> [quick|thorough]     exit 0 held / 1 "VIOLATION property=<id> replay=<path>"
  check.py <ID> --replay FILE        run one stored failing case again
  check.py --build-all               warm the object cache (setup_cmd)
"""
import concurrent.futures, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(REPO, "libmseed")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SAN = ["-fsanitize=address"]
UB = ["-fsanitize=bounds,integer-divide-by-zero,return,unreachable,shift-exponent,vla-bound",
      "-fno-sanitize-recover=all"]
BASE = ["-O1", "-g1", "-fno-omit-frame-pointer", "-w"]
# locals start as a fixed pattern, so that a use of one that was never set is repeatable;
# a property about uninitialised content switches this off ("autoinit": False)
INIT = ["-ftrivial-auto-var-init=pattern"]
SKIP = set()

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def sh(b):
    return hashlib.sha256(b).hexdigest()


def slurp(p):
    with open(p, "rb") as f:
        return f.read()


def lib_sources():
    return sorted(f for f in os.listdir(LIB) if f.endswith(".c"))


def headers_digest(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for f in sorted(os.listdir(d)):
            if f.endswith((".h", ".hpp", ".map", ".def")):
                h.update(f.encode() + b"\0" + slurp(os.path.join(d, f)))
    return h.hexdigest()


def compile_one(src, flags, hdig, cc, what):
    key = sh((" ".join([cc] + flags) + hdig).encode() + slurp(src))[:32]
    out = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run([cc, *flags, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise SystemExit("cannot compile %s (%s):\n%s" % (src, what, r.stdout.decode(errors="replace")[-6000:]))
    os.rename(tmp, out)
    return out


def url_flags(src, url):
    """only files that mention it are compiled differently with support for URLs"""
    return ["-DLIBMSEED_URL"] if url and b"LIBMSEED_URL" in slurp(src) else []


def plan(ids, extra_flags=()):
    """list of (kind, src, flags, digest, compiler) needed"""
    init = INIT if CHECKS[ids[0]].get("autoinit", True) else []
    extra_flags = list(extra_flags) + init
    hrepo = headers_digest([LIB])
    hpbt = headers_digest([os.path.join(VERIF, "pbt")])
    url = CHECKS[ids[0]].get("url", False)
    jobs = []
    for f in lib_sources():
        fl = BASE + SAN + list(extra_flags) + ([] if f == "yyjson.c" else UB) + ["-I" + LIB] + url_flags(os.path.join(LIB, f), url)
        jobs.append(("lib:" + f, os.path.join(LIB, f), fl, hrepo, "clang"))
    hfl = ["-std=c++17"] + BASE + SAN + list(extra_flags) + ["-I" + LIB, "-I" + os.path.join(VERIF, "pbt")]
    jobs.append(("main", os.path.join(VERIF, "pbt", "pbt_main.cpp"), hfl, hrepo + hpbt, "clang++"))
    for i in ids:
        jobs.append(("h:" + i, os.path.join(VERIF, "pbt", i.lower() + ".cpp"), hfl, hrepo + hpbt, "clang++"))
    if any(CHECKS[i].get("msi") for i in ids):
        jobs.append(("msi", os.path.join(REPO, "src", "msi.c"), BASE + SAN + UB + init + ["-I" + LIB] + url_flags(os.path.join(REPO, "src", "msi.c"), url), hrepo, "clang"))
        jobs.append(("die", os.path.join(VERIF, "pbt", "cli_opts.c"), BASE + SAN, hpbt, "clang"))
    return jobs


def link(objs, flags, cc, tag, libs=()):
    key = sh((tag + " ".join(objs) + " ".join(flags) + " ".join(libs)).encode())[:32]
    out = os.path.join(BUILD, "bin", tag + "-" + key)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run([cc, *flags, *objs, "-o", tmp, "-lm", *libs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise SystemExit("cannot link %s:\n%s" % (tag, r.stdout.decode(errors="replace")[-6000:]))
        os.rename(tmp, out)
    return out


def build(ids):
    jobs = plan(ids)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        # largest first
        order = sorted(jobs, key=lambda j: -os.path.getsize(j[1]))
        fut = {j[0]: ex.submit(compile_one, j[1], j[2], j[3], j[4], j[0]) for j in order}
        obj = {k: f.result() for k, f in fut.items()}
    lib = [obj[k] for k in sorted(obj) if k.startswith("lib:")]
    res = {}
    libs = ["-lcurl"] if CHECKS[ids[0]].get("url") else []
    if "msi" in obj:
        res["msi"] = link([obj["msi"], obj["die"]] + lib, SAN + UB, "clang", "msi", libs)
    for i in ids:
        res[i] = link([obj["h:" + i], obj["main"]] + lib, SAN + UB, "clang++", i.lower(), libs)
    return res


def build_fuzz(pid):
    """the same harness driven by libFuzzer: the library carries coverage instrumentation"""
    init = INIT if CHECKS[pid].get("autoinit", True) else []
    hrepo = headers_digest([LIB])
    hpbt = headers_digest([os.path.join(VERIF, "pbt")])
    jobs = []
    for f in lib_sources():
        fl = BASE + SAN + ["-fsanitize=fuzzer-no-link"] + init + ([] if f == "yyjson.c" else UB) + ["-I" + LIB]
        jobs.append((os.path.join(LIB, f), fl, hrepo, "clang"))
    hfl = ["-std=c++17"] + BASE + SAN + init + ["-I" + LIB, "-I" + os.path.join(VERIF, "pbt")]
    jobs.append((os.path.join(VERIF, "pbt", "pbt_main.cpp"), hfl + ["-DPBT_FUZZ"], hrepo + hpbt, "clang++"))
    jobs.append((os.path.join(VERIF, "pbt", pid.lower() + ".cpp"), hfl, hrepo + hpbt, "clang++"))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], j[1], j[2], j[3], j[0]), jobs))
    return link(objs, SAN + UB + ["-fsanitize=fuzzer"], "clang++", pid.lower() + "-fuzz")


def fuzz(pid, seed, plain, env, work, secs):
    """coverage-guided stage: libFuzzer mutates the choice bytes of generated cases."""
    binary = build_fuzz(pid)
    facets = ",".join(CHECKS[pid]["fuzz"])
    d = os.path.join(work, "fuzz")
    corpus = os.path.join(d, "corpus")
    os.makedirs(corpus)
    common = ["--dir", d, "--fuzz-facets", facets]
    subprocess.run([plain, *common, "--seed", str(seed), "--cases", "2000", "--dump-corpus", corpus], env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
    seeds = len(os.listdir(corpus))
    e = dict(env, VERIF_FUZZ_DIR=d, VERIF_FUZZ_FACETS=facets)
    art = os.path.join(d, "artifact-")
    log = os.path.join(d, "log")
    with open(log, "wb") as lf:
        subprocess.run([binary, "-fork=8", "-max_total_time=%d" % secs, "-timeout=40", "-rss_limit_mb=3000", "-max_len=16384",
                        "-len_control=0", "-seed=%d" % (seed & 0x7fffffff), "-artifact_prefix=" + art, "-print_final_stats=1", corpus],
                       env=e, stdout=lf, stderr=lf, stdin=subprocess.DEVNULL, timeout=secs + 600)
    st = {"facets": facets.split(","), "seed_inputs": seeds, "corpus": len(os.listdir(corpus)), "seconds": secs,
          "executions": 0, "coverage_edges": 0, "unconfirmed_artifacts": 0}
    with open(log, errors="replace") as lf:
        for line in lf:
            if line.startswith("#") and ": cov: " in line:
                st["executions"] = int(line[1:line.index(":")])
                st["coverage_edges"] = int(line.split(": cov: ")[1].split()[0])
    fail = None
    for a in sorted(os.listdir(d)):
        if not a.startswith("artifact-") or a.startswith("artifact-oom") or a.startswith("artifact-slow"):
            continue
        out = os.path.join(d, "failure.json")
        r = subprocess.run([plain, *common, "--bytes", os.path.join(d, a), "--out", out, "--shrink", "120",
                            "--known", os.path.join(VERIF, "known_findings.txt")], env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
        if r.returncode == 1 and os.path.exists(out):
            fail = json.load(open(out))
            break
        st["unconfirmed_artifacts"] += 1
    return st, fail


def env_for_run(res):
    e = dict(os.environ)
    e.pop("LIBMSEED_LEAPSECOND_FILE", None)
    e.pop("MALLOC_PERTURB_", None)
    for k in list(e):
        if k.lower().endswith("_proxy") or k.startswith("LIBMSEED_"):
            e.pop(k)
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    e["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=77:allocator_may_return_null=1:abort_on_error=0:"
                         "handle_abort=1:detect_stack_use_after_return=0:quarantine_size_mb=32:malloc_context_size=8:"
                         "max_allocation_size_mb=2048:symbolize=0:strict_string_checks=0")
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=77"
    if "msi" in res:
        e["VERIF_MSI"] = res["msi"]
    return e


def tree_digest():
    h = hashlib.sha256()
    for d in (LIB, os.path.join(REPO, "src")):
        for f in sorted(os.listdir(d)):
            if f.endswith((".c", ".h")):
                h.update(f.encode() + slurp(os.path.join(d, f)))
    return h.hexdigest()[:16]


def run(pid, tier, seed):
    t0 = time.time()
    c = CHECKS[pid]
    res = build([pid])
    tbuild = time.time() - t0
    work = os.path.join(os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work")), "%s-%s" % (pid, tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    env = env_for_run(res)
    out = os.path.join(work, "stats.json")
    cases = c["cases"][0 if tier == "quick" else 1]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    cases = max(1, int(cases * scale))
    maxsecs = 420 if tier == "quick" else c.get("thorough_secs", 3000)
    cmd = [res[pid], "--seed", str(seed), "--cases", str(cases), "--maxsecs", str(maxsecs), "--out", out, "--dir", work,
           "--known", os.path.join(VERIF, "known_findings.txt"), "--workers", "8"]
    cmd += ["--shrink", "40" if tier == "quick" else "200"]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
    if not os.path.exists(out):
        sys.stdout.buffer.write(r.stdout[-4000:])
        sys.stderr.buffer.write(r.stderr[-4000:])
        raise SystemExit("harness of %s ended with %d and no result" % (pid, r.returncode))
    st = json.load(open(out))
    fz = None
    if tier == "thorough" and c.get("fuzz") and not st["failed"]:
        fz, ff = fuzz(pid, seed, res[pid], env, work, max(20, int(c.get("fuzz_secs", 600) * min(scale, 1))))
        if ff:
            st["failed"], st["failure"] = True, ff
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
        "coverage": {
            "evaluations": st["evaluations"],
            "distinct_nontrivial": st["distinct_nontrivial"],
            "rule": st["rule"],
            "samples": st["samples"][:24],
            "requested_cases": st["requested"],
            "discarded": st["discarded"],
            "unreproduced_failures": st["unreproduced"],
            "cases_per_facet": st["facets"],
            "class_counts": st["labels"],
            "tree_digest": tree_digest(),
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(tbuild, 2),
        "violations": 1 if st["failed"] else 0,
    }
    if fz:
        ev["coverage"]["coverage_guided"] = fz
    if st["failed"]:
        ev["coverage"]["violation"] = st["failure"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(p + ".tmp", p)
    for k in st["known"]:
        print("KNOWN-FINDING: property=%s %s (seen %d times)" % (pid, k["text"].strip(), k["hits"]))
    rc = 0
    if st["failed"]:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, os.path.basename(st["failure"]["replay"]))
        shutil.copy(st["failure"]["replay"], rp)
        f = st["failure"]
        print("facet %s, broken requirement: %s" % (f["facet"], f["key"]))
        print("input: " + f["desc"][:1500])
        print("failure: " + f["msg"][:2500])
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rp, VERIF)))
        rc = 1
    else:
        print("%s %s seed=%d: held on %d cases (%d distinct non-trivial, %d discarded), %.1f s" % (
            pid, tier, seed, st["evaluations"], st["distinct_nontrivial"], st["discarded"], time.time() - t0))
        if fz:
            print("coverage-guided: %(executions)d executions from %(seed_inputs)d seed inputs, corpus %(corpus)d, %(coverage_edges)d edges" % fz)
        if st["unreproduced"]:
            sys.stderr.buffer.write(r.stderr[-4000:])
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    return rc


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build-all":
        for kind in sorted({(c.get("autoinit", True), c.get("url", False)) for c in CHECKS.values()}):
            build(sorted(i for i, c in CHECKS.items() if (c.get("autoinit", True), c.get("url", False)) == kind))
        return 0
    pid = a[0]
    if len(a) > 2 and a[1] == "--replay":
        res = build([pid])
        work = os.path.join(VERIF, ".work", "replay-%d" % os.getpid())
        os.makedirs(work)
        r = subprocess.run([res[pid], "--replay", os.path.abspath(a[2]), "--dir", work], env=dict(env_for_run(res), ASAN_OPTIONS=env_for_run(res)["ASAN_OPTIONS"].replace("symbolize=0", "symbolize=1")))
        shutil.rmtree(work, ignore_errors=True)
        return r.returncode
    if len(a) > 1 and a[1] == "--path":
        res = build([pid])
        e = env_for_run(res)
        for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "VERIF_MSI", "TZ", "LC_ALL"):
            if k in e:
                print("export %s='%s'" % (k, e[k]))
        print("BIN=" + res[pid])
        return 0
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return run(pid, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
