#!/usr/bin/env python3
"""Builds the instrumented library from /repo's working tree together with the monitors in
harness/, runs a bounded number of cases of one property, and decides.

  check.py --prop C01 --tier quick|thorough     run a check
  check.py --setup                              build every variant
  check.py --replay replay/FILE.json            run one recorded violation again

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: error.
"""
import argparse, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
NCPU = os.cpu_count() or 4

UNTHREADED = "lib/plugins/unthreaded-signing/plugin.c"
THREADED = "lib/plugins/threaded-signing/plugin.c"
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
TSAN = ["-fsanitize=thread"]
GLIB_LIBS = ["-lglib-2.0"]

# name: (sanitizer flags, plugin, extra defines, extra link flags)
VARIANTS = {
    "asan": (ASAN, UNTHREADED, [], []),
    "asanthr": (ASAN, THREADED, ["-DHARNESS_THREADED"], GLIB_LIBS + ["-Wl,--wrap=EVP_PKEY_sign"]),
    "tsanthr": (TSAN, THREADED, ["-DHARNESS_THREADED"], GLIB_LIBS + ["-Wl,--wrap=EVP_PKEY_sign"]),
    "tsan": (TSAN, UNTHREADED, [], []),
    "stub": (ASAN, None, ["-DHARNESS_STUB"], []),
    "fault": (ASAN, UNTHREADED, ["-DHARNESS_FAULT", "-DHARNESS_CERT"],
              ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=free",
               "-Wl,--wrap=PEM_read_bio_X509,--wrap=X509_STORE_add_cert"]),
    "faultthr": (ASAN, THREADED, ["-DHARNESS_FAULT", "-DHARNESS_CERT", "-DHARNESS_THREADED"], GLIB_LIBS +
              ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=free",
               "-Wl,--wrap=PEM_read_bio_X509,--wrap=X509_STORE_add_cert"]),
    "cert": (ASAN, UNTHREADED, ["-DHARNESS_CERT"],
             ["-Wl,--wrap=PEM_read_bio_X509,--wrap=X509_STORE_add_cert"]),
    "key": (ASAN, UNTHREADED, [], ["-Wl,--wrap=fopen,--wrap=fopen64,--wrap=open,--wrap=unlink,--wrap=remove,--wrap=rename"]),
    "debug": (ASAN, UNTHREADED, ["-DHARNESS_DEBUG"], []),
    "novendor": (ASAN, UNTHREADED, ["-DHARNESS_NOVENDOR"], []),
    "release": ([], UNTHREADED, [], []),
}
# Extra preprocessor defines for the library itself.
LIB_DEFS = {"debug": ["-DPRINT_DECODED_SEI", "-DSIGNED_VIDEO_DEBUG"],
            "novendor": ["-USV_VENDOR_AXIS_COMMUNICATIONS", "-ftrivial-auto-var-init=zero"],
            "release": ["-O3", "-DNDEBUG", "-ftrivial-auto-var-init=pattern"]}
LIB_CC = {"release": "gcc"}

sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402


def die(msg, code=2):
    print("HARNESS-ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(code)


def lib_sources(plugin, vendors=True):
    src = sorted(glob.glob(f"{REPO}/lib/src/**/*.c", recursive=True))
    if vendors:
        src += sorted(glob.glob(f"{REPO}/lib/vendors/**/*.c", recursive=True))
    if plugin:
        src += sorted(glob.glob(os.path.dirname(f"{REPO}/{plugin}") + "/*.c"))
    return src


def tree_hash(variant, harness):
    h = hashlib.sha256()
    flags = VARIANTS[variant]
    h.update(repr((variant, flags, harness, LIB_DEFS.get(variant))).encode())
    files = []
    for base in (f"{REPO}/lib", f"{HERE}/harness"):
        for root, dirs, names in os.walk(base):
            dirs.sort()
            files += [os.path.join(root, n) for n in sorted(names)
                      if n.endswith((".c", ".h", ".cpp", ".hpp"))]
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fd:
            h.update(fd.read())
    return h.hexdigest()[:16]


def build(variant, prop):
    san, plugin, defs, link = VARIANTS[variant]
    # A property may have several harness units; all of them are in <id>.cpp or <id>_*.cpp.
    low = prop.lower()
    harness = ["main.cpp", "common.cpp"]
    harness += [os.path.basename(f) for f in sorted(glob.glob(f"{HERE}/harness/{low}.cpp") +
                                                    glob.glob(f"{HERE}/harness/{low}_*.cpp"))]
    harness += PROPS[prop].get("units", [])
    digest = tree_hash(variant, harness)
    out = f"{BUILD}/{variant}-{low}-{digest}"
    exe = f"{out}/harness"
    if os.path.exists(exe):
        return exe
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    common = ["-g", "-O1", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls"] + san + defs + \
        ["-DSV_VENDOR_AXIS_COMMUNICATIONS", "-DHARNESS_PROP=\"%s\"" % prop]
    inc = [f"-I{REPO}/lib/src", f"-I{REPO}/lib/src/includes", f"-I{REPO}/lib/vendors",
           f"-I{REPO}/lib/plugins"]
    glib = []
    if plugin == THREADED:
        glib = subprocess.run(["pkg-config", "--cflags", "glib-2.0"], capture_output=True,
                              text=True).stdout.split()
    jobs = []
    for f in lib_sources(plugin, variant != "novendor"):
        o = f"{tmp}/l_" + os.path.relpath(f, REPO).replace("/", "_") + ".o"
        jobs.append((o, [LIB_CC.get(variant, "clang"), "-std=gnu11", "-w"] + common + LIB_DEFS.get(variant, []) + inc + glib +
                     ["-c", f, "-o", o]))
    for n in harness:
        o = f"{tmp}/h_{n}.o"
        jobs.append((o, ["clang++", "-std=c++17", "-Wall"] + common + inc +
                     ["-c", f"{HERE}/harness/{n}", "-o", o]))

    def run(job):
        p = subprocess.run(job[1], capture_output=True, text=True)
        return p.returncode, p.stderr, job

    with ThreadPoolExecutor(NCPU) as ex:
        for rc, err, job in ex.map(run, jobs):
            if rc:
                shutil.rmtree(tmp, ignore_errors=True)
                die("compilation failed: " + " ".join(job[1]) + "\n" + err[-4000:])
    p = subprocess.run(["clang++"] + common + [j[0] for j in jobs] + ["-o", f"{tmp}/harness"] + link +
                       ["-lcrypto", "-lpthread"], capture_output=True, text=True)
    if p.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        die("link failed:\n" + p.stderr[-4000:])
    for j in jobs:
        os.unlink(j[0])
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
        if not os.path.exists(exe):
            die("cannot store the build")
    return exe


def prune_builds(keep=24):
    try:
        ds = sorted((d for d in glob.glob(f"{BUILD}/*") if os.path.isdir(d)), key=os.path.getmtime)
    except OSError:
        return
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


FRAME = re.compile(r"#\d+ (?:0x[0-9a-f]+ in )?(\S+) (\S+)")


def sanitizer_key(err):
    """A key that names the kind of the report and the innermost library function involved."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = m.group(1)
        if kind in ("SEGV", "attempting"):
            kind = {"attempting": "bad-free"}.get(kind, kind)
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", err)
        if m:
            kind = "tsan-" + m.group(1).strip().replace(" ", "-")
    if not kind:
        m = re.search(r"ERROR: ThreadSanitizer: ([\w-]+)", err)
        if m:
            kind = m.group(1)
    if not kind:
        m = re.search(r"runtime error: ([^\n]+)", err)
        if m:
            kind = "ub-" + re.sub(r"-?0x[0-9a-f]+|-?\d+", "N", m.group(1))[:70].replace(" ", "-").replace("'", "")
    if not kind:
        m = re.search(r"ERROR: LeakSanitizer", err)
        if m:
            kind = "leak"
    if not kind:
        m = re.search(r"Assertion `([^\n]*)' failed", err)
        if m:
            kind = "assert"
    fn = "?"
    for m in FRAME.finditer(err):
        if "/lib/src/" in m.group(2) or "/lib/plugins/" in m.group(2) or "/lib/vendors/" in m.group(2):
            fn = m.group(1)
            break
    if kind == "assert":
        m = re.search(r": (\w+): Assertion", err)
        if m:
            fn = m.group(1)
    return kind and f"{kind}@{fn}"


def leak_keys(err):
    keys = []
    for blk in re.split(r"\n(?=(?:Direct|Indirect) leak)", err):
        if not blk.startswith("Direct leak"):
            continue
        fns = [m.group(1) for m in FRAME.finditer(blk)
               if "/lib/src/" in m.group(2) or "/lib/plugins/" in m.group(2) or "/lib/vendors/" in m.group(2)]
        if fns:
            keys.append("leak@" + fns[0])
        else:
            fns = [m.group(1) for m in FRAME.finditer(blk)]
            keys.append("leak@?" + (fns[1] if len(fns) > 1 else ""))
    return sorted(set(keys)) or ["leak@?"]


def env_for():
    e = dict(os.environ)
    supp = f"{HERE}/harness/lsan.supp"
    e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=1:"
                         "detect_stack_use_after_return=1:strict_string_checks=1:hard_rss_limit_mb=6000:"
                         "quarantine_size_mb=32:leak_check_at_exit=0:max_allocation_size_mb=3000")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    e["LSAN_OPTIONS"] = "exitcode=98:print_suppressions=0" + (f":suppressions={supp}" if os.path.exists(supp) else "")
    e["MALLOC_PERTURB_"] = "165"  # For the build without sanitizers.
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:second_deadlock_stack=1:ignore_noninstrumented_modules=1"
    return e


class Run:
    """One harness process over a case range."""

    def __init__(self, exe, prop, seed, lo, hi, thorough, leak, cpu, wall, scratch, extra=()):
        self.out = tempfile.mktemp(dir=scratch)
        self.prog = tempfile.mktemp(dir=scratch)
        self.cmd = [exe, "--prop", prop, "--seed", str(seed), "--from", str(lo), "--to", str(hi),
                    "--out", self.out, "--progress", self.prog, "--cpu", str(cpu),
                    "--leak-every", str(leak), "--data", f"{HERE}/data"] + list(extra)
        if thorough:
            self.cmd.append("--thorough")
        self.wall_timeout = False
        errf = self.out + ".err"
        with open(errf, "wb") as ef:
            p = subprocess.Popen(self.cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env_for(), cwd=scratch,
                                 start_new_session=True)
            # A watchdog on progress, not on the total time.
            last, since = None, time.time()
            while True:
                try:
                    p.wait(timeout=1)
                    break
                except subprocess.TimeoutExpired:
                    cur = self.progress()
                    if cur != last:
                        last, since = cur, time.time()
                    elif time.time() - since > wall:
                        self.wall_timeout = True
                        os.killpg(p.pid, 9)
                        p.wait()
                        break
        self.rc = p.returncode
        with open(errf, "rb") as ef:
            data = ef.read()
            self.err = (data[:60000] + b"\n...\n" + data[-20000:] if len(data) > 80000 else data).decode("utf8", "replace")
        self.case = self.progress()
        self.res = None
        if os.path.exists(self.out):
            try:
                with open(self.out) as f:
                    self.res = json.load(f)
            except ValueError:
                self.res = None
        for f in (self.out, self.prog, errf):
            if os.path.exists(f):
                os.unlink(f)

    def progress(self):
        try:
            with open(self.prog, "rb") as f:
                return struct.unpack("<q", f.read(8))[0]
        except (OSError, struct.error):
            return -1


def load_known(prop):
    known = []
    path = f"{HERE}/known_findings.txt"
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def explore(prop, cfg, tier, seed, scratch):
    """Returns (stats, violations, inconclusive notes)."""
    thorough = tier == "thorough"
    stats = {"evaluations": 0, "events": {}, "distinct": set(), "samples": []}
    viol = []
    notes = []
    tasks = []
    for part in cfg["parts"]:
        exe = build(part["variant"], prop)
        n = part["thorough"] if thorough else part["quick"]
        chunk = max(1, min(part.get("chunk", 1 << 30), -(-n // (NCPU * 3))))
        lo = part.get("base", 0)
        end = lo + n
        while lo < end:
            hi = min(end, lo + chunk)
            tasks.append((exe, part, lo, hi))
            lo = hi

    def work(t):
        exe, part, lo, hi = t
        done = []
        left = 6
        cpu = part.get("cpu", 60)
        wall = part.get("wall", 240)
        while lo < hi and left > 0:
            left -= 1
            r = Run(exe, prop, seed, lo, hi, thorough, part.get("leak", 16), cpu, wall, scratch)
            done.append((part, exe, lo, hi, r))
            if r.rc in (0, 10) and not r.wall_timeout:
                break
            if r.case < lo:
                break
            if "LeakSanitizer has encountered a fatal error" in r.err:
                part["leak"] = 0
                continue
            # Go on after the case that ended the process.
            lo = r.case + 1
        return done

    with ThreadPoolExecutor(part_workers(cfg)) as ex:
        results = list(ex.map(work, tasks))
    viol += compare(cfg, results, stats)
    for done in results:
        for part, exe, lo, hi, r in done:
            if r.res:
                stats["evaluations"] += r.res["done"]
                for k, v in r.res["events"].items():
                    stats["events"][k] = stats["events"].get(k, 0) + v
                stats["distinct"].update(part["variant"][:1] + d for d in r.res["distinct"])
                if len(stats["samples"]) < 6:
                    stats["samples"] += r.res["samples"][:1]
            elif r.case >= lo:
                stats["evaluations"] += r.case - lo + 1
            if r.rc in (0, 10) and r.res is not None and not r.wall_timeout:
                for v in r.res["violations"]:
                    viol.append(dict(key=v["key"], msg=v["msg"], trace=v["trace"], case=v["case"], lo=v["case"],
                                     hi=v["case"] + 1, part=part, exe=exe))
                continue
            if "LeakSanitizer has encountered a fatal error" in r.err:
                notes.append("leak checking is not available here")
                continue
            if r.rc == 3 or r.case < lo:
                die(f"harness failed (exit {r.rc}): {' '.join(r.cmd)}\n{r.err[-3000:]}")
            if "hard rss limit exhausted" in r.err:
                viol.append(dict(key="memory-exhausted", msg="the process used more than 6 GB", trace=r.err[-3000:],
                                 case=r.case, lo=r.case, hi=r.case + 1, part=part, exe=exe))
                continue
            if r.wall_timeout or r.rc == 97:
                # Inconclusive until seen again in a fresh process on its own.
                again = Run(exe, prop, seed, r.case, r.case + 1, thorough, 0, part.get("cpu", 60) * 2,
                            part.get("wall", 240), scratch)
                if again.wall_timeout or again.rc == 97:
                    viol.append(dict(key="hang", msg="no progress: the case does not end", trace=again.err[-3000:],
                                     case=r.case, lo=r.case, hi=r.case + 1, part=part, exe=exe))
                else:
                    notes.append(f"case {r.case} timed out once and ended when run again")
                continue
            if r.rc == 98:
                every = part.get("leak", 16) or 1
                for k in leak_keys(r.err):
                    viol.append(dict(key=k, msg="memory is lost", trace=r.err[-6000:], case=r.case,
                                     lo=max(lo, r.case - every), hi=r.case + 1, part=part, exe=exe))
                continue
            k = sanitizer_key(r.err)
            if k is None:
                if r.rc < 0 and r.rc != -9:
                    k = "signal%d" % -r.rc
                else:
                    die(f"harness failed (exit {r.rc}): {' '.join(r.cmd)}\n{r.err[-3000:]}")
            viol.append(dict(key=k, msg="runtime error", trace=r.err[:8000], case=r.case, lo=r.case, hi=r.case + 1,
                             part=part, exe=exe))
    return stats, viol, notes


def compare(cfg, results, stats):
    """Offline: the records of a case have to be the same in all variants that ran it."""
    first, viol = {}, []
    for done in results:
        for part, exe, lo, hi, r in done:
            for case, (digest, text) in (r.res or {}).get("records", {}).items():
                if case not in first:
                    first[case] = (digest, text, part)
                    continue
                stats["events"]["records_compared"] = stats["events"].get("records_compared", 0) + 1
                k = "compared:" + part["variant"]
                stats["events"][k] = stats["events"].get(k, 0) + 1
                d, t, p = first[case]
                if d == digest:
                    continue
                a, b = t.split("\n"), text.split("\n")
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                trace = "".join(f"{v}: {q[i] if i < len(q) else 'nothing more'}\n"
                                for v, q in ((p["variant"], a), (part["variant"], b)))
                viol.append(dict(key="differs", msg=f"case {case} differs between {p['variant']} and {part['variant']}",
                                 trace=trace, case=int(case), lo=int(case), hi=int(case) + 1, part=part, exe=exe))
    return viol


def part_workers(cfg):
    return max(1, min(NCPU, cfg.get("workers", NCPU)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    if a.setup:
        # Every check builds what it needs itself; here we only see that the tools work.
        build("asan", "C01")
        print("setup ok")
        return 0
    if a.replay:
        v = json.load(open(a.replay))
        exe = build(v["variant"], v["property"])
        with tempfile.TemporaryDirectory() as scratch:
            r = Run(exe, v["property"], v["seed"], v["from"], v["to"], v["tier"] == "thorough", v.get("leak", 1), 120, 240, scratch,
                    ["--verbose"])
        print(r.err[-20000:])
        print("exit", r.rc)
        return 0 if r.rc == 0 else 1
    prop, tier = a.prop, a.tier
    if tier not in ("quick", "thorough"):
        die("bad tier")
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="svcheck-")
    try:
        stats, viol, notes = explore(prop, cfg, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = dict(load_known(prop))
    fresh, hit = [], {}
    for v in viol:
        if v["key"] in known:
            hit[v["key"]] = hit.get(v["key"], 0) + 1
        else:
            fresh.append(v)
    for k, text in known.items():
        print(f"KNOWN-FINDING: property={prop} {k} {text} (seen {hit.get(k, 0)} times in this run)")
    # A run which observed nothing decides nothing.
    for name, least in cfg.get("min_events", {}).items():
        if not fresh and stats["events"].get(name, 0) < least:
            die(f"inconclusive: only {stats['events'].get(name, 0)} of '{name}' observed, need {least}")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "evaluations": stats["evaluations"],
            "distinct_nontrivial": len(stats["distinct"]),
            "rule": cfg["rule"],
            "samples": stats["samples"] or ["none"],
            "observed_events": dict(sorted(stats["events"].items())),
            "variants": sorted({p["variant"] for p in cfg["parts"]}),
        },
        "assumptions": cfg.get("assumptions", []) + notes,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    prune_builds()
    if not fresh:
        print(f"OK property={prop} tier={tier} seed={seed} cases={stats['evaluations']} "
              f"distinct={len(stats['distinct'])} wall={ev['wall_s']}s")
        return 0
    os.makedirs(f"{HERE}/replay", exist_ok=True)
    seen = set()
    for v in fresh:
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        if len(seen) > 8:
            break
        name = re.sub(r"[^\w@.-]", "_", v["key"])[:60]
        path = f"{HERE}/replay/{prop}-{name}-{seed}-{v['case']}.json"
        with open(path, "w") as f:
            json.dump({"property": prop, "key": v["key"], "message": v["msg"], "tier": tier, "seed": seed,
                       "variant": v["part"]["variant"], "from": v["lo"], "to": v["hi"], "leak": v["part"].get("leak", 16),
                       "how": f"python3 check.py --replay {path}", "trace": v["trace"]}, f, indent=1)
        print(f"  {v['key']} (case {v['case']}): {v['msg']}")
        print(f"VIOLATION property={prop} replay={path}")
    return 1


if __name__ == "__main__":
    sys.exit(main())
