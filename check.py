#!/usr/bin/env python3
"""Runs the check of one property.

  check.py <property> quick|thorough     exit 0: held, 1: VIOLATION line, 2: error of the check
  check.py replay <file>                 re-runs one saved case (exit 1 if it still fails)
  check.py list                          lists the facets

The harness (harness/*_test.go) is compiled together with the working tree of
/repo through an overlay; nothing is written to /repo.
"""
import glob, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO_DIR", "/repo")  # another tree only for trying out changes
PKG = "zzverif"
RAPID = "pgregory.net/rapid v1.3.0"

# wall-clock limits, far above what a run needs (an exceeded limit is an error, never a violation)
LIMIT = {"quick": 700, "thorough": 3000}
SHARDS = {"quick": 4, "thorough": 8}
# Cases are a fixed number (a run is a function of code and seed); the budget only stops
# a run on a very slow machine from exceeding its limit.
BUDGET = {"quick": 400, "thorough": 1500}
SCALE = {"quick": 100, "thorough": 1000}
# properties which differ: what is built, the number of processes, the factor of the quick tier
TUNE = {"C28": {"web": True, "shards": 1, "race": "web"}, "C39": {"race": True}}
for _p in "C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C32 C33 C36 C37 C38".split():
    TUNE[_p] = {"quick": 300}  # cheap cases
TUNE["C38"]["web"] = True
for _p in "C25 C26 C27 C31 C41".split():
    TUNE[_p] = {"quick": 200}
RACE = 66  # exit code of a process in which the race detector found something


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    go = "/opt/veriftools/go1.27.3/bin"
    e["PATH"] = (go + ":" if os.path.isdir(go) else "") + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off",
             GO111MODULE="on", CGO_ENABLED="0", GOTRACEBACK="all")
    e.setdefault("GOCACHE", os.path.join(e["HOME"], ".cache/go-build"))
    e.setdefault("GOMODCACHE", os.path.join(e["HOME"], "go/pkg/mod"))
    return e


class Failed(Exception):
    pass


def build(tmp, web=False, race=False):
    """Compiles the harness (and the web demo driver) against /repo. With race, the
    race detector is compiled in (if it works here), or only into the one named."""
    mod = os.path.join(tmp, "verif.mod")
    with open(os.path.join(REPO, "go.mod")) as f:
        text = f.read()
    with open(mod, "w") as f:
        f.write(text + "\nrequire " + RAPID + "\n")
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(tmp, "verif.sum"))
    replace = {}
    for src in sorted(glob.glob(os.path.join(VERIF, "harness", "*_test.go"))):
        replace[os.path.join(REPO, PKG, os.path.basename(src))] = src
    page = os.path.join(tmp, "page.js")
    shutil.copy(os.path.join(VERIF, "harness", "page", "page.js"), page)
    os.chmod(page, 0o644)
    web_src = os.path.join(VERIF, "harness", "web", "serve_test.go")
    if web:
        replace[os.path.join(REPO, "zz_verif_serve_test.go")] = web_src
    overlay = os.path.join(tmp, "overlay.json")
    with open(overlay, "w") as f:
        json.dump({"Replace": replace}, f)
    jobs = [(os.path.join(tmp, "harness"), "./" + PKG)]
    if web:
        jobs.append((os.path.join(tmp, "web"), "."))
    for out, pkg in jobs:
        cmd = ["go", "test", "-c", "-vet=off", "-overlay", overlay, "-modfile", mod, "-o", out, pkg]
        if race is True or race and race == os.path.basename(out):
            r = subprocess.run(cmd[:3] + ["-race"] + cmd[3:], cwd=REPO, env=dict(env(), CGO_ENABLED="1"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0 and os.path.exists(out):
                r = subprocess.run([out, "-test.run", "^$"], cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if r.returncode == 0:
                    continue
            print("note: the race detector does not work here, only results are compared")
        r = subprocess.run(cmd, cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(out):
            raise Failed("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


NOBODY = 65534


def unprivileged(tmp):
    """The user the harness runs as: the code under test deletes directories. Without
    the right to change the user, or if that user cannot read what it needs, ours."""
    if os.getuid() != 0:
        return {}
    who = dict(user=NOBODY, group=NOBODY, extra_groups=[])
    try:
        os.chown(tmp, NOBODY, NOBODY)
        probe = subprocess.run(["cat", os.path.join(tmp, "overlay.json"), os.path.join(REPO, "index.html"),
                                os.path.join(REPO, "internal/vssgen/vss.json")], stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, cwd=tmp, **who)
        if probe.returncode == 0:
            return who
    except (OSError, subprocess.SubprocessError):
        pass
    os.chown(tmp, 0, 0)
    return {}


def start(tmp, name, extra):
    who = unprivileged(tmp)
    cwd = os.path.join(tmp, "cwd_" + name)
    scratch = os.path.join(tmp, "tmp_" + name)
    os.makedirs(cwd)
    os.makedirs(scratch)
    if who:
        os.chown(cwd, NOBODY, NOBODY)
        os.chown(scratch, NOBODY, NOBODY)
    e = env()
    e.update(HOME=cwd, TMPDIR=scratch, VERIF_WEB=os.path.join(tmp, "web"), VERIF_REPO=REPO, VERIF_PAGE=os.path.join(tmp, "page.js"), GOMAXPROCS="2",
             GODEBUG="randseednop=0", GORACE="halt_on_error=1 exitcode=%d" % RACE, **extra)
    log = open(os.path.join(tmp, "log_" + name), "w")
    test = "TestReplay" if "VERIF_REPLAY" in extra else "TestProp"
    return subprocess.Popen([os.path.join(tmp, "harness"), "-test.run", "^%s$" % test, "-test.timeout", "0",
                             "-rapid.nofailfile", "-rapid.shrinktime", "20s"],
                            cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT,
                            start_new_session=True, **who)


def tail(path, n=6000):
    with open(path, "rb") as f:
        f.seek(0, 2)
        f.seek(max(0, f.tell() - n))
        return f.read().decode("utf-8", "replace")


def kill(procs):
    for p in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()


# Deaths of the process which are the doing of the code under test
DEADLY = ["stack exceeds", "stack overflow", "concurrent map", "all goroutines are asleep", "out of memory"]


def blame(log):
    """The message of a panic outside of a case (in a goroutine of its own, or by os.Exit(0))
    if the code under test raised it."""
    at = log.find("panic: ")
    if at < 0:
        return ""
    for line in log[at:].splitlines():
        if line.startswith("github.com/CAU-CPSS/logument"):
            if "/zzverif" in line.split("(")[0]:
                return ""
            return log[at:at + 200].splitlines()[0]
    return ""


def raced(log):
    """What the race detector reports, if the code under test makes one of the accesses."""
    at = log.find("WARNING: DATA RACE")
    if at < 0:
        return ""
    for access in log[at:].split("\n\n")[:2]:
        lines = access.splitlines()
        what = next((l.strip() for l in lines if "ead at " in l or "rite at " in l), "")
        for line in lines:
            if line.strip().startswith("github.com/CAU-CPSS/logument"):
                if "/zzverif" not in line.split("(")[0]:
                    return "unsynchronised access (%s) in %s" % (what.split(" at ")[0].lower(), line.strip().rsplit("/", 1)[-1])
                break
    return ""


def run(prop, tier, tmp):
    seed = os.environ.get("VERIF_SEED", "1")
    try:
        seed = int(seed)
    except ValueError:
        seed = 1
    began = time.time()
    tune = TUNE.get(prop, {})
    build(tmp, tune.get("web", False), tune.get("race", False))
    built = time.time() - began
    n = tune.get("shards", SHARDS[tier])
    extra = dict(VERIF_PROP=prop, VERIF_OUT=tmp, VERIF_SEED=str(seed), VERIF_BUDGET=str(BUDGET[tier]),
                 VERIF_SCALE=str(tune.get(tier, SCALE[tier])), VERIF_TIER=tier)
    procs = [start(tmp, str(i), dict(extra, VERIF_SHARD=str(i))) for i in range(n)]
    deadline = time.time() + LIMIT[tier]
    try:
        # A failing shard ends the run: its case is already minimal
        while any(p.poll() is None for p in procs):
            if time.time() > deadline:
                raise Failed("time limit exceeded")
            if any(p.poll() not in (None, 0) for p in procs):
                break
            time.sleep(0.05)
    finally:
        kill(procs)

    failures, errors = [], []
    for i, p in enumerate(procs):
        fail = os.path.join(tmp, "fail_%d.json" % i)
        if p.returncode == 0:
            continue
        if p.returncode == 1 and os.path.exists(fail):
            failures.append((fail, json.load(open(fail))))
        elif p.returncode < 0:
            continue  # ended by kill() above, or by the sandbox
        else:
            log = tail(os.path.join(tmp, "log_%d" % i), 2000000)
            pending = os.path.join(tmp, "pending_%d.json" % i)
            death = [d for d in DEADLY if d in log]
            reason = ""
            if "HARNESS ERROR" in log or not os.path.exists(pending):
                pass
            elif "WARNING: DATA RACE" in log:
                reason = raced(log)
            elif death and p.returncode == 2:
                reason = "the process died: " + death[0]
            elif blame(log):
                reason = "the process died: " + blame(log)
            elif p.returncode and "panic: " not in log and "fatal error: " not in log and "--- FAIL" not in log:
                reason = "the code under test ended the process with code %d: %s" % (p.returncode, log[-300:])
            if reason:
                case = json.load(open(pending))
                case["error"] = reason
                failures.append((pending, case))
            else:
                errors.append("shard %d: exit code %d\n%s" % (i, p.returncode, log[-6000:]))
    if not failures:
        if errors:
            raise Failed("\n".join(errors))
        dead = [i for i, p in enumerate(procs) if p.returncode != 0]
        if dead:
            raise Failed("shards %s were killed" % dead)

    # Evidence
    facets = {}
    skipped = 0
    for i in range(n):
        path = os.path.join(tmp, "stats_%d.json" % i)
        if not os.path.exists(path):
            continue
        st = json.load(open(path))
        skipped += st["skipped"]
        for f in st["facets"]:
            g = facets.setdefault(f["facet"], dict(facet=f["facet"], rule=f["rule"], evaluations=0, nontrivial=0, hashes=set(), classes={}, samples=[], cpu_s=0.0))
            g["evaluations"] += f["evaluations"]
            g["nontrivial"] += f["nontrivial"]
            g["hashes"] |= set(f["hashes"] or [])
            g["cpu_s"] += f["seconds"]
            for c, k in (f["classes"] or {}).items():
                g["classes"][c] = g["classes"].get(c, 0) + k
            g["samples"] += [s for s in (f["samples"] or []) if len(g["samples"]) < 3]
    samples, per = [], []
    for name, g in sorted(facets.items()):
        samples += [{"facet": name, "case": s} for s in g["samples"][:3]]
        per.append(dict(facet=name, rule=g["rule"], evaluations=g["evaluations"], distinct_nontrivial=len(g["hashes"]),
                        classes=dict(sorted(g["classes"].items())), process_s=round(g["cpu_s"], 2)))
    coverage = dict(evaluations=sum(p["evaluations"] for p in per),
                    distinct_nontrivial=sum(p["distinct_nontrivial"] for p in per),
                    rule=" | ".join("%s: %s" % (p["facet"], p["rule"]) for p in per),
                    samples=samples, facets=per, processes=n, cases_left_out_by_time_budget=skipped,
                    build_s=round(built, 2))
    evidence = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage,
                    assumptions=["cases outside the generators' domain (see DESIGN.md) are not explored",
                                 "the oracle (reference model) of the harness is right"],
                    wall_s=round(time.time() - began, 2), violations=len(failures))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write("\n")
    os.replace(path + ".tmp", path)

    if failures:
        # the smallest failing case of all shards
        fail, case = min(failures, key=lambda x: len(json.dumps(x[1].get("case"))))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        dst = os.path.join(VERIF, "replays", "%s-%s-seed%d.json" % (prop, case.get("facet", "x"), seed))
        with open(dst, "w") as f:
            json.dump(case, f, indent=1)
            f.write("\n")
        print("facet %s: %s" % (case.get("facet"), case.get("error")))
        print("case: %s" % json.dumps(case.get("case"))[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, dst))
        return 1
    if skipped:
        print("note: %d cases left out by the time budget" % skipped)
    if coverage["evaluations"] == 0:
        raise Failed("no case was run")
    print("OK property=%s tier=%s cases=%d distinct_nontrivial=%d wall=%.1fs" % (
        prop, tier, coverage["evaluations"], coverage["distinct_nontrivial"], evidence["wall_s"]))
    return 0


def main(argv):
    if len(argv) < 2:
        print(__doc__)
        return 2
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        if argv[1] == "list":
            build(tmp)
            return subprocess.run([os.path.join(tmp, "harness"), "-test.run", "^TestList$"], env=dict(env(), VERIF_LIST="1")).returncode
        if argv[1] == "replay":
            case = json.load(open(argv[2]))
            tune = TUNE.get(case["property"], {})
            build(tmp, tune.get("web", False), tune.get("race", False))
            shutil.copy(argv[2], os.path.join(tmp, "replay.json"))
            os.chmod(os.path.join(tmp, "replay.json"), 0o644)
            p = start(tmp, "r", dict(VERIF_REPLAY=os.path.join(tmp, "replay.json")))
            try:
                p.wait(600)
            finally:
                kill([p])
            print(tail(os.path.join(tmp, "log_r")))
            return p.returncode
        prop, tier = argv[1], argv[2]
        return run(prop, tier, tmp)
    except Failed as e:
        print("CHECK ERROR: %s" % e, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
