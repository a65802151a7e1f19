#!/usr/bin/env python3
"""Runs the check of one property:  run.py <property> [--replay FILE]

Builds the property's harness from /repo's current working tree, runs its
shards (a pure function of the code, VERIF_SEED and VERIF_TIER), merges their
statistics into evidence/<property>.json and reports.

exit 0  the property held on everything explored
exit 1  with "VIOLATION property=<id> replay=<path>"
exit 2  no answer (does not build, the environment failed, out of time)
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
from spec import SPEC  # noqa: E402

TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED") or 1)
HOUND = "hound-search/hound/"
ENV_RC = 97
GRACE = 30  # seconds that the other shards go on after a counterexample


# a program that is still open for writing, here or in a child between fork and
# exec, cannot be started
LAUNCH = threading.Lock()


class NoAnswer(Exception):
    pass


def go_env():
    env = dict(os.environ)
    env.update(
        HOME="/root",
        GOTOOLCHAIN="local",
        GOFLAGS="-mod=readonly",
        GOPROXY="off",
        GOSUMDB="off",
        GOWORK="off",
        PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", ""),
    )
    env.pop("GOOS", None)
    return env


def prepare_ui():
    """The part of 'make ui' that needs no npm package (ui/bindata.go embeds it; git ignores it)."""
    src, dst = f"{REPO}/ui/assets", f"{REPO}/ui/.build/ui"
    want = {}
    for d, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(d, f)
            want[os.path.relpath(p, src)] = p
    same = os.path.isdir(dst)
    if same:
        have = set()
        for d, _, fs in os.walk(dst):
            for f in fs:
                have.add(os.path.relpath(os.path.join(d, f), dst))
        same = have == set(want) and all(
            open(p, "rb").read() == open(os.path.join(dst, r), "rb").read() for r, p in want.items()
        )
    if not same:
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(src, dst)


def build(jobs):
    os.makedirs(BUILD, exist_ok=True)
    prepare_ui()
    done, cmds = set(), []
    for j in jobs:
        for b in j.get("bins", []):
            if b not in done:
                done.add(b)
                race = ["-race"] if b.endswith("-race") else []
                name = b.replace("-race", "")
                if name.startswith("tool:"):
                    cmds.append((["go", "build", *race, "-o", f"{BUILD}/{b.split(':')[1]}", "./" + name.split(":")[1]], HARNESS))
                else:
                    # osusergo: os/user takes the home directory from $HOME
                    tags = ["-tags", "osusergo"] if name == "hound" else []
                    cmds.append((["go", "build", *race, *tags, "-o", f"{BUILD}/{b}", f"./cmds/{name}"], REPO))
        if "pkg" in j:
            key = (j["pkg"], bool(j.get("race")))
            if key not in done:
                done.add(key)
                cmds.append(
                    (
                        ["go", "test", "-c", "-vet=off"]
                        + (["-race"] if key[1] else [])
                        + ["-o", test_bin(j), "./" + j["pkg"]],
                        HARNESS,
                    )
                )
    for cmd, cwd in cmds:
        env = go_env()
        if "-race" in cmd:
            env["CGO_ENABLED"] = "1"
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise NoAnswer(f"build failed: {' '.join(cmd)}\n{(r.stdout + r.stderr)[-4000:]}")


def test_bin(j):
    return f"{BUILD}/{j['pkg']}{'.race' if j.get('race') else ''}.test"


def seed_for(ji, shard):
    return 1 + (SEED * 1000003 + ji * 7919 + shard * 104729) % 2000000011


class Shard:
    found = None  # when a shard ended with a counterexample

    def __init__(self, prop, ji, job, shard, root, failfile=None, seed=None, checks=None):
        self.prop, self.ji, self.job, self.shard = prop, ji, job, shard
        self.dir = os.path.join(root, f"j{ji}s{shard}")
        self.failfile = failfile
        self.seed = seed if seed is not None else seed_for(ji, shard)
        n = job["checks"]
        self.checks = checks if checks is not None else (n[0] if TIER == "quick" else n[1])
        self.rc = None
        self.timed_out = self.stopped = False

    def argv(self):
        j = self.job
        if "node" in j:
            return ["node", os.path.join(HARNESS, j["node"])]
        a = [
            test_bin(j),
            "-test.run",
            "^" + j["test"] + "$",
            "-test.timeout=0",
            f"-rapid.seed={self.seed}",
            f"-rapid.checks={self.checks}",
            f"-rapid.steps={j.get('steps', 30)}",
            f"-rapid.shrinktime={j.get('shrink', '15s')}",
        ]
        if self.failfile:
            a.append(f"-rapid.failfile={self.failfile}")
        return a

    def run(self, limit):
        self._run(limit)
        if not self.stopped and self.verdict()[0] == "violation":
            Shard.found = Shard.found or time.time()
        return self

    def _run(self, limit):
        if Shard.found and time.time() > Shard.found + GRACE:
            self.stopped = True
            return
        os.makedirs(self.dir)
        tmp = os.path.join(self.dir, "tmp")
        os.makedirs(tmp)
        env = go_env()
        env.update(
            HX_STATS=f"{self.dir}/stats.json",
            HX_LOG=f"{self.dir}/log.txt",
            HX_TMP=tmp,
            TMPDIR=tmp,
            HX_BUILD=BUILD,
            HX_HARNESS=HARNESS,
            HX_KNOWN=os.path.join(VERIF, "known-findings.jsonl"),
            HX_SEED=str(self.seed),
            HX_CHECKS=str(self.checks),
            HX_REPLAY=self.failfile or "",
            HX_SHARD=str(self.shard),
            HX_SHARDS=str(n_shards(self.job)),
            VERIF_TIER=TIER,
            GOMAXPROCS=str(self.job.get("procs", 2)),
            GOMEMLIMIT="3GiB",
            GORACE="halt_on_error=0 history_size=3",
            GIT_CONFIG_NOSYSTEM="1",
            GIT_CONFIG_GLOBAL="/dev/null",
            GIT_TERMINAL_PROMPT="0",
            GIT_ALLOW_PROTOCOL="file",
            LC_ALL="C",
            TZ="UTC",
        )
        for k in list(env):
            if k.lower() in ("http_proxy", "https_proxy", "all_proxy", "no_proxy"):
                del env[k]
        env.update({k: str(v) for k, v in self.job.get("env", {}).items()})
        with open(f"{self.dir}/out.txt", "wb") as out:
            kw = {}
            argv = self.argv()
            if self.job.get("user"):
                # an unprivileged user, with its own copy of the program
                exe = os.path.join(self.dir, "prog")
                with LAUNCH:
                    shutil.copy(argv[0], exe)
                os.chmod(exe, 0o755)
                argv[0] = exe
                kw = dict(user=65534, group=65534, extra_groups=[])
                for f in (self.dir, tmp):
                    os.chown(f, 65534, 65534)
                env["HOME"] = tmp
            if self.job.get("delays"):
                # some system calls of each thread take longer than usual
                argv = ["strace", "-f", "-qq", "-o", "/dev/null"] + [
                    x for d in self.job["delays"] for x in ("-e", "inject=" + d)
                ] + ["-e", "trace=" + ",".join(d.split(":")[0] for d in self.job["delays"])] + argv
            with LAUNCH:
                p = subprocess.Popen(
                    argv, cwd=self.dir, env=env, stdout=out, stderr=subprocess.STDOUT,
                    stdin=subprocess.DEVNULL, start_new_session=True, **kw,
                )
            end = time.time() + max(1, limit)
            try:
                while self.rc is None:
                    try:
                        self.rc = p.wait(timeout=0.2)
                    except subprocess.TimeoutExpired:
                        # another shard's counterexample is enough
                        if Shard.found and time.time() > Shard.found + GRACE:
                            self.stopped = True
                            break
                        if time.time() > end:
                            self.timed_out = True
                            break
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)
        if self.job.get("user"):
            os.remove(os.path.join(self.dir, "prog"))

    def text(self, name="out.txt"):
        try:
            with open(f"{self.dir}/{name}", "rb") as f:
                return f.read().decode("utf-8", "replace")
        except OSError:
            return ""

    def stats(self):
        try:
            with open(f"{self.dir}/stats.json") as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def found_failfile(self):
        for d, _, fs in os.walk(f"{self.dir}/testdata"):
            for f in sorted(fs):
                if f.endswith(".fail"):
                    return os.path.join(d, f)
        p = f"{self.dir}/failure.json"
        return p if os.path.exists(p) else None

    def verdict(self):
        """(kind, message): ok, violation, confirm (needs a second run), noanswer."""
        out = self.text()
        if self.stopped:
            return "ok", ""
        if self.timed_out:
            return "noanswer", "out of time"
        if self.rc == 0:
            if self.stats() is None:
                return "noanswer", "no statistics written"
            return "ok", ""
        if self.rc == ENV_RC or "HX-ENVIRONMENT" in out:
            m = re.search(r"HX-ENVIRONMENT: (.*)", out)
            return "noanswer", m.group(1) if m else "environment"
        low = (out + self.text("log.txt")[-4000:]).lower()
        if self.rc in (-9, 137) or any(
            s in low for s in ("no space left on device", "cannot allocate memory", "out of memory", "too many open files")
        ):
            if not self.job.get("injects"):
                return "noanswer", f"resources (rc {self.rc})"
        if "WARNING: DATA RACE" in out:
            blocks = re.split(r"={18}\n", out)
            if any("DATA RACE" in b and HOUND in b for b in blocks):
                return "violation", "data race in the tested code"
            if "--- FAIL" in out and "[rapid] failed after" not in out and "[rapid] panic after" not in out:
                return "noanswer", "data race inside the harness"
        if "HX-HANG" in out:
            return "confirm", "an operation does not finish"
        if "[rapid] failed after" in out or "HX-VIOLATION" in out or "[rapid] flaky" in out:
            return "violation", "counterexample"
        if "[rapid] panic after" in out:
            # without a frame of the tested code: an answer of it that nobody expects, e.g. neither a response nor an error
            return ("violation" if HOUND in out else "confirm"), "panic"
        if re.search(r"^(panic:|fatal error:|unexpected fault|SIGSEGV|\[signal SIG)", out, re.M):
            if HOUND in out:
                return "violation", "the tested code crashed the process"
            return "confirm", "the harness crashed on an answer of the tested code"
        if self.stats() is None and "--- FAIL" not in out:
            return "confirm", "the process was ended from within (log.Fatal)"
        if "--- FAIL" in out:
            return "violation", "failed"
        return "noanswer", f"unexpected end (rc {self.rc})"


def n_shards(job):
    s = job.get("shards", 8)
    return s if isinstance(s, int) else (s[0] if TIER == "quick" else s[1])


def excerpt(sh):
    out = sh.text()
    lines = [l for l in out.splitlines() if "rapid] draw" not in l and not l.startswith("HeapI")]
    head = "\n".join(lines[:60])
    if len(head) > 6000:
        head = head[:6000] + "\n..."
    tail = sh.text("log.txt").replace("\0", "")[-600:]
    return head + ("\n-- last log lines --\n" + tail if sh.stats() is None else "")


def save_replay(sh, why):
    d = os.path.join(VERIF, "replay", sh.prop)
    os.makedirs(d, exist_ok=True)
    base = f"seed{SEED}-j{sh.ji}s{sh.shard}-{TIER}"
    ff = sh.found_failfile()
    rec = {
        "property": sh.prop, "job": sh.ji, "shard": sh.shard, "seed": sh.seed, "checks": sh.checks,
        "why": why, "failfile": None, "output": excerpt(sh),
    }
    if ff:
        dst = os.path.join(d, base + os.path.splitext(ff)[1].replace(".json", ".case.json"))
        shutil.copy(ff, dst)
        rec["failfile"] = dst
    path = os.path.join(d, base + ".json")
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.jsonl")) as f:
            for line in f:
                line = line.strip()
                if line:
                    e = json.loads(line)
                    if e.get("property") == prop and e.get("status") == "known":
                        out.append(e)
    except OSError:
        pass
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    if prop == "--setup":
        try:
            build([j for s in SPEC.values() for j in s["jobs"]])
        except NoAnswer as e:
            print(e)
            return 1
        print(f"built in {time.time() - t0:.1f} s")
        return 0
    spec = SPEC[prop]
    jobs = spec["jobs"]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    limit = float(os.environ.get("HX_LIMIT") or (800 if TIER == "quick" else 4 * 3600))
    root = tempfile.mkdtemp(prefix=f"hxrun-{prop}-", dir="/tmp")
    os.chmod(root, 0o755)
    try:
        build(jobs)
        if replay:
            with open(replay) as f:
                rec = json.load(f)
            sh = Shard(prop, rec["job"], jobs[rec["job"]], rec["shard"], root, rec.get("failfile"), rec["seed"], rec["checks"])
            sh.run(limit)
            kind, why = sh.verdict()
            print(excerpt(sh))
            if kind in ("violation", "confirm"):
                print(f"VIOLATION property={prop} replay={replay}")
                return 1
            print(f"replay: {kind} {why}")
            return 0 if kind == "ok" else 2
        shards = []
        for ji, job in enumerate(jobs):
            for s in range(n_shards(job)):
                shards.append(Shard(prop, ji, job, s, root))
        width = max(1, min([int(os.environ.get("HX_WIDTH") or 8)] + [j.get("width", 8) for j in jobs]))
        with cf.ThreadPoolExecutor(width) as ex:
            futs = [ex.submit(lambda sh=sh: sh.run(limit - (time.time() - t0))) for sh in shards]
            for f in futs:
                f.result()
        violations, trouble = [], []
        verdicts = [(sh, *sh.verdict()) for sh in shards]
        hanging = sum(1 for _, kind, _ in verdicts if kind == "confirm")
        tries = 0
        for sh, kind, why in verdicts:
            if kind == "confirm":
                # one slow shard may be the machine's fault: it must happen again
                if hanging >= 2 or violations:
                    kind = "violation"
                elif tries >= 2:
                    kind, why = "noanswer", why + " (not confirmed)"
                else:
                    tries += 1
                    again = Shard(prop, sh.ji, sh.job, sh.shard, root + "/again", sh.found_failfile(), sh.seed, sh.checks)
                    again.run(max(60, limit - (time.time() - t0)))
                    k2, why2 = again.verdict()
                    if k2 in ("confirm", "violation"):
                        kind = "violation"
                    elif k2 == "ok":
                        kind, why = "noanswer", why + " (not confirmed by a second run)"
                    else:
                        kind, why = "noanswer", why + "; second run: " + why2
            if kind == "violation":
                violations.append((sh, why))
            elif kind == "noanswer":
                trouble.append((sh, why))
        write_evidence(prop, spec, jobs, shards, violations, t0)
        for sh, why in trouble:
            print(f"no answer from job {sh.ji} ({sh.job.get('test') or sh.job.get('node')}) shard {sh.shard}: {why}\n{excerpt(sh)[-3000:]}")
        if violations:
            path = None
            for sh, why in violations:
                p = save_replay(sh, why)
                path = path or p
            sh, why = violations[0]
            print(f"{why} (job {sh.ji}, shard {sh.shard}, seed {sh.seed})\n{excerpt(sh)}")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        if trouble:
            return 2
        seen = {}
        for sh in shards:
            for k, v in (sh.stats() or {}).get("known", {}).items():
                seen[k] = seen.get(k, 0) + v
        for e in known_findings(prop):
            print(f"KNOWN-FINDING: property={prop} {e['what']}" + ("" if seen.get(e["id"]) else " (not met in this run)"))
        print(f"{prop}: held on everything explored, {time.time() - t0:.1f} s")
        return 0
    except NoAnswer as e:
        print(f"no answer: {e}")
        return 2
    finally:
        if os.environ.get("HX_KEEP"):
            print("kept", root)
        else:
            shutil.rmtree(root, ignore_errors=True)


def write_evidence(prop, spec, jobs, shards, violations, t0):
    evals, hashes, classes, samples, known = 0, set(), {}, [], {}
    per_job = {}
    for sh in shards:
        s = sh.stats()
        if not s:
            continue
        evals += s["evals"]
        name = sh.job.get("test") or sh.job.get("node")
        hashes.update(f"{name}:{h}" for h in s["hashes"] or [])
        pj = per_job.setdefault(name, {"evaluations": 0, "shards": 0, "classes": {}})
        pj["evaluations"] += s["evals"]
        pj["shards"] += 1
        for k, v in (s["classes"] or {}).items():
            pj["classes"][k] = pj["classes"].get(k, 0) + v
        for k, v in (s.get("known") or {}).items():
            known[k] = known.get(k, 0) + v
        for x in s["samples"] or []:
            samples.append(f"[{name}] {x}")
    samples.sort(key=len)
    # a few of each job, short ones first
    pick, count = [], {}
    for x in samples:
        n = x.split("]")[0]
        if count.get(n, 0) < 4:
            count[n] = count.get(n, 0) + 1
            pick.append(x)
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(hashes),
        "rule": spec["rule"],
        "samples": pick[:24],
        "jobs": per_job,
        "oracle": spec["oracle"],
    }
    if known:
        cov["known_findings_met"] = known
    ev = {
        "property": prop,
        "tier": TIER,
        "seed": SEED,
        "level": spec.get("level", "exploration"),
        "coverage": cov,
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)


if __name__ == "__main__":
    sys.exit(main())
