"""Common machinery of the checks: build the harness, run scenarios on the real code, validate traces with TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
GO = "/opt/veriftools/go1.25.14"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VERIF_PROCS", "8"))


class CheckError(Exception):
    """The check could not do its work: neither a pass nor a violation."""


def goenv():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), GOROOT=GO, PATH=GO + "/bin:" + e.get("PATH", "/usr/bin:/bin"),
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=e.get("GOCACHE", "/root/.cache/go-build"),
             GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off", GOENV="off", GOTELEMETRY="off",
             GOFLAGS="-mod=mod", CGO_ENABLED="0")
    return e


class Work:
    """A scratch directory with the harness built from /repo's working tree."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-")
        self.t0 = time.time()
        self.giveup = 650           # seconds after which slow traces are left undecided
        self.instrumented = True
        self.undecided = 0          # traces whose validation was given up

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def build(self):
        h = os.path.join(self.dir, "h")
        shutil.copytree(os.path.join(VERIF, "harness"), h)
        gm = os.path.join(h, "go.mod")
        s = open(gm).read().replace("=> /repo", "=> " + REPO)
        open(gm, "w").write(s)
        ov = os.path.join(self.dir, "ov")
        os.mkdir(ov)
        self.bin = os.path.join(self.dir, "vh.test")
        env = goenv()

        def go(*a):
            return subprocess.run(["go", *a], cwd=h, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

        last = None
        for extra in ([], ["-nopoints"], ["-plain"]):
            p = go("run", "./instr", "-dir", REPO, "-out", ov, *extra)
            if p.returncode == 0:
                p = go("test", "-c", "-vet=off", "-overlay", os.path.join(ov, "overlay.json"), "-o", self.bin, "./drv")
                if p.returncode == 0:
                    self.instrumented = not extra
                    return
            last = p
        raise CheckError("the harness does not build:\n" + last.stdout[-4000:])

    # -- running scenarios ---------------------------------------------------------------------------------
    def drive(self, fam, mode, n, seed, first=0, seconds=3600, env=None, procs=NPROC):
        """Runs scenarios first..first+n-1 of a family, returns (traces, crashes).
        A crash is a scenario whose process died: {"id", "out"}."""
        jobs = []
        for k in range(procs):
            jobs.append((k, first + k))

        def job(a):
            k, frm = a
            out = os.path.join(self.dir, f"{fam}-{mode}-{first}-{k}.json")
            prog = out + ".prog"
            open(out, "w").close()
            crashes, to, deadline = [], first + n, time.time() + seconds
            while frm < to and time.time() < deadline:
                e = dict(os.environ, VH_FAM=fam, VH_MODE=mode, VH_FROM=str(frm), VH_TO=str(to), VH_STEP=str(procs),
                         VH_SEED=str(seed), VH_OUT=out, VH_PROG=prog, VH_SECONDS=str(max(1, int(deadline - time.time()))),
                         GOTRACEBACK="all", **(env or {}))
                p = subprocess.run([self.bin, "-test.run", "^TestDriver$", "-test.timeout", "0"], env=e, cwd=self.dir,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
                if p.returncode == 0 and "DONE" in p.stdout:
                    break
                at = int(open(prog).read() or frm)
                if p.returncode == 10 and "ABANDONED" in p.stdout:
                    frm = at + procs
                    continue
                crashes.append({"id": at, "rc": p.returncode, "out": (p.stderr + p.stdout)[-6000:]})
                frm = at + procs
                if len(crashes) >= 5:
                    break
            return out, crashes

        traces, crashes = [], []
        with cf.ThreadPoolExecutor(procs) as ex:
            for out, cr in ex.map(job, jobs):
                crashes += cr
                for line in open(out):
                    if line.endswith("\n"):
                        try:
                            traces.append(json.loads(line))
                        except ValueError:
                            pass
                os.unlink(out)
        traces.sort(key=lambda t: t["id"])
        return traces, crashes

    # -- TLC -----------------------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, args=(), env=None, workers=1, timeout=800, heap="2g"):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss16m", *(["-XX:TieredStopAtLevel=1"] if workers == 1 else []),
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), *args, os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, env=dict(os.environ, **(env or {})), cwd=SPEC, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired as x:
            rc, out = -1, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    def validate(self, module, traces, shards=NPROC, env=None, strip=(), cfg=None, timeout=400):
        """Returns ([(trace, position)] of the traces that are not behaviours of the spec, states)."""
        if not traces:
            return [], 0, 0
        shards = min(shards, max(1, len(traces) // 4))
        parts = [traces[i::shards] for i in range(shards)]

        def one(i):
            f = os.path.join(self.dir, f"tr-{module}-{i}-{time.time_ns()}.ndjson")
            with open(f, "w") as o:
                for t in parts[i]:
                    o.write(json.dumps({k: v for k, v in t.items() if k not in strip}) + "\n")
            rc, out = self.tlc(module, cfg=cfg, env=dict(TRACES=f, **(env or {})), timeout=timeout)
            os.unlink(f)
            return i, rc, out

        rejected, gen, dist = [], 0, 0
        with cf.ThreadPoolExecutor(shards) as ex:
            for i, rc, out in ex.map(one, range(shards)):
                m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
                if rc == -1 and timeout > 40:        # too slow: one trace at a time, giving up on what is too big
                    for t in parts[i]:
                        if time.time() - self.t0 > self.giveup:
                            self.undecided += 1
                            continue
                        j, g, d = self.validate(module, [t], 1, dict(env or {}, LIMIT="20000"), strip, cfg, 40)
                        rejected, gen, dist = rejected + j, gen + g, dist + d
                    continue
                if rc == -1:
                    self.undecided += len(parts[i])
                    continue
                if (rc != 0 or not m or "Error:" in out) and m and len(traces) > 0 and "Semantic errors" not in out and "Parsing" not in out.split("Starting...")[-1]:
                    # an expression has no value for some trace (it's nothing that the specification speaks of): which one?
                    if len(parts[i]) == 1:
                        print(f"note: TLC can't evaluate {module} for scenario {parts[i][0].get('id')}: {out[-1600:]}", file=sys.stderr)
                        rejected.append((parts[i][0], len(parts[i][0]["ev"])))
                        continue
                    for half in parts[i][0::2], parts[i][1::2]:
                        if len(rejected) < 3:
                            j, g, d = self.validate(module, half, 1, env, strip, cfg, timeout)
                            rejected, gen, dist = rejected + j, gen + g, dist + d
                    continue
                if rc != 0 or not m or "Error:" in out:
                    raise CheckError(f"TLC failed on {module} (rc {rc}):\n" + out[-3000:])
                gen += int(m[1])
                dist += int(m[2])
                for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', out):
                    rejected.append((parts[i][int(a) - 1], int(b)))
                self.undecided += len(re.findall(r'<<"UNDECIDED"', out))
        return rejected, gen, dist

    def enumerate(self, module, env, cfg=None, timeout=300):
        """Sequences a generator module prints as <<"SEQ", <<...>>>> or <<"SEQ", "...">>."""
        rc, out = self.tlc(module, cfg=cfg, workers=NPROC, env=env, timeout=timeout)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError(f"enumerating {module} failed (rc {rc}):\n" + out[-3000:])
        return sorted(re.findall(r'<<"SEQ", (?:<<|")(.*?)(?:>>|")>>', out))

    def modelcheck(self, module, cfg=None, workers=NPROC, timeout=600, args=(), heap="8g", env=None):
        rc, out = self.tlc(module, cfg=cfg, workers=workers, timeout=timeout, args=args, heap=heap, env=env)
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        if rc != 0 or not m or "No error has been found" not in out:
            raise CheckError(f"model checking {module}/{cfg} failed (rc {rc}):\n" + out[-5000:])
        g, d = m[-1]
        dm = re.search(r"depth of the complete state graph search is (\d+)", out)
        return dict(module=module, config=cfg or module, generated=int(g.replace(",", "")),
                    distinct=int(d.replace(",", "")), depth=int(dm[1]) if dm else None)
