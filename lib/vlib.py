"""Common machinery of the checks: build, run drivers, run TLC, report."""
import concurrent.futures as cf
import threading
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    go = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(go):
        e["PATH"] = go + ":" + e.get("PATH", "/usr/bin:/bin")
    e["GOTOOLCHAIN"] = "local"
    e["GOPROXY"] = "off"
    e["GOFLAGS"] = "-mod=mod -buildvcs=false"
    e["GOWORK"] = "off"
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


class Check:
    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.mismatches = []   # dicts: key, why, trace line
        self.notes = []
        self.stucks = 0
        self.extra = {}
        self._bin = {}
        self._java = None
        self._lock = threading.RLock()
        self.assumptions = []

    def close(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.tmp, ignore_errors=True)

    # ---- building --------------------------------------------------------
    def build(self, name="drv", overlay=None, tags=None, race=False):
        with self._lock:
            return self._build(name, overlay, tags, race)

    def build_or_none(self, **kw):
        """A variant of the driver, or None (with a note) if the tree does not build in that variant."""
        try:
            return self.build(**kw)
        except CheckError:
            self.notes.append("variant %s does not build: not explored" % kw)
            return None

    def _build(self, name, overlay, tags, race):
        k = (name, overlay, tags, race)
        if k in self._bin:
            return self._bin[k]
        src = os.path.join(self.tmp, "harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            gm = os.path.join(src, "go.mod")
            s = open(gm).read().replace("=> /repo", "=> " + REPO)
            open(gm, "w").write(s)
        out = os.path.join(self.tmp, "bin-%d" % len(self._bin))
        cmd = ["go", "build", "-o", out]
        if race:
            cmd.append("-race")
        if overlay:
            cmd += ["-overlay", overlay]
        if tags:
            cmd += ["-tags", tags]
        cmd.append(".")
        p = subprocess.run(cmd, cwd=src, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            if overlay:
                return None
            raise CheckError("building the driver failed:\n" + p.stdout[-4000:])
        self._bin[k] = out
        return out

    def java(self):
        with self._lock:
            return self._javac()

    def _javac(self):
        if self._java:
            return self._java
        d = os.path.join(self.tmp, "classes")
        os.makedirs(d)
        srcs = [os.path.join(VERIF, "java/tlc2/overrides", f) for f in os.listdir(os.path.join(VERIF, "java/tlc2/overrides"))]
        p = subprocess.run(["javac", "-nowarn", "-cp", TLA + ":" + CM, "-d", d] + srcs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("javac failed:\n" + p.stdout)
        self._java = d
        return d

    # ---- drivers ---------------------------------------------------------
    def drive(self, sub, n, extra=(), shards=None, timeout=60, bin=None, tag=None, max_crashes=40, envx=None, parallel=None, one_cpu=False):
        """Run the driver's subcommand over n cases; returns the trace files.

        A case that ends the process, or makes no progress for `timeout`
        seconds, is recorded as a line with outcome "crash" or "stuck"."""
        bin = bin or self.build()
        shards = shards or NCPU
        tag = tag or sub
        outs = []
        with cf.ThreadPoolExecutor(parallel or shards) as ex:
            futs = []
            for s in range(shards):
                out = os.path.join(self.tmp, "%s-%d.ndjson" % (tag, s))
                outs.append(out)
                futs.append(ex.submit(self._drive1, bin, sub, n, s, shards, out, extra, timeout, max_crashes, envx, one_cpu))
            for f in futs:
                f.result()
        return outs

    def _drive1(self, bin, sub, n, shard, of, out, extra, timeout, max_crashes, envx, one_cpu=False):
        frm = 0
        crashes = stucks = 0
        open(out, "a").close()
        while True:
            scratch = tempfile.mkdtemp(dir=self.tmp)
            cmd = [bin, sub, "-out", out, "-seed", str(self.seed), "-tier", self.tier, "-from", str(frm),
                   "-n", str(n), "-shard", str(shard), "-of", str(of), "-dir", scratch] + list(extra)
            e = env()
            e.setdefault("GOTRACEBACK", "single")
            if envx:
                e.update(envx)
            errf = open(out + ".err", "w")
            cur = out + ".cur"
            if os.path.exists(cur):
                os.remove(cur)
            pre = None
            if one_cpu:
                cpus = sorted(os.sched_getaffinity(0))
                cpu = cpus[shard % len(cpus)]
                pre = lambda: os.sched_setaffinity(0, {cpu})
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=errf, env=e, cwd=scratch, preexec_fn=pre)
            last, stamp, stuck = None, time.time(), False
            while True:
                try:
                    p.wait(timeout=0.05 if time.time() - stamp < 1 else 0.5)
                    break
                except subprocess.TimeoutExpired:
                    pass
                try:
                    st = (os.stat(cur).st_mtime_ns, os.stat(out).st_size)
                except OSError:
                    st = None
                if st != last:
                    last, stamp = st, time.time()
                elif time.time() - stamp > timeout:
                    stuck = True
                    p.kill()
                    p.wait()
                    break
            errf.close()
            shutil.rmtree(scratch, ignore_errors=True)
            curs = open(cur, errors="replace").readline().rstrip("\n") if os.path.exists(cur) else ""
            if p.returncode == 0 and curs == "done":
                return
            err = open(out + ".err").read()
            if p.returncode == 97 or not curs or "HARNESS-ERROR" in err:
                raise CheckError("driver %s failed (%s): %s" % (sub, p.returncode, err[-3000:]))
            idx, rec = curs.split(" ", 1)
            # a torn trace line of the crashed case is dropped
            data = open(out, "rb").read()
            if data and not data.endswith(b"\n"):
                data = data[:data.rfind(b"\n") + 1]
                open(out, "wb").write(data)
            rec = json.loads(rec)
            what = "stuck" if stuck else "crash"
            m = re.search(r"(ag: error[^\n]*|fatal error: [^\n]*|panic: [^\n]*|WARNING: DATA RACE)", err)
            detail = m.group(1) if m else err.strip()[-200:]
            if "all goroutines are asleep" in err:
                what = "deadlock"
            rec["outcome"] = what
            rec["detail"] = detail[:300]
            with open(out, "a") as f:
                f.write(json.dumps(rec) + "\n")
            crashes += 1
            if stuck or what == "deadlock":
                stucks += 1
                with self._lock:
                    self.stucks += 1
            if crashes >= max_crashes or stucks >= 2 or (stucks and self.stucks > 6):
                self.notes.append("%s shard %d stopped after %d crashed or stuck cases" % (sub, shard, crashes))
                return
            frm = int(idx) + 1

    # ---- TLC -------------------------------------------------------------
    def tlc(self, spec, cfg=None, trace=None, workers=1, envx=None, heap="1500m", timeout=800, args=(), want_consumed=True, meta=None):
        """Run TLC; returns its output. Counts states and collects mismatches."""
        wd = tempfile.mkdtemp(dir=self.tmp)
        e = dict(os.environ)
        if trace:
            e["TRACE"] = trace
        if envx:
            e.update(envx)
        cfg = cfg or spec + ".cfg"
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap,
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.VerifOverrides:tlc2.overrides.TLCOverrides",
               "-Djava.io.tmpdir=" + wd,
               "-DTLA-Library=" + os.path.join(VERIF, "spec"),
               "-cp", self.java() + ":" + TLA + ":" + CM, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", os.path.join(wd, "meta"), "-workers", str(workers), "-config", os.path.join(VERIF, "spec", cfg)] + list(args) + \
              [os.path.join(VERIF, "spec", spec + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s (%s)" % (spec, trace))
        out = p.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        shutil.rmtree(wd, ignore_errors=True)
        return out, p.returncode

    def model(self, spec, cfg=None, workers=None, heap="6g", timeout=800):
        """Model-check a protocol specification; it must satisfy its properties."""
        s0, t0 = self.states, time.time()
        out, rc = self.tlc(spec, cfg=cfg, workers=workers or NCPU, heap=heap, timeout=timeout)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model checking %s (%s) failed:\n%s" % (spec, cfg, tail(out)))
        self.extra.setdefault("models_checked", []).append(
            dict(spec=spec, cfg=cfg or spec + ".cfg", distinct_states=self.states - s0, wall_s=round(time.time() - t0, 1)))

    def behaviours(self, spec, num, depth, cfg=None, mark="SCHED", workers=4, timeout=300):
        """Behaviours of a generator specification, one JSON object per line of the returned file."""
        out, rc = self.tlc(spec, cfg=cfg, workers=workers, heap="3g", timeout=timeout,
                           args=["-simulate", "num=%d" % max(1, num // workers), "-depth", str(depth), "-seed", str(self.seed)])
        got = []
        for m in re.finditer(r'^<<"%s", (".*")>>$' % mark, out, re.M):
            got.append(json.loads(m.group(1)))
        got = list(dict.fromkeys(got))
        if not got:
            raise CheckError("no behaviours from %s:\n%s" % (spec, tail(out)))
        f = os.path.join(self.tmp, spec + ".in.ndjson")
        open(f, "w").write("\n".join(got[:num]) + "\n")
        self.extra.setdefault("behaviours_replayed", {})[spec] = len(got[:num])
        return f

    def overlay(self):
        """An overlay with scheduling points in the concurrent packages, or None."""
        with self._lock:
            if not hasattr(self, "_overlay"):
                self._overlay = None
                src = os.path.join(self.tmp, "instr")
                shutil.copytree(os.path.join(VERIF, "tools", "instr"), src)
                p = subprocess.run(["go", "run", ".", "-repo", REPO, "-out", os.path.join(self.tmp, "ov")], cwd=src, env=env(),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode == 0:
                    self._overlay = os.path.join(self.tmp, "ov", "overlay.json")
                else:
                    self.notes.append("no instrumented build: " + p.stdout[-300:])
            return self._overlay

    def build_yield(self):
        """The driver with scheduling points, or the plain one if that does not build."""
        ov = self.overlay()
        b = self.build(overlay=ov) if ov else None
        if not b:
            self.notes.append("instrumented build not available; plain build used")
        return b or self.build()

    def validate(self, spec, traces, cfg=None, keyf=None, heap="1500m", timeout=800, envx=None):
        """Validate trace files line by line with a deterministic trace spec."""
        traces = [t for t in traces if os.path.exists(t) and os.path.getsize(t) > 0]

        def one(t):
            """A line that makes no sense to the specification (TLC cannot evaluate it) is a mismatch by itself."""
            part, done, outs, left = t, 0, [], 4
            while True:
                out, rc = self.tlc(spec, cfg=cfg, trace=part, heap=heap, timeout=timeout, envx=envx)
                m = re.search(r'<<\s*"CONSUMED",\s*(\d+),\s*(\d+)\s*>>', out)
                at = re.findall(r"^(?:/\\ )?i = (\d+)$", out, re.M)
                k, why = 0, ""
                if rc == 0 and m and int(m.group(1)) < int(m.group(2)):
                    k, why = int(m.group(1)) + 1, "no step of the specification leads to what was recorded"
                elif rc != 0 and at and "behavior up to this point is" in out and "Reason:" in out and \
                        not re.search(r"StackOverflow|OutOfMemory|heap space|overflow", out):
                    k, why = int(at[-1]), "the specification can make nothing of what was recorded"
                if k == 0 or left == 0:
                    return t, out, rc, outs, done
                lines = open(part).read().splitlines()
                with self._lock:
                    self.mismatches.append(dict(key=json.loads(lines[k - 1]).get("key", "?"), trace=t, line=lines[k - 1], spec=spec,
                                                why=why))
                outs.append((done, out))
                done += k
                left -= 1
                part = t + ".rest%d" % left
                if k == len(lines):
                    return t, None, 0, outs, done
                open(part, "w").write("\n".join(lines[k:]) + "\n")
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, traces))
        for t, out, rc, outs, done in res:
            lines = open(t).read().splitlines()
            if out is not None:
                m = re.search(r'<<\s*"CONSUMED",\s*(\d+),\s*(\d+)\s*>>', out)
                if rc != 0 or not m or m.group(1) != m.group(2):
                    if outs:  # what TLC could not evaluate has been reported
                        self.notes.append("%s: gave up on a trace with several lines that cannot be evaluated" % spec)
                    else:
                        raise CheckError("TLC did not consume %s with %s:\n%s" % (t, spec, tail(out)))
                outs = outs + [(done, out)]
            self.traces += len(lines)
            for off, o in outs:
                for mm in parse_mismatches(o):
                    self.mismatches.append(dict(key=mm[1], why=mm[2], trace=t, line=lines[off + int(mm[0]) - 1], spec=spec))
            if lines and len(self.samples) < 4:
                s = lines[min(len(lines) - 1, 3)]
                if len(s) > 1500:
                    s = s[:1500] + "..."
                self.samples.append(s)
        return res

    def search(self, spec, traces, why, cfg=None, heap="2g", timeout=800, need=lambda rec: True):
        """Validate histories whose explanation TLC has to search for: lines without ACCEPT are mismatches."""
        traces = [t for t in traces if os.path.exists(t) and os.path.getsize(t) > 0]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda t: (t,) + self.tlc(spec, cfg=cfg, trace=t, heap=heap, timeout=timeout), traces))
        for t, out, rc in res:
            lines = open(t).read().splitlines()
            if rc != 0 or "No error has been found" not in out:
                raise CheckError("TLC did not search %s with %s:\n%s" % (t, spec, tail(out)))
            acc = {int(x) for x in re.findall(r'<<\s*"ACCEPT",\s*(\d+)\s*>>', out)}
            self.traces += len(lines)
            for mm in parse_mismatches(out):
                self.mismatches.append(dict(key=mm[1], why=mm[2], trace=t, line=lines[int(mm[0]) - 1], spec=spec))
            for n, l in enumerate(lines, 1):
                rec = json.loads(l)
                if rec["outcome"] == "ok" and need(rec) and n not in acc:
                    self.mismatches.append(dict(key=rec["key"], why=why, trace=t, line=l, spec=spec))
            if lines and len(self.samples) < 4:
                self.samples.append(lines[min(len(lines) - 1, 3)][:1500])

    def violation(self, key, why, line="", spec=""):
        self.mismatches.append(dict(key=key, why=why, trace=None, line=line, spec=spec))

    # ---- reporting -------------------------------------------------------
    def finish(self, level="model_checking"):
        known = load_known(self.prop)
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        new, old = [], {}
        for m in self.mismatches:
            k = next((k for k in known if re.fullmatch(k, m["key"] + " " + m["why"])), None)
            if k:
                old.setdefault(k, []).append(m)
            else:
                new.append(m)
        for k in known:
            if k in old:
                print("KNOWN-FINDING: property=%s %s (%d occurrences)" % (self.prop, known[k], len(old[k])))
        replay = None
        if new:
            rd = os.path.join(ev, "replay")
            os.makedirs(rd, exist_ok=True)
            replay = os.path.join(rd, self.prop + ".ndjson")
            with open(replay, "w") as f:
                for m in new[:50]:
                    f.write(json.dumps(dict(key=m["key"], why=m["why"], spec=m["spec"], seed=self.seed, tier=self.tier, line=m["line"])) + "\n")
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["none"])
        cov.update(self.extra)
        if self.notes:
            cov["notes"] = self.notes
        with open(os.path.join(ev, self.prop + ".json"), "w") as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                           assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new)), f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        if new:
            seen = {}
            for m in new:
                seen.setdefault((m["key"], m["why"]), []).append(m)
            for (k, w), ms in list(seen.items())[:int(os.environ.get("VERIF_SHOW", "15"))]:
                print("mismatch %s: %s (%d times)" % (k, w, len(ms)))
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        print("OK property=%s tier=%s states=%d traces=%d wall=%.1fs" % (self.prop, self.tier, self.states, self.traces, time.time() - self.t0))
        return 0


def tail(out):
    ls = [l for l in out.splitlines() if l.strip() and not re.match(r"(Parsing|Semantic|Linting|Running|TLC2)", l)]
    k = next((i for i, l in enumerate(ls) if l.startswith("Error:")), None)
    return "\n".join((ls[k:k + 12] if k is not None else []) + ["..."] + ls[-12:])[-6000:]


def parse_mismatches(out):
    """<<"MISMATCH", i, "key", <<"why", ...>>>> as printed by TLC, possibly over several lines."""
    res = []
    for m in re.finditer(r'<<\s*"MISMATCH",\s*(\d+),\s*"([^"]*)",\s*(.*?)\s*>>\s*(?=\n[^ ]|\Z)', out, re.S):
        whys = re.findall(r'"([^"]*)"', m.group(3))
        res.append((m.group(1), m.group(2), "; ".join(dict.fromkeys(whys)) or m.group(3)[:200]))
    return res


def load_known(prop):
    """KNOWN_FINDINGS lines: 'finding: property=<id> key=<regex> :: <description>'."""
    res = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res
