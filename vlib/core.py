"""Plumbing shared by the checks: building the harness from /repo, running it,
running TLC, turning rejected traces into violations, evidence."""
from concurrent import futures
import itertools, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOENV = dict(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")


class CheckError(Exception):
    """The check could not decide: exit 2, never a violation."""


def sh(cmd, timeout=600, env=None, cwd=None, stdin=None, check=True):
    e = dict(os.environ)
    e.update(GOENV)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, input=stdin, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("timeout after %ds: %s" % (timeout, " ".join(map(str, cmd))[:200]))
    if check and p.returncode != 0:
        raise CheckError("exit %d: %s\n%s\n%s" % (p.returncode, " ".join(map(str, cmd))[:300],
                         p.stdout.decode("utf8", "replace")[-3000:], p.stderr.decode("utf8", "replace")[-3000:]))
    return p


def died(p):
    """The library hung or broke its process (reading what a broken call left
    behind may also be what breaks it); anything else is the check's fault."""
    err = p.stderr.decode("utf8", "replace")
    return p.returncode == 97 or (p.returncode < 0 and -p.returncode in (4, 5, 6, 7, 8, 11)) or \
        re.search(r"fatal error:|SIGSEGV|DATA RACE|^panic: |unexpected fault", err, re.M) is not None


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.run_bin = None # a harness other than the plain one, for sessions
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self._bin = {}
        self.other = None  # a harness built otherwise, used instead
        self._n = itertools.count(1)
        self.lock = threading.Lock()

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        return os.path.join(self.work, "%03d-%s" % (next(self._n), name.replace("/", "-")))

    def note(self, k, v):
        self.cov[k] = v

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------ building
    def module(self):
        """A copy of the harness module with REPO substituted."""
        if "mod" not in self._bin:
            d = os.path.join(self.work, "harness")
            shutil.copytree(os.path.join(VERIF, "harness"), d)
            gm = open(os.path.join(d, "go.mod")).read()
            open(os.path.join(d, "go.mod"), "w").write(gm.replace("=> /repo", "=> " + REPO))
            self._bin["mod"] = d
        return self._bin["mod"]

    def harness(self, race=False):
        key = "race" if race else "plain"
        if self.other and not race:
            return self.other
        if key not in self._bin:
            out = os.path.join(self.work, "vh-" + key)
            sh(["go", "build"] + (["-race"] if race else []) + ["-o", out, "."], cwd=self.module(), timeout=600)
            self._bin[key] = out
            self.log("harness built", key)
        return self._bin[key]

    def plugin(self):
        if "plugin" not in self._bin:
            out = os.path.join(self.work, "protoc-gen-golite")
            sh(["go", "build", "-o", out, "./cmd/protoc-gen-golite"], cwd=REPO, timeout=600)
            self._bin["plugin"] = out
            self.log("plugin built")
        return self._bin["plugin"]

    # ---------------------------------------------------------- violations
    def violation(self, what, replay):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.json" % (self.prop, self.seed, len(self.violations) + 1))
        replay = dict(replay, property=self.prop, what=what)
        with open(path, "w") as f:
            json.dump(replay, f, indent=1)
        self.violations.append((what, path))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  " + what[:600], flush=True)

    def known_finding(self, what):
        self.known.append(what)
        print("KNOWN-FINDING: property=%s %s" % (self.prop, what), flush=True)

    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                samples=self.samples[:6], **self.cov),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log("states=%d transitions=%d traces=%d violations=%d" % (
            self.states, self.transitions, self.traces, len(self.violations)))

    # ----------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, timeout=800, args=(), workers="auto", heap="6g", expect_error=False,
            count=True):
        """Runs TLC; returns (stdout, generated, distinct). cfg is the text of the configuration."""
        d = self.path("tlc")
        os.makedirs(d)
        cfgp = os.path.join(d, "M.cfg")
        open(cfgp, "w").write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", cfgp] + list(args) + [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        if self.violations: # enough is known
            timeout = min(timeout, 150)
        p = sh(cmd, env=env, cwd=d, timeout=timeout, check=False)
        out = p.stdout.decode("utf8", "replace")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        ok = "Model checking completed. No error has been found" in out
        if not ok and not expect_error:
            raise CheckError("TLC on %s failed (exit %d)\n%s\n%s" % (
                module, p.returncode, out[-4000:], p.stderr.decode("utf8", "replace")[-1500:]))
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if count:
            with self.lock:
                self.states += dist
                self.transitions += gen
        self.log("TLC %s: %d generated, %d distinct, %.1fs" % (module, gen, dist, time.time() - t))
        return out, gen, dist

    # ------------------------------------------------------------ sessions
    def gen_sessions(self, profile, n, per=3, nodes=14, seed=None, binary=None):
        f = self.path(profile + ".sessions")
        sh([binary or self.harness(), "gen", "-profile", profile, "-seed", str(self.seed if seed is None else seed),
            "-n", str(n), "-per", str(per), "-nodes", str(nodes), "-sessions", f])
        return f

    def mix_sessions(self, profiles, k=0, binary=None):
        """Sessions of several profiles in one file: (profile, number, seed, nodes)."""
        out = self.path("mix.sessions")
        n = 0
        with open(out, "w") as f:
            for name, num, seed, nodes in profiles:
                part = self.gen_sessions(name, num, nodes=nodes, seed=seed, binary=binary)
                for l in open(part):
                    m = re.match(r'\{"id":\d+,', l)
                    f.write('{"id":%d,' % n + l[m.end():])
                    n += 1
                os.remove(part)
        return out

    def execute(self, sessions, measure=False, race=False, env=None, limit="20s", max_crashes=4, extra=()):
        """Runs a sessions file on the real code. A call that kills or hangs the process
        becomes a 'crash' event of its session."""
        trace, cat, prog = self.path("trace"), self.path("catalog"), self.path("progress")
        total = sum(1 for _ in open(sessions))
        args, crashes = [], []
        while True:
            cmd = [self.run_bin or self.harness(race), "run", "-sessions", sessions, "-trace", trace, "-catalog", cat,
                   "-progress", prog, "-limit", limit] + (["-measure"] if measure else []) + args + list(extra)
            p = sh(cmd, env=dict(env or {}, GOTRACEBACK="single"), timeout=600, check=False)
            if p.returncode == 0:
                break
            err = p.stderr.decode("utf8", "replace")
            pos = 0
            try:
                pos = int(open(prog).read().split()[0])
            except Exception:
                raise CheckError("harness failed: " + err[-2000:])
            if p.returncode == 97:
                kind = "hang"
            elif died(p):
                kind = "crash"
            else:
                raise CheckError("harness failed (exit %d): %s" % (p.returncode, err[-2000:]))
            crashes.append((pos, kind, err[:1500]))
            self.log("session %d: %s: %s" % (pos, kind, err.strip().split("\n")[0]))
            extra_args = ["-from", str(pos), "-mark", kind]
            if len(crashes) >= max_crashes:
                extra_args += ["-stop"]
            args = extra_args
        return trace, cat, total, crashes

    def validate(self, trace, cat, focus, timeout=800, count=True):
        """TLC on the recorded trace; returns [(clauses, line, session)]."""
        lines = sum(1 for _ in open(trace))
        cfg = "SPECIFICATION Spec\nCONSTANT Focus = {%s}\nCHECK_DEADLOCK FALSE\n" % ", ".join('"%s"' % c for c in focus)
        out, gen, dist = self.tlc("TraceSession", cfg, env=dict(TRACE=trace, CATALOG=cat), timeout=timeout, count=count)
        if dist != lines:
            raise CheckError("TLC consumed %d of %d trace lines" % (dist, lines))
        return parse_bad(out)

    def sessions(self, sessions, focus, measure=False, race=False, env=None, label="", sample=True, extra=()):
        """Execute, validate, report."""
        trace, cat, total, crashes = self.execute(sessions, measure, race, env, extra=extra)
        bad = self.validate(trace, cat, focus)
        evs = [json.loads(l) for l in open(trace)]
        self.traces += sum(1 for e in evs if e["op"] == "start")
        for e in evs:
            if e["op"] in ("marshal", "unmarshal"):
                self.count("events_" + e["op"])
                if e["op"] == "unmarshal":
                    self.count("unmarshal_rejected" if e["err"] else "unmarshal_accepted")
        if sample and evs:
            i = max(j for j, e in enumerate(evs[: len(evs) // 2 + 1]) if e["op"] == "start")
            self.samples.append(dict(kind="session " + label, events=evs[i:i + 4]))
        if not bad:
            return trace
        ss = [json.loads(l) for l in open(sessions)]
        bad.sort(key=lambda b: b[1])
        reported = set()
        for clauses, line, sid in bad:
            if len(self.violations) >= 5:
                break
            pos = next(i for i, s in enumerate(ss) if s["id"] == sid)
            key = (tuple(sorted(clauses)), evs[line - 1]["op"])
            if key in reported:
                continue
            reported.add(key)
            rep = self.confirm(sessions, ss, pos, focus, clauses, measure, race, env, extra)
            if rep is None: # it was seen: it depends on chance (addresses, timing), as after a collection
                self.log("not reproduced in 5 runs: the whole run is the replay")
                rep = ss
            self.violation("session %d (%s): event %s violates %s%s" % (
                sid, label, evs[line - 1]["op"], ", ".join(sorted(clauses)), 
                "; outcome " + str(evs[line - 1].get("err")) if evs[line - 1].get("err") else ""),
                dict(kind="sessions", focus=list(focus), clauses=sorted(clauses), measure=measure,
                     env=env or {}, event=evs[line - 1], sessions=rep))

    # ------------------------------------------- states enumerated by TLC
    def replay_states(self, module, cfg, focus, label, args=("",), cmd="cases", timeout=800, heap="6g", out=None, env=None, extra=()):
        """TLC explores `module`, checks its invariants and prints its states; the harness
        replays them; what differs is judged as a session."""
        if out is None:
            out, _, _ = self.tlc(module, cfg, timeout=timeout, heap=heap)
        f, diff, prog = self.path(label + ".tlc"), self.path(label + ".diff"), self.path("progress")
        open(f, "w").write(out)
        n0, res, crashed = 0, None, 0
        p = sh([self.harness(), cmd, "-arg", f, "-seed", str(self.seed), "-n", "0", *extra, diff, prog, *args], timeout=600, check=False, env=env)
        if p.returncode != 0:
            # a case killed or hung the process: judge it alone
            err = p.stderr.decode("utf8", "replace")
            if not died(p):
                raise CheckError("cases failed: " + err[-2000:])
            try:
                pos = int(open(prog).read().split()[0])
            except Exception:
                raise CheckError("cases failed: " + err[-2000:])
            one = self.path("one.diff")
            sh([self.harness(), cmd + "session", "-arg", f, "-seed", str(self.seed), "-n", str(pos), one, prog, *args])
            self.sessions(one, focus, label="TLC state of %s" % label, sample=False, env=env, extra=extra)
            self.sessions(diff, focus, label="TLC state of %s" % label, sample=False, env=env, extra=extra)
            if not self.violations:
                raise CheckError("a replayed state killed the harness: " + err[:600])
            return
        res = json.loads(p.stdout.decode().strip().split("\n")[-1])
        if res["cases"] == 0:
            raise CheckError("TLC printed no states of " + module)
        self.traces += res["cases"]
        self.count("states_replayed", res["cases"])
        for k in ("accepted", "rejected", "calls"):
            if res.get(k):
                self.count("states_" + k, res[k])
        m = re.search(r'"(CASE .*)"', out)
        if m:
            self.samples.append(dict(kind="TLC state of " + label, state=m.group(1).replace('\\"', '"')[:600]))
        self.log("%s: %d states replayed, %d differ" % (label, res["cases"], res["differ"]))
        if res["differ"]:
            self.sessions(diff, focus, label="TLC state of " + label, sample=False, env=env, extra=extra)

    def client(self, depth, focus, env=None, extra=()):
        """Every history of a client with two messages and two slices."""
        self.replay_states("Client", """SPECIFICATION Spec
CONSTANTS Depth = %d
  Emit = TRUE
INVARIANTS FedIsDecoded OfIsEncoded Printed
PROPERTY OnlyIts
CHECK_DEADLOCK FALSE
""" % depth, focus, "Client", args=(), cmd="client", env=env, extra=extra)

    SCRATCH = """SPECIFICATION Spec
CONSTANTS Procs = %d
  MaxD = %d
  Rich <- %s
  Kinds2 <- %s
  Clear = "always"
  Taken = TRUE
  AnyArea = %s
  Emit = %s
INVARIANTS Exclusive Clean Own%s
CHECK_DEADLOCK FALSE
"""

    def scratch(self, rich, kinds, focus):
        """Sequences of decodes whose map entries use what others leave behind."""
        cfg = self.SCRATCH % (1, len(rich) - 1, rich, kinds, "FALSE", "TRUE", " Printed")
        self.replay_states("ScratchSets", cfg, focus, "Scratch/" + rich, args=(), cmd="scratch")

    def scratch_sessions(self, rich, kinds, n, seed):
        """Sessions of these sequences, neighbours of one map type, to be run by goroutines."""
        f, out = self.path("scratch.tlc"), self.path("scratch.sessions")
        open(f, "w").write(self.tlc("ScratchSets", self.SCRATCH % (1, len(rich) - 1, rich, kinds, "FALSE", "TRUE", " Printed"))[0])
        sh([self.harness(), "scratchconc", "-arg", f, "-seed", str(seed), "-n", str(n), out])
        return out

    def scratch_interleavings(self, procs, rich, kinds):
        """The design, for goroutines that share the pool."""
        self.tlc("ScratchSets", self.SCRATCH % (procs, len(rich) - 1, rich, kinds, "TRUE", "FALSE", ""), timeout=1200)

    def decoder(self, sets, tokens, focus):
        cfg = """SPECIFICATION Spec
CONSTANTS Types <- TypesOf
  Tokens <- TokensOf
  MaxTokens = %d
  Emit = TRUE
  Set = "%s"
INVARIANTS Agree Canonical FailStays Printed
CHECK_DEADLOCK FALSE
"""
        self.harness()
        with futures.ThreadPoolExecutor(3) as ex:
            outs = [ex.submit(self.tlc, "DecoderSets", cfg % (tokens, s), workers=3, heap="4g") for s in sets]
            for s, o in zip(sets, outs):
                if len(self.violations) >= 3:
                    break
                self.replay_states("DecoderSets", "", focus, "Decoder/" + s, args=("DRec" if s == "rec" else "",), out=o.result()[0])

    def encoder(self, parts, rich, focus):
        cfg = """SPECIFICATION Spec
CONSTANTS Emit = TRUE
  Parts = {%s}
  Rich = %s
INVARIANTS SizeExact DecodesBack Canonical PresenceShows Unset Printed
CHECK_DEADLOCK FALSE
""" % (", ".join('"%s"' % p for p in parts), "TRUE" if rich else "FALSE")
        self.replay_states("Encoder", cfg, focus, "Encoder")

    # --------------------------------------------- sessions by goroutines
    def concurrent(self, sessions, focus, label, goroutines=6, wide=4, passes=20, race=False, binary=None, env=None):
        """Every session is run by several goroutines at once that share what it only reads."""
        trace, cat, prog = self.path("conc.trace"), self.path("conc.catalog"), self.path("progress")
        p = sh([binary or self.harness(race), "conc", "-arg", sessions, "-trace", trace, "-catalog", cat, "-limit", "60s",
                str(goroutines), str(wide), str(passes), prog], timeout=700, check=False,
               env=dict(env or {}, GOTRACEBACK="single", GORACE="halt_on_error=1 exitcode=66"))
        if p.returncode != 0:
            err = p.stderr.decode("utf8", "replace")
            if not died(p):
                raise CheckError("conc failed (exit %d): %s" % (p.returncode, err[-2000:]))
            kind = "hang" if p.returncode == 97 else "data race" if "DATA RACE" in err else "crash"
            a, b = map(int, open(prog).read().split())
            what = " / ".join(re.findall(r"^\s+([\w./*()]*proto\.\S+)\(", err, re.M)[:4]) if kind == "data race" else err.strip().split("\n")[0]
            ss = [json.loads(l) for l in open(sessions)][a:b]
            self.violation("%s while %d goroutines used ready types (%s): %s" % (kind, goroutines, label, what),
                           dict(kind="concurrent", stderr=err[:5000], sessions=ss))
            return
        r = json.loads(p.stdout)
        self.count("concurrent_calls", r["steps"])
        self.count("shared_values", r["shared"])
        self.traces += r["logs"]
        lines = open(trace).read().split("\n")
        bad = self.validate(trace, cat, focus)
        ss = None
        seen = set()
        for clauses, line, sid in sorted(bad, key=lambda b: b[1]):
            ev = json.loads(lines[line - 1])
            key = (tuple(sorted(clauses)), ev["op"])
            if key in seen or len(self.violations) >= 4:
                continue
            seen.add(key)
            a = line
            while json.loads(lines[a - 1])["op"] != "start":
                a -= 1
            ss = ss or [json.loads(l) for l in open(sessions)]
            self.violation("with %d goroutines at once (%s), session %d: %s violates %s%s" % (
                goroutines, label, sid, ev["op"], ", ".join(sorted(clauses)), "; outcome " + ev["err"] if ev["err"] else ""),
                dict(kind="concurrent", clauses=clauses, event=ev, trace=[json.loads(x) for x in lines[a - 1:line]],
                     session=next(s for s in ss if s["id"] == sid)))
        if not bad and len(self.samples) < 4:
            a = len(lines) // 2
            while json.loads(lines[a])["op"] != "start":
                a -= 1
            self.samples.append(dict(kind="a goroutine's view, " + label, events=[json.loads(x) for x in lines[a:a + 4]]))

    # --------------------------------------------------- other event lists
    def events(self, module, evs, label, cfg="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env=None, count=True):
        """TLC on a list of events; returns [(clauses, event)] of the rejected ones."""
        f = self.path(label + ".nd")
        with open(f, "w") as h:
            for e in evs:
                h.write(json.dumps(e) + "\n")
        out, gen, dist = self.tlc(module, cfg, env=dict(env or {}, TRACE=f), count=count)
        if dist < len(evs):
            raise CheckError("TLC consumed %d of %d events" % (dist, len(evs)))
        return [(c, evs[l - 1]) for c, l, _ in parse_bad(out)]

    def confirm(self, sessions, ss, pos, focus, clauses, measure, race, env, extra=()):
        """The shortest replay that is rejected again: the session alone, or the run up to it."""
        for attempt, part in enumerate([[ss[pos]], ss[max(0, pos - 20):pos + 1], ss[:pos + 1], ss[:pos + 1], ss]):
            f = self.path("confirm.sessions")
            with open(f, "w") as h:
                for s in part:
                    h.write(json.dumps(s) + "\n")
            trace, cat, _, _ = self.execute(f, measure, race, env, max_crashes=2, extra=extra)
            if any(set(c) & set(clauses) for c, _, _ in self.validate(trace, cat, focus, count=False)):
                return part
        return None


def parse_bad(out):
    bad = []
    for m in re.finditer(r'<<"BAD", "\{([^}]*)\}", "line", (\d+), "session", (\d+)>>', out):
        bad.append((re.findall(r'\\"([a-z0-9]+)\\"', m.group(1)), int(m.group(2)), int(m.group(3))))
    return bad


def known_findings():
    """property -> {id: text} of the findings that are recorded, not repaired."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    for l in open(p):
        m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
        if m:
            out.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return out


def run(prop, fn):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = Ctx(prop, tier, seed)
    try:
        fn(ctx)
        ctx.finish()
        code = 1 if ctx.violations else 0
    except CheckError as e:
        print("CHECK ERROR: %s" % e, file=sys.stderr)
        # a violation already confirmed on the real code stands
        code = 1 if ctx.violations else 2
        if code == 1:
            ctx.finish()
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.work, ignore_errors=True)
        else:
            print("kept", ctx.work)
    return code
