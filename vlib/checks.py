"""One function per property."""
import json

import random

from . import e2e, gen, oneofs, plans
from .core import CheckError, known_findings, sh, died

CRASH = ["panic"]


def plan(ctx, profiles, focus, measure=False, env=None, extra=()):
    """profiles: (name, quick sessions, thorough sessions[, nodes])"""
    label = "+".join(p[0] for p in profiles)
    total = sum(ctx.pick(p[1], p[2]) for p in profiles)
    rounds = max(1, -(-total // 6000))
    for k in range(rounds):
        f = ctx.mix_sessions([(p[0], max(1, ctx.pick(p[1], p[2]) // rounds), ctx.seed * 1000 + i * 100 + k,
                               p[3] if len(p) > 3 else 14) for i, p in enumerate(profiles)])
        ctx.sessions(f, focus, measure=measure, env=env, label=label, extra=extra)
        if len(ctx.violations) >= 3:
            return


CARDS = ["plain", "opt", "ptr", "rep", "map"]


def p01(ctx):
    ctx.encoder(CARDS, not ctx.quick, CRASH + ["merr", "roundtrip"])
    plan(ctx, [("roundtrip", 2600, 30000), ("presence", 300, 4000), ("big", 60, 1500), ("huge", 3, 8)], CRASH + ["merr", "roundtrip"])


def p02(ctx):
    focus = ["mpanic", "merr", "enc", "encparse"]
    ctx.encoder(CARDS, not ctx.quick, focus)
    plan(ctx, [("encode", 2200, 30000), ("size", 300, 4000), ("big", 30, 1500)], focus)


def p03(ctx):
    focus = CRASH + ["made", "encpres", "decpres", "accept"]
    ctx.encoder(CARDS, not ctx.quick, focus)
    plan(ctx, [("presence", 1800, 25000), ("roundtrip", 400, 4000)], focus)


def p04(ctx):
    focus = ["mpanic", "size", "sizespec"]
    ctx.encoder(CARDS, not ctx.quick, focus)
    plan(ctx, [("size", 2200, 25000), ("encode", 800, 8000), ("big", 30, 1500), ("huge", 3, 8)], focus)


def p05(ctx):
    ctx.decoder(["varint", "len", "msg", "map", "mapz", "rec"], ctx.pick(4, 5), CRASH + ["accept", "value"])
    plan(ctx, [("decode", 2200, 25000), ("leak", 150, 3000), ("big", 40, 1500)], CRASH + ["accept", "value"])


def p06(ctx):
    ctx.client(ctx.pick(3, 4), CRASH + ["concat", "concatok", "value", "accept"])
    plan(ctx, [("merge", 1900, 25000), ("big", 90, 2500)], CRASH + ["concat", "concatok", "value", "accept"])


def p07(ctx):
    ctx.decoder(["unk"], ctx.pick(4, 6), CRASH + ["accept", "value", "aux", "reject"])
    plan(ctx, [("unknown", 1700, 25000), ("onto", 600, 8000), ("merge", 200, 2000), ("encode", 250, 3000)], CRASH + ["accept", "value", "aux", "reject", "encparse"])


def p08(ctx):
    focus = CRASH + ["reject", "class", "chain"]
    ctx.decoder(["varint", "len", "msg", "map", "unk"], ctx.pick(3, 5), focus)
    plan(ctx, [("malformed", 2500, 30000), ("hostile", 400, 6000)], focus)


def p25(ctx):
    """The encoder's work, against the bounds of EncodeCost."""
    cfg = """SPECIFICATION Spec
CONSTANTS MaxNodes = %d
  Own = 3
  Pre = 1
  Plan = "%s"
  Chains = %s
INVARIANTS Exact Work Alloc %s
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""
    out, _, _ = ctx.tlc("EncodeCost", cfg % (ctx.pick(6, 7), "once", "FALSE", "Printed"))
    trees = sorted(json.loads(l)[5:] for l in out.split("\n") if l.startswith('"CASE '))
    if not trees:
        raise CheckError("no values")
    for plan, bad in (("once", False), ("grow", False), ("twice", True), ("buffers", True)):
        out, _, _ = ctx.tlc("EncodeCost", cfg % (9, plan, "TRUE", ""), expect_error=bad, count=not bad)
        if bad and "is violated" not in out:
            raise CheckError("the plan %r should break the bounds" % plan)
    tf, evs = ctx.path("trees"), []
    open(tf, "w").write("\n".join(trees) + "\n")
    ctx.count("values", len(trees))
    for what, binary, scale in (("plain", ctx.harness(), ctx.pick(1, 0)), ("counted", plans.steps_harness(ctx), ctx.pick(4, 0))):
        tr, pr = ctx.path("cost.nd"), ctx.path("cost.progress")
        p = sh([binary, "encost", "-trace", tr, "-arg", pr, "-n", str(scale), "-limit", "60s", tf], timeout=900, check=False,
               env=dict(GOTRACEBACK="single"))
        got = [json.loads(l) for l in open(tr)]
        if p.returncode != 0:
            err = p.stderr.decode("utf8", "replace")
            if not died(p):
                raise CheckError("encost failed: " + err[-500:])
            last = got[-1] if got else dict(op="marshal", shape="start", reps=0)
            got.append(dict(op=last["op"], shape="after " + last["shape"], reps=last["reps"] * 2, depth=1, work=0, out=0, size=0,
                            count=-1, kb=0, ms=0, steps=0, err="hang" if p.returncode == 97 else "crash"))
        ctx.count("measured_calls_" + what, len(got))
        evs = got
        bad = ctx.events("TraceCost", evs, "cost-" + what)
        ctx.traces += 1
        for clauses, e in bad[:3]:
            ctx.violation("%s of %r x %d violates %s: %s" % (e["op"], e["shape"], e["reps"], clauses, json.dumps(e)),
                          dict(kind="cost", event=e, how=what))
        if bad:
            return
        ctx.samples.append(dict(kind="measured call", events=got[100:102] + got[-3:]))


def p24(ctx):
    focus = CRASH + ["partial", "enc", "size", "value"]
    ctx.decoder(["varint", "len", "msg", "map", "mapz", "unk", "rec"], ctx.pick(3, 5), focus)
    plan(ctx, [("failed", 900, 20000), ("malformed", 200, 6000), ("leak", 60, 2000), ("hostile", 100, 4000)], focus)


def nest(ctx, levels, field, payload=1):
    p = sh([ctx.harness(), "nest", "-n", str(levels), "-arg", str(field), "-limit", "60s", str(payload)], timeout=120, check=False,
           env=dict(GOTRACEBACK="none"))
    if p.returncode == 0:
        return json.loads(p.stdout)
    err = p.stderr.decode("utf8", "replace")
    if not died(p):
        raise CheckError("nest failed: " + err[-500:])
    return dict(shape="nest %d x %d" % (field, payload), reps=levels, bytes=0, want="accept",
                err="hang" if p.returncode == 97 else "crash", count=-1, kb=0, ms=0, steps=0)


def nests(ctx):
    """Nesting: nothing may grow with depth times length."""
    evs = []
    for field in (2, 3, 4):
        for payload, levels in ((1, (100, 1000, 10000, 100000)), (5000, (100, 200, 400, 800))):
            for n in levels:
                e = nest(ctx, n, field, payload)
                evs.append(e)
                if e["err"] or e["kb"] > e["bytes"]: # no need to see it explode
                    break
    return evs


def resources(ctx):
    tr, pr = ctx.path("res.nd"), ctx.path("res.progress")
    p = sh([ctx.harness(), "resources", "-trace", tr, "-arg", pr, "-n", str(ctx.pick(1, 0)), "-limit", "30s"],
           timeout=600, check=False)
    evs = [json.loads(l) for l in open(tr)]
    if p.returncode != 0:
        err = p.stderr.decode("utf8", "replace")
        if not died(p):
            raise CheckError("resources failed: " + err[-500:])
        evs.append(dict(shape="after " + (evs[-1]["shape"] if evs else "start"), reps=0, bytes=0, want="accept",
                        err="hang" if p.returncode == 97 else "crash", count=-1, kb=0, ms=0, steps=0))
    evs += nests(ctx)
    # the same with the statements counted: no clock, no collector
    if all(not e["err"] in ("crash", "hang") for e in evs):
        p = sh([plans.steps_harness(ctx), "resources", "-trace", tr, "-arg", pr, "-n", str(ctx.pick(4, 1)), "-limit", "120s"],
               timeout=900, check=False)
        if p.returncode != 0:
            raise CheckError("counted resources failed: " + p.stderr.decode("utf8", "replace")[-500:])
        evs += [json.loads(l) for l in open(tr)]
    bad = ctx.events("Resources", evs, "resources")
    ctx.traces += 1
    ctx.count("measured_decodes", len(evs))
    ctx.samples.append(dict(kind="measured decode", events=evs[200:203] + evs[-2:]))
    for clauses, e in bad[:3]:
        ctx.violation("decoding %r repeated %d times (%d bytes) violates %s: %s" % (
            e["shape"], e["reps"], e["bytes"], clauses, json.dumps(e)), dict(kind="resources", event=e))


def p09(ctx):
    resources(ctx)
    # the recorded finding, as it was found
    known = known_findings().get("P09", {})
    if "deep-nesting" in known:
        e = nest(ctx, 2000000, 2)
        if ctx.events("Resources", [e], "finding", count=False):
            ctx.known_finding(known["deep-nesting"])
    ctx.decoder(["varint", "len", "msg", "map", "mapz", "unk", "rec"], ctx.pick(3, 5), CRASH)
    plan(ctx, [("hostile", 1500, 20000), ("malformed", 400, 8000), ("unknown", 300, 4000)], CRASH + ["alloc"], measure=True)


def p10(ctx):
    ctx.client(ctx.pick(3, 4), CRASH + ["frame", "aux"], env=dict(GODEBUG="clobberfree=1"))
    plan(ctx, [("isolation", 1700, 20000)], CRASH + ["frame", "aux"], env=dict(GODEBUG="clobberfree=1"))


def p14(ctx):
    ctx.client(ctx.pick(3, 4), CRASH + ["value", "accept", "frame"])
    ctx.scratch("R11", "Both", CRASH + ["value", "accept", "reject"])
    if not ctx.quick and not ctx.violations:
        ctx.scratch("R21", "Both", CRASH + ["value", "accept", "reject"])
        ctx.scratch("R111", "OneMessage", CRASH + ["value", "accept", "reject"])
    plan(ctx, [("leak", 1300, 15000), ("big", 40, 1000)], CRASH + ["value", "accept", "frame", "steady"])


def p20(ctx):
    env = dict(GODEBUG="clobberfree=1", GOGC="1")
    ctx.client(ctx.pick(2, 3), CRASH + ["roundtrip", "value", "accept", "frame", "encparse", "size"], env=env, extra=["-gc"])
    plan(ctx, [("roundtrip", 300, 6000), ("decode", 250, 6000), ("isolation", 100, 4000), ("leak", 120, 3000), ("merge", 100, 3000), ("big", 20, 600)],
         CRASH + ["roundtrip", "value", "accept", "frame", "aux", "encparse", "size"], env=env, extra=["-gc"])


    # collections in the middle of calls, at the statements of the library
    ctx.run_bin = plans.yield_harness(ctx)
    plan(ctx, [("roundtrip", 60, 1200), ("decode", 60, 1200), ("isolation", 20, 400), ("leak", 30, 600), ("merge", 30, 600), ("big", 2, 20)],
         CRASH + ["roundtrip", "value", "accept", "frame", "aux", "encparse", "size"], env=dict(env, VERIF_YIELD="gc"))


def api(ctx, args, inputs, depth):
    out, _, _ = ctx.tlc("Api", """SPECIFICATION Spec
CONSTANTS MaxCalls = %d
  Args %s
  Inputs %s
INVARIANTS Untouched SizeIsLength Printed
CHECK_DEADLOCK FALSE
""" % (depth, args, inputs))
    f, pr = ctx.path("api.tlc"), ctx.path("api.progress")
    open(f, "w").write(out)
    p = sh([ctx.harness(), "api", "-arg", f, pr], timeout=600, check=False, env=dict(GOTRACEBACK="single"))
    if p.returncode != 0:
        err = p.stderr.decode("utf8", "replace")
        if not died(p):
            raise CheckError("api failed: " + err[-800:])
        case = int(open(pr).read().split()[0])
        hist = sorted(json.loads(l)[5:] for l in out.split("\n") if l.startswith('"CASE '))[case]
        ctx.violation("a sequence of calls killed or hung the process: " + hist[:300],
                      dict(kind="api", hist=json.loads(hist), stderr=err[:1500]))
        return
    lines = [json.loads(l) for l in p.stdout.decode().strip().split("\n")]
    res = lines.pop()
    if res["cases"] == 0:
        raise CheckError("no sequences")
    ctx.traces += res["cases"]
    ctx.count("calls", res["calls"])
    hist = [l for l in out.split("\n") if l.startswith('"CASE ')]
    ctx.samples.append(dict(kind="call sequence", hist=json.loads(json.loads(hist[len(hist) // 2])[5:])))
    ctx.log("Api: %d sequences, %d calls, %d differ" % (res["cases"], res["calls"], res["differ"]))
    seen = set()
    for d in lines:
        c = d["hist"][d["call"]]
        key = (c["entry"], c["arg"])
        if key not in seen and len(ctx.violations) < 5:
            seen.add(key)
            ctx.violation("%s(%s) with input %r as call %d: %s" % (c["entry"], c["arg"], c["inp"], d["call"] + 1, d["what"]),
                          dict(kind="api", **d))


def p15(ctx):
    api(ctx, "<- AllArgs", "<- AllInputs", 2)
    if not ctx.quick:
        api(ctx, '= {"msg", "nilmsg", "ptrptr", "nil", "value", "holder", "ptrint"}', '= {"empty", "A5", "S", "trunc"}', 3)


USED = CRASH + ["merr", "enc", "encparse", "roundtrip", "accept", "value"]


def gensets(ctx, part, files=3):
    out, _, _ = ctx.tlc("GenSets", """SPECIFICATION Spec
CONSTANTS Part = "%s"
  MaxFiles = %d
  Emit = TRUE
INVARIANTS Coherent Stable Imported Printed
CHECK_DEADLOCK FALSE
""" % (part, files))
    return gen.cases(out)


def judge_gen(ctx, evs, focus, label):
    """TraceGen on what the generator emitted."""
    ctx.traces += len(evs)
    ctx.count("sets_generated", len(evs))
    ctx.count("files_generated", sum(len(e["fs"]) for e in evs))
    e = evs[len(evs) // 2]
    ctx.samples.append(dict(kind="emitted set, " + label, files=e["fs"], observed=e["obs"]))
    bad = ctx.events("TraceGen", evs, label, cfg="SPECIFICATION Spec\nCONSTANT Focus = {%s}\nCHECK_DEADLOCK FALSE\n" % ", ".join('"%s"' % c for c in focus))
    seen = set()
    for clauses, e in bad:
        key = tuple(sorted(clauses))
        if key not in seen and len(ctx.violations) < 4:
            seen.add(key)
            errs = [x for o in e["obs"] for x in o["errors"]]
            ctx.violation("files %s (%s): %s%s" % ([f["dir"] + "/" + f["base"] for f in e["fs"]], label, ", ".join(clauses), ": " + errs[0] if errs else ""),
                          dict(kind="generator", clauses=clauses, event=e))


def sampled_sets(ctx, n, **kw):
    return [gen.Sampler(ctx.seed * 100000 + k, **kw).set() for k in range(n)]


def p16(ctx):
    sets = gensets(ctx, "fields")
    judge_gen(ctx, gen.emit(ctx, sets, label="one field")[0], ["ran", "fields", "oneofs"], "one field")
    for k in range(ctx.pick(1, 6)):
        sets = sampled_sets(ctx, ctx.pick(250, 700) * (k + 1))[ctx.pick(250, 700) * k:]
        evs = gen.emit(ctx, sets, decor=random.Random(ctx.seed * 10 + k), label="sampled")[0]
        judge_gen(ctx, evs, ["ran", "fields", "oneofs"], "sampled")


def p17(ctx):
    e2e.findings(ctx, known_findings().get("P17", {}))
    for k in range(ctx.pick(1, 8)):
        e = e2e.EndToEnd(ctx, ctx.seed + 1000 * k, ctx.pick(50, 120))
        judge_gen(ctx, e.evs, ["ran", "fields", "compiles"], "end to end")
        if ctx.violations or not e.build():
            return
        ctx.other = e.bin
        e2e.cross(ctx, e, ctx.pick(6, 20))
        if ctx.violations:
            return
        n = ctx.pick(120, 900)
        f = ctx.mix_sessions([(p, n, ctx.seed * 1000 + 10 * k + i, 14) for i, p in enumerate(
            ["roundtrip", "encode", "decode", "merge", "malformed", "leak", "isolation"])])
        ctx.sessions(f, USED + ["reject", "size", "sizespec", "frame", "concat"], label="emitted types")
        ctx.other = None


def p19(ctx):
    focus = ["ran", "decls", "consts", "imports", "compiles", "paths", "same"]
    sets = gensets(ctx, "files")
    sets = sample(ctx, sets, ctx.pick(500, 100000))
    judge_gen(ctx, gen.emit(ctx, sets, decor=random.Random(ctx.seed), label="files")[0], focus, "files")
    for k in range(ctx.pick(1, 6)):
        n = ctx.pick(250, 700)
        sets = [gen.Sampler(ctx.seed * 100000 + 50000 + i).set() for i in range(k * n, k * n + n)]
        judge_gen(ctx, gen.emit(ctx, sets, decor=random.Random(ctx.seed * 10 + k), label="sampled")[0], focus, "sampled")


def p21(ctx):
    focus = ["ran", "oneofs", "comparable"]
    judge_gen(ctx, gen.emit(ctx, gensets(ctx, "fields"), label="one field")[0], focus, "one field")
    for k in range(ctx.pick(1, 8)):
        evs = oneofs.run(ctx, ctx.pick(60, 250), ctx.pick(15, 50), k, [] if k else gensets(ctx, "oneofs"))
        judge_gen(ctx, evs, focus, "oneofs")
        if ctx.violations:
            return


def p22(ctx):
    for k in range(ctx.pick(1, 6)):
        sets = []
        for i in range(ctx.pick(150, 500)):
            g = gen.Sampler(ctx.seed * 100000 + 60000 + 1000 * k + i, files=3, oneofs=.3)
            sets.append(g.document(g.set()))
        evs = gen.emit(ctx, sets, decor=random.Random(ctx.seed * 10 + k), label="documented")[0]
        judge_gen(ctx, evs, ["ran", "docs", "decls", "consts", "fields", "oneofs", "compiles"], "documented")


def sample(ctx, graphs, n):
    return graphs if len(graphs) <= n else random.Random(ctx.seed).sample(graphs, n)


def p11(ctx):
    for nt, refs, uses in ctx.pick([(3, 1, 2)], [(3, 1, 3), (2, 2, 3)]):
        gs = sample(ctx, plans.histories(ctx, nt, refs, True, uses), ctx.pick(250, 400))
        p = plans.Plans(ctx, gs)
        p.run([(range(max(len(g["hist"]) for g in gs)), 1, False, False)], USED, "first uses")
        if ctx.violations:
            return
    gs = plans.sharings(ctx, ctx.pick(2, 3), not ctx.quick, ctx.pick(60, 300))
    plans.Plans(ctx, gs).run([(range(max(len(g["hist"]) for g in gs)), 1, False, False)], USED, "orders of encodings")


def p12(ctx):
    for nt, refs, bad, procs, uses in ctx.pick([(2, 1, True, 2, 1)], [(2, 1, True, 2, 2), (2, 2, True, 2, 1), (2, 1, False, 3, 1)]):
        plans.interleavings(ctx, nt, refs, bad, procs, uses)
    for nt, refs, bad, n in ctx.pick([(2, 2, False, 50), (3, 1, True, 50)], [(2, 2, True, 400), (3, 1, True, 330)]):
        gs = sample(ctx, plans.histories(ctx, nt, refs, bad, 2), n)
        p = plans.Plans(ctx, gs)
        k = ctx.pick(4, 16)
        p.run([(range(k), 8, False, False), (range(k, 2 * k), 6, False, True), (range(2 * k, 3 * k), 4, True, True)],
              USED, "concurrent first uses", parallel=4)
        if ctx.violations:
            return


def p13(ctx):
    for nt, refs, uses in ctx.pick([(2, 2, 3)], [(3, 1, 3), (2, 2, 4)]):
        gs = [g for g in plans.histories(ctx, nt, refs, True, uses) if not all(g["ok"].values())]
        gs = sample(ctx, gs, ctx.pick(150, 400))
        p = plans.Plans(ctx, gs)
        n = max(len(g["hist"]) for g in gs)
        p.run([(range(n), 1, False, False), (range(2), 4, False, True)], USED + ["rejected"], "uses around a rejected type")


def p18(ctx):
    focus = USED + ["reject", "size", "sizespec", "frame", "aux"]
    y = dict(VERIF_YIELD="1")
    profs = [("roundtrip", 90, 12), ("roundtrip", 30, 60), ("decode", 90, 12), ("leak", 50, 12), ("malformed", 60, 12), ("merge", 60, 12), ("isolation", 40, 12),
             ("unknown", 40, 12)]
    for kinds in ctx.pick(["OnePlain"], ["OnePlain", "OneMessage", "Plain", "Messages"]):
        ctx.scratch_interleavings(2, "R1", kinds)
    if not ctx.quick:
        ctx.scratch_interleavings(2, "R11", "OnePlain")
    for k in range(ctx.pick(1, 8)):
        f = ctx.scratch_sessions("R11", "Both", ctx.pick(160, 800), ctx.seed * 100 + k)
        ctx.concurrent(f, focus, "scratch areas", passes=ctx.pick(40, 100))
        ctx.concurrent(f, focus, "scratch areas, yields", passes=ctx.pick(10, 30), binary=plans.yield_harness(ctx), env=y)
        ctx.concurrent(f, focus, "scratch areas, race detector", passes=ctx.pick(2, 6), goroutines=4, binary=plans.yield_harness(ctx, True), env=y)
        if ctx.violations:
            return
    for k in range(ctx.pick(1, 20)):
        f = ctx.mix_sessions([(n, c, ctx.seed * 1000 + 500 + 20 * k + i, m) for i, (n, c, m) in enumerate(profs)])
        ctx.concurrent(f, focus, "plain", passes=ctx.pick(25, 60))
        ctx.concurrent(f, focus, "yields", passes=ctx.pick(8, 30), binary=plans.yield_harness(ctx), env=y)
        ctx.concurrent(f, focus, "race detector", passes=ctx.pick(2, 6), goroutines=4, binary=plans.yield_harness(ctx, True), env=y)
        if ctx.violations:
            return


def retained(ctx, evs, label):
    """TraceRetain on what was left in memory: {clauses: [event]}"""
    by = {}
    for clauses, e in ctx.events("TraceRetain", evs, label):
        by.setdefault(tuple(sorted(clauses)), []).append(e)
    return by


def p23(ctx):
    depth = 4
    out, _, _ = ctx.tlc("Retain", """SPECIFICATION Spec
CONSTANTS Depth = %d
  Keep = "nothing"
  Emit = TRUE
INVARIANTS Freed Safe Idle Printed
CHECK_DEADLOCK FALSE
""" % depth)
    f, pr = ctx.path("retain.tlc"), ctx.path("retain.progress")
    open(f, "w").write(out)

    def record(cmd, n, seed, label, args=()):
        tr = ctx.path(cmd + ".nd")
        p = sh([ctx.harness(), cmd, *args, "-seed", str(seed), "-n", str(n), "-trace", tr, "-limit", "60s", pr], timeout=600, check=False,
               env=dict(GOTRACEBACK="single"))
        evs = [json.loads(l) for l in open(tr)]
        if p.returncode != 0:
            err = p.stderr.decode("utf8", "replace")
            if not died(p):
                raise CheckError("%s failed: %s" % (cmd, err[-800:]))
            ctx.violation("%s while memory was looked at (%s)" % ("hang" if p.returncode == 97 else "crash", label),
                          dict(kind="retain", stderr=err[:3000]))
            return [], {}
        return evs, json.loads(p.stdout.decode().strip().split("\n")[-1]) if p.stdout else {}

    # a leftover that depends on chance is not reported: it has to come twice
    for k in range(ctx.pick(1, 6)):
        evs, r = record("retain", ctx.pick(80, 300), ctx.seed * 100 + k, "histories", ["-arg", f])
        if not evs:
            return
        ctx.traces += len(evs)
        for n in ("things", "collections"):
            ctx.count(n, r[n])
        ctx.log("%(cases)d histories, %(things)d allocations, %(collections)d collections" % r)
        if k == 0:
            ctx.samples.append(dict(kind="history", **next(e for e in evs[len(evs) // 2:] if len(e["seen"]) > 1)))
        bad = retained(ctx, evs, "histories")
        if bad:
            again = retained(ctx, record("retain", ctx.pick(80, 300), ctx.seed * 100 + k, "histories", ["-arg", f])[0], "histories")
            for c, es in bad.items():
                if c in again and len(ctx.violations) < 4:
                    e = min(es, key=lambda e: len(e["hist"]))
                    ctx.violation("%d histories violate %s: after %s, memory of the steps %s was there%s" % (
                        len(es), ", ".join(c), [" ".join(str(x) for x in (o["op"], o["o"], o["b"]) if x) for o in e["hist"]], e["seen"],
                        ", %s allocations that nothing leads to" % e["loose"] if any(e["loose"]) else ""),
                        dict(kind="retain", clauses=c, event=e, schemas=ctx.pick(80, 300), seed=ctx.seed * 100 + k))
            if ctx.violations:
                return
    for k in range(ctx.pick(1, 4)):
        n, seed = ctx.pick(0, 1), ctx.seed * 100 + k
        evs, _ = record("retainheap", n, seed, "live memory")
        ctx.traces += len(evs)
        ctx.count("calls", sum(e["calls"] for e in evs))
        if k == 0 and evs:
            ctx.samples.append(dict(kind="live memory", **evs[0]))
        bad = retained(ctx, evs, "memory")
        if bad:
            again = [e["shape"] for es in retained(ctx, record("retainheap", n, seed, "live memory")[0], "memory").values() for e in es]
            for c, es in bad.items():
                for e in es:
                    if e["shape"] in again and len(ctx.violations) < 4:
                        ctx.violation("%d calls (%s) violate %s: live memory %s KB, goroutines %s" % (e["calls"], e["shape"], ", ".join(c), e["kb"], e["go"]),
                                      dict(kind="retainheap", clauses=c, event=e, seed=seed))
        if ctx.violations:
            return


CHECKS = {n.upper(): f for n, f in list(globals().items()) if len(n) == 3 and n[0] == "p" and n[1:].isdigit()}
