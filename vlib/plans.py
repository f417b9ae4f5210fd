"""First-use histories: spec/PlanCache.tla -> Go types and processes with fresh caches."""
import concurrent.futures, json, os, random, re, shutil
from .core import CheckError, sh, REPO, VERIF, died

SCALARS = [("int32", "varint"), ("int32", "zigzag32"), ("int32", "fixed32"), ("int64", "varint"), ("int64", "zigzag64"),
           ("int64", "fixed64"), ("uint32", "varint"), ("uint32", "fixed32"), ("uint64", "varint"), ("uint64", "fixed64"),
           ("bool", "varint"), ("float32", "fixed32"), ("float64", "fixed64"), ("string", "bytes"), ("[]byte", "bytes")]
WRAPS = ["%s", "%s", "proto.Option[%s]", "*%s", "[]%s"]
KEYS = [("int32", "varint"), ("int32", "zigzag32"), ("int64", "fixed64"), ("uint64", "varint"), ("string", "bytes"),
        ("bool", "varint"), ("uint32", "fixed32"), ("int64", "zigzag64")]
BAD = [('chan int', 'varint,%d,opt', ''), ('func()', 'varint,%d,opt', ''), ('interface{}', 'bytes,%d,opt', ''),
       ('complex128', 'fixed64,%d,opt', ''), ('[3]int32', 'bytes,%d,rep', ''), ('uintptr', 'varint,%d,opt', ''),
       ('int', 'varint,%d,opt', ''), ('int8', 'varint,%d,opt', ''), ('uint16', 'varint,%d,opt', ''),
       ('struct{ X int32 }', 'bytes,%d,opt', ''), ('[][]int32', 'bytes,%d,rep', ''), ('[]interface{}', 'bytes,%d,rep', ''),
       ('map[string]chan int', 'bytes,%d,rep', ' protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"'),
       ('map[string][]int32', 'bytes,%d,rep', ' protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"'),
       ('map[int32]int', 'bytes,%d,rep', ' protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"'),
       ('int32', 'bogus,%d,opt', ''), ('int32', 'varint,x%d,opt', ''), ('int32', 'varint,%d,many', ''),
       ('[]int', 'varint,%d,rep', ''), ('*chan int', 'bytes,%d,opt', ''), ('[]struct{ X int32 }', 'bytes,%d,rep', '')]
BADITEM = 99


def histories(ctx, nt, refs, bad, uses):
    """TLC: every declaration of the universe with every sequence of uses by one goroutine."""
    out, _, _ = ctx.tlc("PlanCacheSets", """SPECIFICATION Spec
CONSTANTS Decls <- Universe
  Procs = {1}
  MaxUses = %d
  Publish = "end"
  Emit = TRUE
  NT = %d
  MaxRefs = %d
  WithBad = %s
INVARIANTS Outcome CacheSound NeverStuck Printed
CHECK_DEADLOCK FALSE
""" % (uses, nt, refs, "TRUE" if bad else "FALSE"))
    decls = {}
    for m in re.finditer(r'^"HIST (.*)"$', out, re.M):
        h = json.loads(m.group(1).replace('\\"', '"'))
        d = decls.setdefault(json.dumps(h["decl"]), dict(decl=h["decl"], hist=[], ok={}))
        d["hist"].append([u["t"] for u in h["log"]])
        for u in h["log"]:
            d["ok"][u["t"]] = u["o"] == "ok"
    if not decls:
        raise CheckError("TLC printed no histories")
    for d in decls.values():
        d["hist"].sort()
        assert len(d["ok"]) == nt
    return [decls[k] for k in sorted(decls)]


def interleavings(ctx, nt, refs, bad, procs, uses):
    """TLC: the same machine with goroutines in every interleaving; and what it was before the repair."""
    cfg = """SPECIFICATION Spec
CONSTANTS Decls <- Universe
  Procs = {%s}
  MaxUses = %d
  Publish = "%s"
  Emit = FALSE
  NT = %d
  MaxRefs = %d
  WithBad = %s
INVARIANTS Outcome CacheSound NeverStuck
%sCHECK_DEADLOCK FALSE
"""
    p = ",".join(map(str, range(1, procs + 1)))
    b = "TRUE" if bad else "FALSE"
    ctx.tlc("PlanCacheSets", cfg % (p, uses, "end", nt, refs, b, "PROPERTY Finishes\n"), heap="8g")
    out, _, _ = ctx.tlc("PlanCacheSets", cfg % (p, uses, "early", nt, refs, b, ""), expect_error=True, count=False)
    if "Invariant Outcome is violated" not in out:
        raise CheckError("publishing early should lose fields in the model")


def ranks(decl):
    """The types in an order in which each refers only to itself and earlier ones, or None."""
    order = []
    while len(order) < len(decl):
        ready = [t for t in range(1, len(decl) + 1) if t not in order and
                 all(u in (0, BADITEM, t) or u in order for u in decl[t - 1])]
        if not ready:
            return None
        order.append(ready[0])
    return order


def fields_of(g, t, items, seed):
    """The struct fields of a type: (text with %s for types referred to, those types)."""
    rnd = random.Random("%d/%d/%d" % (seed, g, t))
    out, n = [], 0
    for it in items:
        n += rnd.choice([1, 1, 1, 2, 9])
        if it == 0:
            go, wire = rnd.choice(SCALARS)
            w = rnd.choice(WRAPS)
            if go == "[]byte" and w in ("proto.Option[%s]", "*%s"):
                w = "%s"
            tag = "%s,%d,%s" % (wire, n, "rep" if w == "[]%s" else "opt")
            out.append(('F%d %s `protobuf:"%s"`' % (n, w % go, tag), []))
        elif it == BADITEM:
            go, tag, more = BAD[(g * 7 + t) % len(BAD)]
            out.append(('F%d %s `protobuf:"%s"%s`' % (n, go, tag % n, more), []))
        else:
            form = rnd.choice(["msg", "rep", "map"])
            if form == "msg":
                out.append(('F%d *%%s `protobuf:"bytes,%d,opt"`' % (n, n), [it]))
            elif form == "rep":
                out.append(('F%d []*%%s `protobuf:"bytes,%d,rep"`' % (n, n), [it]))
            else:
                k, kw = rnd.choice(KEYS)
                out.append(('F%d map[%s]*%%s `protobuf:"bytes,%d,rep" protobuf_key:"%s,1,opt" protobuf_val:"bytes,2,opt"`' % (n, k, n, kw), [it]))
    return out


def golang(graphs, seed):
    """Go source of the declared types."""
    src = ["package main", "", 'import (', '\t"reflect"', '', '\t"github.com/RomiChan/protobuf/proto"', ')', '',
           'var _ proto.Option[int32]', '']
    reg = []
    for g, d in enumerate(graphs):
        if "local" in d:
            reg.append("\t\t{%s}," % ",\n\t\t\t".join(d["local"]))
            continue
        fields = [fields_of(g, t, items, seed) for t, items in enumerate(d["decl"], 1)]
        order = ranks(d["decl"]) if g % 2 else None
        if order is None:
            for t, fs in enumerate(fields, 1):
                src.append("type g%dT%d struct {\n%s\n}\n" % (g, t, "\n".join("\t" + f % tuple("g%dT%d" % (g, u) for u in us) for f, us in fs)))
            reg.append("\t\t{%s}," % ", ".join("reflect.TypeOf(g%dT%d{})" % (g, t) for t in range(1, len(fields) + 1)))
        else:
            # every type of this declaration has the same name
            src.append("func g%d() []reflect.Type {" % g)
            for t in order:
                body = "\n".join("\t" + f % tuple("T" if u == t else "g%dT%d" % (g, u) for u in us) for f, us in fields[t - 1])
                src.append("{\ntype T struct {\n%s\n}\ntype g%dT%d = T" % (body, g, t))
            src.append("return []reflect.Type{%s}" % ", ".join("reflect.TypeOf(g%dT%d{})" % (g, t) for t in range(1, len(fields) + 1)))
            src.append("}\n" * len(order) + "}\n")
            reg.append("\t\tg%d()," % g)
    src += ["func init() {", "\tgraphTypes = [][]reflect.Type{"] + reg + ["\t}", "}"]
    return "\n".join(src) + "\n"


ENC = {"int32": ["varint", "zigzag32", "fixed32"], "uint32": ["varint", "fixed32"], "int64": ["varint", "zigzag64", "fixed64"],
       "uint64": ["varint", "fixed64"], "string": ["bytes"], "bool": ["varint"]}


def gotypes(rich):
    """Go types with more than one declared encoding: (Go type, [tag of each])."""
    out = []
    for k in ("int32", "uint32", "int64", "uint64"):
        for w in ("%s", "*%s", "proto.Option[%s]", "[]%s"):
            out.append((w % k, ["protobuf:\"%s,%%d,%s\"" % (e, "rep" if w == "[]%s" else "opt") for e in ENC[k]]))
    names = list(ENC)
    for k in names:
        for v in names:
            if rich or "string" in (k, v) or "bool" in (k, v) or (k, v) in (("int32", "int32"), ("int64", "uint32"), ("uint64", "int64")):
                tags = ["protobuf:\"bytes,%%d,rep\" protobuf_key:\"%s,1,opt\" protobuf_val:\"%s,2,opt\"" % (a, b)
                        for a in ENC[k] for b in ENC[v]]
                if len(tags) > 1:
                    out.append(("map[%s]%s" % (k, v), tags))
    return out


def sharings(ctx, uses, rich, most):
    """TLC: every order of first uses of the types that declare one Go type in its encodings;
    as Go source, each type a local one with the same name."""
    cfg = """SPECIFICATION Spec
CONSTANTS NE = %d
  MaxUses = %d
  Key = "%s"
  Emit = TRUE
INVARIANTS AsDeclared Printed
CHECK_DEADLOCK FALSE
"""
    types = gotypes(rich)
    hist = {}
    for ne in sorted({len(t[1]) for t in types}):
        out, _, _ = ctx.tlc("Sharing", cfg % (ne, uses, "declared"))
        hist[ne] = sorted(json.loads(m.replace('\\"', '"'))["hist"] for m in re.findall(r'^"HIST (.*)"$', out, re.M))
        random.Random("%d/%d" % (ctx.seed, ne)).shuffle(hist[ne])
        hist[ne] = hist[ne][:most]
        out, _, _ = ctx.tlc("Sharing", cfg % (ne, uses, "gotype"), expect_error=True, count=False)
        if "Invariant AsDeclared is violated" not in out:
            raise CheckError("sharing codecs by Go type should go wrong in the model")
    graphs = []
    for g, (go, tags) in enumerate(types):
        n = len(tags)
        decl = [[i] for i in range(n)] + [list(range(n)), list(range(n))[::-1]]
        src = []
        for d in decl:
            fields = "; ".join("F%d %s `%s`" % (i + 1, go, tags[e] % (i + 1 + (g * 37) % 2100)) for i, e in enumerate(d))
            src.append("func() reflect.Type { type T struct { %s }; return reflect.TypeOf(T{}) }()" % fields)
        graphs.append(dict(decl=decl, hist=hist[n], ok={t: True for t in range(1, len(decl) + 1)}, local=src))
    return graphs


class Plans:
    def __init__(self, ctx, graphs):
        self.ctx, self.graphs = ctx, graphs
        self.dir = ctx.path("plansmod")
        shutil.copytree(ctx.module(), self.dir)
        with open(os.path.join(self.dir, "gen_types.go"), "w") as f:
            f.write(golang(graphs, ctx.seed))
        self.gfile = ctx.path("graphs.json")
        json.dump([dict(ok=[d["ok"][t + 1] for t in range(len(d["decl"]))], hist=d["hist"]) for d in graphs],
                  open(self.gfile, "w"))
        self.bins = {}
        self.cat = None
        self.uses = 0

    def binary(self, race=False, yields=False):
        key = (race, yields)
        if key not in self.bins:
            out = os.path.join(self.dir, "vp-%d%d" % key)
            cmd = ["go", "build", "-o", out] + (["-race"] if race else [])
            if yields:
                cmd += ["-overlay", yield_overlay(self.ctx)]
            sh(cmd + ["."], cwd=self.dir, timeout=600)
            self.bins[key] = out
            self.ctx.log("plans binary race=%s yields=%s" % key)
        return self.bins[key]

    def process(self, h, procs, race=False, yields=False, timeout=120):
        """One process with fresh caches. Returns (log lines, crash or None)."""
        ctx = self.ctx
        base = os.path.join(self.dir, "p-%d-%d-%d%d" % (h, procs, race, yields))
        cat = base + ".cat" if self.cat is None else ""
        p = sh([self.binary(race, yields), "plans", "-arg", self.gfile, "-trace", base + ".log", "-catalog", cat,
                "-limit", "30s", str(h), str(procs), base + ".progress"], timeout=timeout + 60, check=False,
               env=dict(GOTRACEBACK="single", GORACE="halt_on_error=1 exitcode=66", VERIF_YIELD=str(h + 1)))
        if self.cat is None and os.path.exists(base + ".cat"):
            self.cat = base + ".cat"
        if p.returncode == 0:
            r = json.loads(p.stdout)
            self.uses += r["uses"]
            lines = [json.loads(l) for l in open(base + ".log")]
            os.remove(base + ".log")
            return lines, None
        err = p.stderr.decode("utf8", "replace")
        if died(p):
            try:
                g = int(open(base + ".progress").read().split()[0])
            except Exception:
                g = -1
            kind = "hang" if p.returncode == 97 else "data race" if "DATA RACE" in err else "crash"
            return [], (g, kind, err[:4000])
        raise CheckError("plans process failed (exit %d): %s" % (p.returncode, err[-2000:]))

    def run(self, parts, focus, label, parallel=8):
        """parts: (history numbers, goroutines, race, yields). Every process starts with fresh
        caches; what they record is validated together, equal records once."""
        ctx = self.ctx
        jobs = [(h, procs, race, yields) for hs, procs, race, yields in parts for h in hs]
        for j in jobs:
            self.binary(*j[2:])
        first = [self.process(*jobs[0])] if self.cat is None else []
        with concurrent.futures.ThreadPoolExecutor(parallel) as ex:
            results = first + list(ex.map(lambda j: self.process(*j), jobs[len(first):]))
        logs = {}
        for j, (lines, _) in zip(jobs, results):
            for l in lines:
                logs.setdefault(l, j)
        for j, (_, c) in zip(jobs, results):
            if c and len(ctx.violations) < 3:
                g, kind, err = c
                what = err.split("\n")[0] if kind != "data race" else " / ".join(re.findall(r"^\s+([\w./*()]*proto\.\S+)\(", err, re.M)[:4])
                decl = self.graphs[g]["decl"] if 0 <= g < len(self.graphs) else None
                ctx.violation("%s: %s (%s) while types of declaration %s were used for the first time: %s" % (
                    label, kind, describe(j), json.dumps(decl), what),
                    dict(kind="plans", declaration=decl, stderr=err, source=golang_one(self.graphs, g, ctx.seed) if decl else ""))
        if ctx.violations:
            return
        trace = ctx.path("plans.trace")
        keys = sorted(logs)
        where, lines = [], []
        for k in keys:
            for l in k.strip().split("\n"):
                lines.append(l)
                where.append(k)
        with open(trace, "w") as f:
            f.write("\n".join(lines) + "\n")
        ctx.traces += len(keys)
        ctx.count("first_uses", self.uses)
        self.uses = 0
        ctx.count("processes", len(results))
        ctx.count("declarations", len(self.graphs))
        if keys and len(ctx.samples) < 4:
            k = keys[len(keys) // 3]
            ctx.samples.append(dict(kind="use recorded in " + label, events=[json.loads(l) for l in k.strip().split("\n")][:5]))
        bad = ctx.validate(trace, self.cat, focus)
        seen = set()
        for clauses, line, sid in sorted(bad, key=lambda b: b[1]):
            g, t = sid // 1000, sid // 10 % 100
            if g in seen or len(ctx.violations) >= 4:
                continue
            seen.add(g)
            d = self.graphs[g]
            ev = json.loads(lines[line - 1])
            j = logs[where[line - 1]]
            ctx.violation("%s: type %d of declaration %s (%s): %s violates %s, in %s" % (
                label, t, json.dumps(d["decl"]), "supported" if d["ok"][t] else "unsupported", ev["op"], clauses,
                "history %s" % d["hist"][j[0] % len(d["hist"])] if j[1] == 1 else describe(j)),
                dict(kind="plans", declaration=d["decl"], type=t, event=ev, session=where[line - 1],
                     source=golang_one(self.graphs, g, ctx.seed)))


def describe(j):
    return "history %d, %d goroutines%s%s" % (j[0], j[1], ", race detector" if j[2] else "", ", yields" if j[3] else "")


def golang_one(graphs, g, seed):
    if "local" in graphs[g]:
        return "\n".join(graphs[g]["local"])
    return "\n".join("T%d: %s" % (t, "; ".join(f % tuple("T%d" % u for u in us) for f, us in fields_of(g, t, items, seed)))
                     for t, items in enumerate(graphs[g]["decl"], 1))


def yield_harness(ctx, race=False):
    key = "yield-%s" % race
    if key not in ctx._bin:
        out = os.path.join(ctx.work, "vh-" + key)
        sh(["go", "build", "-o", out] + (["-race"] if race else []) + ["-overlay", yield_overlay(ctx), "."], cwd=ctx.module(), timeout=600)
        ctx._bin[key] = out
        ctx.log("harness built", key)
    return ctx._bin[key]


def steps_harness(ctx):
    """The harness that counts the statements the library executes."""
    if "steps" not in ctx._bin:
        o = yield_overlay(ctx, "steps")
        glue = os.path.join(os.path.dirname(o), "zz_steps.go")
        open(glue, "w").write("""package main

import "github.com/RomiChan/protobuf/proto"

func init() { steps = func() int64 { return proto.VerifSteps } }
""")
        r = json.load(open(o))
        r["Replace"][os.path.join(ctx.module(), "zz_steps.go")] = glue
        json.dump(r, open(o, "w"))
        out = os.path.join(ctx.work, "vh-steps")
        sh(["go", "build", "-o", out, "-overlay", o, "."], cwd=ctx.module(), timeout=600)
        ctx._bin["steps"] = out
        ctx.log("harness built steps")
    return ctx._bin["steps"]


def yield_overlay(ctx, mode="yield"):
    """The library with a scheduling point before every statement."""
    d = ctx.path(mode)
    os.makedirs(d)
    out = os.path.join(d, "overlay.json")
    replace = {}
    for pkg in ("proto", "internal/runtime_reflect"):
        sub = os.path.join(d, pkg.replace("/", "_"))
        os.makedirs(sub)
        sh([ctx.harness(), "instrument", "-arg", os.path.join(REPO, pkg), out, sub, mode])
        replace.update(json.load(open(out))["Replace"])
    json.dump(dict(Replace=replace), open(out, "w"))
    return out
