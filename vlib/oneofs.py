"""P21: the accessors of emitted oneofs, called, against spec/Oneof.tla."""
import json, os, shutil

from . import gen
from .core import CheckError, parse_bad, sh
from .e2e import camel, messages


def wrappers(o):
    """The oneofs of an emitted file: (struct, field, oneof, wrappers)."""
    structs = [t for t in o["types"] if t["what"] == "struct"]
    out = []
    for t in structs:
        for f in t["fields"]:
            name = f["oneof"]
            if not name:
                continue
            marker = f["type"].rsplit(".", 1)[1]
            out.append((t["name"], f["name"], name, [w for w in structs if any(x[0] == marker for x in w["methods"])]))
    return out


def registrations(evs, sets, usable):
    """Go composite literals, and what they import."""
    imports, lines = {}, []
    for k in usable:
        e, fs = evs[k], sets[k]
        for i, (f, o) in enumerate(zip(fs, e["obs"])):
            found = {}
            for msg, field, name, ws in wrappers(o):
                found.setdefault((msg, name), (field, ws))
            for p, m in messages(f):
                for j, oo in enumerate(m["oneofs"]):
                    mem = [x for x in m["fields"] if x["oo"] == j + 1]
                    if not mem:
                        continue
                    # the struct that has this oneof, with these numbers in its wrappers
                    for (msg, name), (field, ws) in found.items():
                        by = {w["fields"][0]["tag"][1]: w for w in ws if len(w["fields"]) == 1 and len(w["fields"][0]["tag"]) == 3}
                        if msg == camel(p) and name == "".join(oo["name"]) and set(by) == {x["n"] for x in mem}:
                            a = imports.setdefault(f["pkg"], "o%d" % len(imports))
                            lines.append("\t\t{Set: %d, File: %d, Path: %s, Index: %d, Msg: reflect.TypeOf(%s.%s{}), Field: %s,\n\t\t\tWrappers: []reflect.Type{%s},\n\t\t\tKinds: []string{%s}}," % (
                                k + 1, i + 1, json.dumps(json.dumps(p)), j + 1, a, msg, json.dumps(field),
                                ", ".join("reflect.TypeOf(%s.%s{})" % (a, by[x["n"]]["name"]) for x in mem),
                                ", ".join(json.dumps(x["k"]) for x in mem)))
                            break
    return imports, lines


def run(ctx, n, per, part, more=()):
    sets = list(more)
    for k in range(n):
        fs = gen.Sampler(ctx.seed * 100000 + 90000 + part * 300 + k, files=2, oneofs=.55).set()
        for f in fs:
            for m in gen.walk(f):
                m.pop("tracked", None)
        sets.append(fs)
    evs, _, root, paths, sets = gen.emit(ctx, sets, label="oneofs", prefix="vharness/vg/")
    usable = [k for k, e in enumerate(evs) if e["ran"] and not any(o["errors"] for o in e["obs"])]
    top = ctx.path("oneofs")
    mod = os.path.join(top, "vharness")
    shutil.copytree(ctx.module(), mod)
    gen.protoc(ctx, root, top, [p for k in usable for p in paths[k]])
    imports, lines = registrations(evs, sets, usable)
    with open(os.path.join(mod, "zz_oneofs.go"), "w") as h:
        h.write("package main\n\nimport (\n\t\"reflect\"\n%s)\n\nfunc init() {\n\tgenOneofs = []genOneof{\n%s\n\t}\n}\n" % (
            "".join('\t%s "%s"\n' % (a, p) for p, a in imports.items()), "\n".join(lines)))
    out = os.path.join(ctx.work, "vh-oneofs-%d" % next(ctx._n))
    p = sh(["go", "build", "-o", out, "."], cwd=mod, timeout=600, check=False)
    if p.returncode != 0:
        ctx.violation("emitted oneofs do not compile: " + p.stderr.decode()[:400], dict(kind="compile", stderr=p.stderr.decode()[:4000]))
        return evs
    ctx.log("harness built with %d oneofs" % len(lines))
    tlc, _, _ = ctx.tlc("Oneof", """SPECIFICATION Spec
CONSTANTS Members = 3
  Depth = %d
  Emit = TRUE
INVARIANTS OnlyOne Told Nil Printed
CHECK_DEADLOCK FALSE
""" % ctx.pick(4, 5))
    hist, trace, cat = ctx.path("oneof.tlc"), ctx.path("oneof.nd"), ctx.path("oneof.catalog")
    open(hist, "w").write(tlc)
    p = sh([out, "oneofs", "-arg", hist, "-seed", str(ctx.seed), "-n", str(per), "-trace", trace, "-limit", "60s"], timeout=300)
    res = json.loads(p.stdout)
    if res["oneofs"] < n // 4:
        raise CheckError("only %d oneofs" % res["oneofs"])
    with open(cat, "w") as h:
        for fs in sets:
            h.write(json.dumps(fs) + "\n")
    txt, _, dist = ctx.tlc("TraceOneof", "SPECIFICATION Spec\nCONSTANT Focus = {\"panic\", \"oneof\", \"member\", \"kept\"}\nCHECK_DEADLOCK FALSE\n",
                           env=dict(TRACE=trace, CATALOG=cat))
    tl = open(trace).read().split("\n")[:-1]
    if dist != len(tl):
        raise CheckError("TLC consumed %d of %d events" % (dist, len(tl)))
    ctx.traces += res["oneofs"] * per
    ctx.count("oneofs", res["oneofs"])
    ctx.count("accessor_rounds", res["steps"])
    ctx.samples.append(dict(kind="accessors of a oneof", events=[json.loads(x) for x in tl[:4]]))
    seen = set()
    for clauses, line, sid in sorted(parse_bad(txt), key=lambda b: b[1]):
        key = tuple(clauses)
        if key in seen or len(ctx.violations) >= 4:
            continue
        seen.add(key)
        a = line
        while json.loads(tl[a - 1])["op"] != "start":
            a -= 1
        st = json.loads(tl[a - 1])
        ev = json.loads(tl[line - 1])
        ctx.violation("after %s: the accessors of oneof %d of %s violate %s" % (ev["op"], st["o"], "".join(st["p"]), ", ".join(clauses)),
                      dict(kind="oneof", clauses=clauses, trace=[json.loads(x) for x in tl[a - 1:line]], files=sets[st["k"] - 1]))
    return evs
