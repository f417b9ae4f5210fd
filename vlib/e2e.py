"""P17: emitted code, compiled with the runtime, against the schema of its .proto file
(through TraceSession) and against protoc, a conforming implementation."""
import json, os, random, re, shutil, struct

from . import gen
from .core import CheckError, VERIF, REPO, parse_bad, sh

CAP = re.compile("[a-z]")


def camel(cs):
    """Camel of spec/Gen.tla."""
    out, w = "", False
    for i, c in enumerate(cs):
        nxt = i + 1 < len(cs) and cs[i + 1].isascii() and cs[i + 1].islower()
        if c == ".":
            out += "" if nxt else "_"
            w = False
        elif c == "_":
            if i == 0 or cs[i - 1] == ".":
                out += "X"
            else:
                out += "" if nxt else "_"
            w = False
        elif c.isdigit():
            out += c
            w = False
        else:
            out += c if w else c.upper()
            w = True
    return out


def messages(f, prefix=()):
    for m in f["msgs"]:
        p = list(prefix) + m["name"]
        yield p, m
        yield from messages(m, p + ["."])


def enums(x, prefix=()):
    for e in x["enums"]:
        yield list(prefix) + e["name"], e
    for m in x["msgs"]:
        yield from enums(m, list(prefix) + m["name"] + ["."])


class Types:
    """The message types of one set, numbered, with the fields of Wire.tla."""

    def __init__(self, fs):
        self.fs = fs
        self.list = [(i, p, m) for i, f in enumerate(fs) for p, m in messages(f)]
        self.index = {(i, "".join(p)): n + 1 for n, (i, p, m) in enumerate(self.list)}
        self.enum = {(i, "".join(p)): e for i, f in enumerate(fs) for p, e in enums(f)}

    def fields(self, t):
        i, p, m = self.list[t - 1]
        out = []
        for f in m["fields"]:
            k = {"enum": "int32"}.get(f["k"], f["k"])
            if f["c"] == "map":
                c = "map"
            elif f["l"] == "rep":
                c = "rep"
            elif k in ("message", "bytes") or f["l"] == "none":
                c = "plain"
            else:
                c = "opt"
            out.append(dict(n=f["n"], k=k, c=c, m=self.index[(f["rf"] - 1, "".join(f["rp"]))] if k == "message" else 0, kk=f["kk"]))
        return out

    # ------------------------------------------- values protoc can be given
    def zero(self, t):
        return [[0] * 8 if f["c"] == "plain" and f["k"] not in ("string", "bytes", "message") else [] for f in self.fields(t)]

    def word(self, f, w):
        """A word that text format can carry exactly."""
        if f["k"] == "enum":
            ns = [v["n"] for v in self.enum[(f["rf"] - 1, "".join(f["rp"]))]["vals"]]
            n = ns[sum(w) % len(ns)]
            return list(struct.pack("<q", n))
        b = bytes(w)
        if f["k"] == "float":
            x = struct.unpack("<f", b[:4])[0]
            return w if x == x else list(struct.pack("<f", 1.5)) + [0] * 4
        if f["k"] == "double":
            x = struct.unpack("<d", b)[0]
            return w if x == x else list(struct.pack("<d", -2.5))
        return w

    def elem(self, f, x, depth):
        if f["k"] == "string":
            return [c & 0x7f for c in x]
        if f["k"] == "bytes":
            return x if x else [[]]
        if f["k"] == "message":
            t = self.index[(f["rf"] - 1, "".join(f["rp"]))]
            return [self.clean(t, x[0], depth + 1) if x else self.clean(t, self.zero(t), depth + 1)]
        return self.word(f, x)

    def clean(self, t, v, depth=0):
        out = []
        for f, w, x in zip(self.list[t - 1][2]["fields"], self.fields(t), v):
            if w["c"] == "plain" and w["k"] in ("bytes", "message"):
                y = self.elem(f, x, depth) if x or (f["l"] == "req" and depth < 20) else []
                if f["l"] == "none" and y == [[]] and w["k"] == "bytes":
                    y = []  # implicit presence: protoc has no empty bytes there
            elif w["c"] == "plain":
                y = self.elem(f, x, depth)
            elif w["c"] == "opt":
                y = [self.elem(f, x[0], depth)] if x else [self.elem(f, [] if f["k"] == "string" else [0] * 8, depth)] if f["l"] == "req" else []
            elif w["c"] == "rep":
                y = [self.elem(f, e, depth) for e in x]
            else:
                y, seen = [], set()
                for k, e in x:
                    k = self.elem(dict(k=f["kk"]), k, depth)
                    if json.dumps(k) not in seen:
                        seen.add(json.dumps(k))
                        y.append([k, self.elem(f, e, depth)])
                y.sort(key=lambda p: json.dumps(p[0], separators=(",", ":")))
            out.append(y)
        return out

    # ---------------------------------------------------------- text format
    def scalar(self, k, x):
        if k in ("string", "bytes"):
            return '"%s"' % "".join("\\%03o" % c for c in x)
        b = bytes(x)
        if k == "bool":
            return "true" if x[0] else "false"
        if k in ("float", "double"):
            v = struct.unpack("<f", b[:4])[0] if k == "float" else struct.unpack("<d", b)[0]
            if v in (float("inf"), float("-inf")):
                return "inf" if v > 0 else "-inf"
            return ("%.9g" if k == "float" else "%.17g") % v
        if k in ("uint64", "fixed64"):
            return str(struct.unpack("<Q", b)[0])
        if k in ("uint32", "fixed32"):
            return str(struct.unpack("<I", b[:4])[0])
        if k in ("int32", "sint32", "sfixed32", "enum"):
            return str(struct.unpack("<i", b[:4])[0])
        return str(struct.unpack("<q", b)[0])

    def text_elem(self, f, x):
        if f["k"] == "message":
            return "{ %s }" % self.text(self.index[(f["rf"] - 1, "".join(f["rp"]))], x[0])
        if f["k"] == "bytes":
            x = x[0]
        return self.scalar(f["k"], x)

    def text(self, t, v):
        out = []
        for f, w, x in zip(self.list[t - 1][2]["fields"], self.fields(t), v):
            name = "".join(f["name"])
            if w["c"] == "plain" and w["k"] in ("bytes", "message"):
                xs = [x] if x else []
            elif w["c"] == "plain":
                xs = [x] if (len(x) if w["k"] == "string" else any(x)) else []
            elif w["c"] == "map":
                for k, e in x:
                    out.append("%s: { key: %s value: %s }" % (name, self.scalar(f["kk"], k), self.text_elem(f, e)))
                continue
            else:
                xs = x
            out += ["%s: %s" % (name, self.text_elem(f, e)) for e in xs]
        return " ".join(out)


def varint(n):
    out = []
    while n >= 128:
        out.append(n & 127 | 128)
        n >>= 7
    return bytes(out + [n])


def unvarint(b, i):
    n = s = 0
    while True:
        n |= (b[i] & 127) << s
        s += 7
        i += 1
        if b[i - 1] < 128:
            return n, i


def split(b):
    """The fields of a batch, in order: (number, payload)."""
    i, out = 0, []
    while i < len(b):
        tag, i = unvarint(b, i)
        n, i = unvarint(b, i)
        out.append((tag >> 3, b[i:i + n]))
        i += n
    return out


class EndToEnd:
    def __init__(self, ctx, seed, n):
        self.ctx = ctx
        sets = [gen.Sampler(seed * 100000 + 70000 + k, runtime=True, files=3).set() for k in range(n)]
        for fs in sets:
            for f in fs:
                for m in gen.walk(f):
                    for x in m["fields"]:
                        if x["k"] == "message" and x["l"] == "req" and x["c"] == "one":
                            x["l"] = "opt"  # a required message can require itself
        # judged as P16 and P19 judge it, first
        self.evs, _, self.root, self.paths, self.sets = gen.emit(ctx, sets, label="end to end", prefix="vharness/vg/")

        self.types, self.at = {}, {}
        for k, (e, fs) in enumerate(zip(self.evs, self.sets)):
            t = Types(fs)
            # (what does not compile is either rejected by TraceGen, or the input's fault)
            if e["ran"] and t.list and not any(o["errors"] for o in e["obs"]):
                self.types[fs[0]["tag"]] = t
                self.at[fs[0]["tag"]] = k

    def build(self):
        """The harness with the emitted packages in it."""
        top = self.ctx.path("e2e")
        mod = os.path.join(top, "vharness")
        shutil.copytree(self.ctx.module(), mod)
        files = [p for n in self.types for p in self.paths[self.at[n]]]
        gen.protoc(self.ctx, self.root, top, files)
        imports, lines = {}, []
        for n, t in self.types.items():
            lines.append('\tgenSchemas["%s"] = []genType{' % n)
            for j, (i, p, m) in enumerate(t.list):
                pkg = t.fs[i]["pkg"]
                a = imports.setdefault(pkg, "g%d" % len(imports))
                lines.append("\t\t{reflect.TypeOf(%s.%s{}), `%s`}," % (a, camel(p), json.dumps(t.fields(j + 1))))
            lines.append("\t}")
        with open(os.path.join(mod, "zz_generated.go"), "w") as h:
            h.write("package main\n\nimport (\n\t\"reflect\"\n%s)\n\nfunc init() {\n%s\n}\n" % (
                "".join('\t%s "%s"\n' % (a, p) for p, a in imports.items()), "\n".join(lines)))
        out = os.path.join(self.ctx.work, "vh-e2e-%d" % next(self.ctx._n))
        p = sh(["go", "build", "-o", out, "."], cwd=mod, timeout=600, check=False)
        if p.returncode != 0:
            self.ctx.violation("emitted code does not compile with the runtime: " + p.stderr.decode()[:400],
                               dict(kind="compile", stderr=p.stderr.decode()[:4000], files=gen.tree(self.root) and {
                                   f: open(os.path.join(self.root, f)).read() for f in files[:50]}))
            return None
        self.bin = out
        self.ctx.log("harness built with %d emitted sets, %d message types" % (len(self.types), sum(len(t.list) for t in self.types.values())))
        return out

    def batch(self, n, values, decode=None):
        """protoc on many messages of one set: encodes values (t, v), or the bytes given, decoded and encoded again."""
        t = self.types[n]
        root = self.root
        with open(os.path.join(root, "batch_%s.proto" % n), "w") as h:
            h.write('syntax = "proto2";\npackage batch.%s;\n' % n)
            for p in self.paths[self.at[n]]:
                h.write('import "%s";\n' % p)
            h.write("message Batch {\n")
            for j, (i, p, m) in enumerate(t.list):
                h.write("  repeated .%s.%s.%s m%d = %d;\n" % (n, t.fs[i]["base"], "".join(p), j + 1, j + 1))
            h.write("}\n")
        cmd = ["protoc", "-I", root, "-I", "/usr/include", "batch_%s.proto" % n]
        if decode is None:
            txt = "\n".join("m%d { %s }" % (ty, t.text(ty, v)) for ty, v in values).encode()
        else:
            b = b"".join(varint(ty << 3 | 2) + varint(len(x)) + x for ty, x in decode)
            p = sh(cmd + ["--decode=batch.%s.Batch" % n], stdin=b, check=False, timeout=120)
            if p.returncode != 0:
                return None
            txt = p.stdout
        p = sh(cmd + ["--encode=batch.%s.Batch" % n], stdin=txt, check=False, timeout=120)
        if p.returncode != 0:
            if decode is not None:
                return None
            raise CheckError("protoc --encode: " + p.stderr.decode()[:1000])
        return split(p.stdout)


def cross(ctx, e, per):
    """Messages of every emitted type, through protoc and through the library, both ways."""
    vals = ctx.path("values")
    sh([e.bin, "values", "-n", str(per), "-seed", str(ctx.seed), "-trace", vals], timeout=300)
    by = {}
    for l in open(vals):
        x = json.loads(l)
        by.setdefault(x["set"], []).append((x["t"], e.types[x["set"]].clean(x["t"], x["v"])))
    sess, n, want = [], 0, []
    for name, vs in sorted(by.items()):
        vs.sort(key=lambda x: x[0])
        enc = e.batch(name, vs)
        # protoc writes the batch field by field, each in order
        if [t for t, _ in enc] != [t for t, _ in vs]:
            raise CheckError("protoc changed the order of a batch")
        for (t, v), (_, b) in zip(vs, enc):
            sess.append(dict(id=n, ops=[
                dict(op="new", o=1, t=t, v=v), dict(op="marshal", o=1, b=1),
                dict(op="buf", b=2, v=list(b)), dict(op="new", o=2, t=t, v=[]), dict(op="unmarshal", o=2, b=2),
                dict(op="expect", o=2, v=v)],
                **{"def": dict(types=[], seed=0, static="gen:" + name)}))
            want.append((name, t, v))
            n += 1
    f = ctx.path("foreign.sessions")
    with open(f, "w") as h:
        for s in sess:
            h.write(json.dumps(s) + "\n")
    focus = ["panic", "merr", "accept", "value", "expect", "encparse"]
    before = len(ctx.violations)
    trace = ctx.sessions(f, focus, label="written by protoc")
    ctx.count("messages_from_protoc", n)
    if len(ctx.violations) > before:
        return
    # what the library wrote, read by protoc
    out = {}
    sid = None
    for l in open(trace):
        ev = json.loads(l)
        if ev["op"] == "start":
            sid = ev["sid"]
        elif ev["op"] == "marshal":
            out[sid] = bytes(next((r for i, r in ev["cb"] if i == ev["b"]), []))
    sess2, n2 = [], 0
    for name in sorted(by):
        ids = [i for i in range(n) if want[i][0] == name]
        re = e.batch(name, None, decode=[(want[i][1], out[i]) for i in ids])
        if re is None:
            for i in ids:
                if e.batch(name, None, decode=[(want[i][1], out[i])]) is None:
                    ctx.violation("protoc cannot read what the library wrote for a message of type %d of %s" % (want[i][1], name),
                                  dict(kind="foreign", set=e.sets[e.at[name]], value=want[i][2], bytes=list(out[i])))
                    return
            raise CheckError("protoc cannot read a batch, but every message of it")
        for i, (_, b) in zip(ids, re):
            _, t, v = want[i]
            sess2.append(dict(id=n2, ops=[dict(op="buf", b=1, v=list(b)), dict(op="new", o=1, t=t, v=[]),
                                          dict(op="unmarshal", o=1, b=1), dict(op="expect", o=1, v=v)],
                              **{"def": dict(types=[], seed=0, static="gen:" + name)}))
            n2 += 1
    f = ctx.path("reread.sessions")
    with open(f, "w") as h:
        for s in sess2:
            h.write(json.dumps(s) + "\n")
    ctx.sessions(f, focus, label="read by protoc")
    ctx.count("messages_to_protoc", n2)


# ------------------------------------------------- constructs that do not work
FINDINGS = {
    "a.proto": """syntax = "proto2";
package fa;
option go_package = "vharness/vg/fa";
message M { optional int32 x = 1; oneof o { string s = 2; int32 i = 3; } }
message G { optional int32 x = 1; optional group Grp = 2 { optional int32 y = 1; } }
""",
    "b.proto": """syntax = "proto3";
package fb;
option go_package = "vharness/vg/fb";
message P { repeated int32 x = 1; }
"""}
PROGRAM = """package main

import (
	"fmt"

	"github.com/RomiChan/protobuf/proto"
	"vharness/vg/fa"
	"vharness/vg/fb"
)

func show(what string, f func() ([]byte, error)) {
	defer func() {
		if x := recover(); x != nil {
			fmt.Printf("%s panic %v\\n", what, x)
		}
	}()
	b, err := f()
	if err != nil {
		fmt.Printf("%s error\\n", what)
		return
	}
	fmt.Printf("%s %x\\n", what, b)
}

func main() {
	show("oneof", func() ([]byte, error) { return proto.Marshal(&fa.M{X: proto.Some[int32](1), O: &fa.M_S{S: "a"}}) })
	show("group", func() ([]byte, error) {
		return proto.Marshal(&fa.G{X: proto.Some[int32](1), Grp: &fa.G_Grp{Y: proto.Some[int32](5)}})
	})
	show("packed", func() ([]byte, error) {
		var p fb.P
		err := proto.Unmarshal([]byte{10, 2, 1, 2}, &p)
		return []byte(fmt.Sprint(p.X)), err
	})
}
"""
# construct: (finding, what a conforming implementation does, what is recorded)
EXPECT = {"oneof": ("oneof-dropped", "0801120161", ["0801", "error"]),
          "group": ("group-rejected", "080113080514", ["error", "panic"]),
          "packed": ("packed-input", b"[1 2]".hex(), ["error"])}


def findings(ctx, known):
    """The recorded constructs, as they were found."""
    d = ctx.path("findings")
    mod = os.path.join(d, "vharness")
    shutil.copytree(ctx.module(), mod)
    for n, s in FINDINGS.items():
        open(os.path.join(d, n), "w").write(s)
    gen.protoc(ctx, d, d, list(FINDINGS))
    os.makedirs(os.path.join(mod, "zz"))
    open(os.path.join(mod, "zz", "main.go"), "w").write(PROGRAM)
    p = sh(["go", "run", "./zz"], cwd=mod, timeout=300, check=False)
    if p.returncode != 0:
        ctx.violation("emitted code with a oneof, a group or a packed field: " + p.stderr.decode()[:400],
                      dict(kind="findings", files=FINDINGS, program=PROGRAM, stderr=p.stderr.decode()[:3000]))
        return
    got = dict(l.split(" ", 1) if " " in l else (l, "") for l in p.stdout.decode().strip().split("\n"))
    for k, (name, right, bad) in EXPECT.items():
        if got[k] == right:
            continue
        if name in known and got[k].split(" ")[0] in bad:
            ctx.known_finding(known[name])
        else:
            ctx.violation("%s: the outcome is %s" % (k, got[k]), dict(kind="findings", files=FINDINGS, program=PROGRAM, outcome=got))
