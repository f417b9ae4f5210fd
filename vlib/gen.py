"""The generator: .proto files from descriptors of spec/Gen.tla, runs of protoc with
protoc-gen-golite, and what the Go front end makes of the output."""
import hashlib, json, os, random, re, shutil, string

from concurrent.futures import ThreadPoolExecutor

from .core import CheckError, REPO, sh

SCALARS = ["bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
           "sfixed32", "sfixed64", "float", "double", "string", "bytes"]
KEYS = [k for k in SCALARS if k not in ("float", "double", "bytes")]


def cases(out):
    """The sets TLC printed, in an order that does not depend on TLC's."""
    ls = sorted(set(l for l in out.split("\n") if l.startswith('"CASE ')))
    return [json.loads(json.loads(l)[5:]) for l in ls]


# ------------------------------------------------------------- rendering

class Render:
    """The text of a file; decor adds comments and options that mean nothing."""

    def __init__(self, tag, fs, i, decor=None):
        self.tag, self.fs, self.f, self.i, self.rnd = tag, fs, fs[i], i, decor
        self.out = []
        self.at, self.exts = [], []

    def pkg(self, i):
        return "" if self.fs[i].get("nopkg") else "%s.%s." % (self.tag, self.fs[i]["base"])

    def path(self, i):
        f = self.fs[i]
        return (f["dir"] + "/" if f["dir"] else "") + f["base"] + ".proto"

    def p(self, depth, s):
        self.out.append("  " * depth + s)

    COMMENTS = ["plain", "two\nlines", "a `back` \"quote\" */ /* // x", "trailing space ", "", "非ascii", "\ttab", "Deprecated: no", "*/"]

    def lead(self, depth, x):
        if "doc" in x: # these lines, laid out in some way
            self.p(0, "")
            if self.rnd.random() < .1:
                self.p(depth, "// detached words")
                self.p(0, "")
            lines = [self.rnd.choice(["", " ", "  ", "\t"]) + " ".join(l) for l in x["doc"]]
            if lines and self.rnd.random() < .15 and not any("*" in l for l in lines):
                self.p(depth, "/*%s */" % "\n".join(lines))
            else:
                for l in lines:
                    self.p(depth, "//" + l + self.rnd.choice(["", "", " "]))
            return
        if self.rnd and self.rnd.random() < .3:
            for l in self.rnd.choice(self.COMMENTS).split("\n"):
                self.p(depth, "//" + l)
            if self.rnd.random() < .2:
                self.p(0, "")
                self.p(depth, "// detached")

    def trail(self, x):
        if "trail" in x:
            lines = [" ".join(l) for l in x["trail"]]
            return "" if not lines else "  // " + lines[0] if len(lines) == 1 else "  /* %s */" % "\n".join(lines)
        if self.rnd and self.rnd.random() < .2:
            return "  // " + self.rnd.choice([c for c in self.COMMENTS if "\n" not in c])
        if self.rnd and self.rnd.random() < .05:
            return "  /* over\n two lines */"
        return ""

    def dep(self, x):
        if "dep" in x:
            return x["dep"]
        return self.rnd is not None and self.rnd.random() < .15

    def name(self, cs):
        return "".join(cs)

    def ref(self, f):
        return ".%s%s" % (self.pkg(f["rf"] - 1), self.name(f["rp"]))

    def type(self, f):
        return self.ref(f) if f["k"] in ("message", "enum") else f["k"]

    def enum(self, e, depth):
        self.lead(depth, e)
        self.p(depth, "enum %s {" % self.name(e["name"]))
        ns = [v["n"] for v in e["vals"]]
        if len(set(ns)) < len(ns):
            self.p(depth + 1, "option allow_alias = true;")
        if self.dep(e):
            self.p(depth + 1, "option deprecated = true;")
        for v in e["vals"]:
            self.lead(depth + 1, v)
            self.p(depth + 1, "%s = %d%s;%s" % (self.name(v["name"]), v["n"], " [deprecated=true]" if self.dep(v) else "", self.trail(v)))
        self.p(depth, "}")

    def field(self, f, m, depth):
        self.lead(depth, f)
        opts = []
        if self.dep(f):
            opts.append("deprecated=true")
        if f["c"] == "one" and f["l"] == "rep" and f["k"] in SCALARS[:-2] + ["enum"] and self.unpacked:
            opts.append("packed=false")
        opts += self.options(f)
        o = " [%s]" % ", ".join(opts) if opts else ""
        name = self.name(f["name"])
        if f["c"] == "map":
            self.p(depth, "map<%s, %s> %s = %d%s;%s" % (f["kk"], self.type(f), name, f["n"], o, self.trail(f)))
            return
        label = {"opt": "optional ", "req": "required ", "rep": "repeated ", "none": ""}[f["l"]]
        if f["oo"]:
            label = ""
        if f["k"] == "group":
            g = f["rp"][-(f["rp"][::-1].index(".")):]
            sub = next(x for x in m["msgs"] if x["name"] == g)
            self.p(depth, "%sgroup %s = %d {" % (label, self.name(g), f["n"]))
            self.at.append(self.name(g))
            self.body(sub, depth + 1)
            self.at.pop()
            self.p(depth, "}")
            return
        self.p(depth, "%s%s %s = %d%s;%s" % (label, self.type(f), name, f["n"], o, self.trail(f)))

    unpacked = True

    # what has no counterpart in Go and changes nothing

    def noise(self, p):
        return self.rnd is not None and self.rnd.random() < p

    def options(self, f):
        o = []
        if self.noise(.08):
            o.append('json_name="zzJ%d"' % f["n"])
        if f["c"] != "one" or f["k"] == "group":
            return o
        if self.f["syn"] == 2 and f["l"] in ("opt", "req") and not f["oo"] and self.noise(.2):
            d = {"bool": "true", "string": self.rnd.choice(['"d"', '"a\\"`b"', '""']), "bytes": '"\\000\\377x"', "float": self.rnd.choice(["inf", "-1.5", "nan"]),
                 "double": self.rnd.choice(["-inf", "1e300", "0"])}
            if f["k"] in SCALARS:
                o.append("default=" + d.get(f["k"], "7" if f["k"].startswith(("u", "fixed")) else self.rnd.choice(["-1", "0", "2147483647"])))
        if f["k"] in ("string", "bytes") and self.noise(.1):
            o.append("ctype=" + self.rnd.choice(["CORD", "STRING_PIECE"]))
        if f["k"] in ("int64", "uint64", "sint64", "fixed64", "sfixed64") and self.noise(.1):
            o.append("jstype=" + self.rnd.choice(["JS_STRING", "JS_NUMBER"]))
        if f["k"] == "message" and self.noise(.1):
            o.append("lazy=true")
        return o

    def ranges(self, m, depth):
        used = [f["n"] for f in m["fields"]]
        a = self.rnd.choice([1, 50, 1000, 18000, 20000, 400000000])
        b = a + self.rnd.choice([0, 1, 40])
        free = not any(a <= n <= b for n in used) and not a <= 19999 <= b
        if free and self.f["syn"] == 2 and self.rnd.random() < .6:
            self.p(depth, "extensions %d to %d;" % (a, b))
            self.exts.append((self.pkg(self.i) + ".".join(self.at), a, b))
        elif free:
            self.p(depth, "reserved %d to %d, %d;" % (a, b, b + 1) if b + 1 not in used else "reserved %d to %d;" % (a, b))
        if self.rnd.random() < .3:
            self.p(depth, 'reserved "zz_gone", "zzGone";')

    def extend(self, depth):
        m, a, b = self.exts.pop()
        self.p(depth, "extend .%s {" % m)
        for n in range(a, min(b, a + 1) + 1):
            k = self.rnd.choice(SCALARS + ["." + m])
            self.p(depth + 1, "%s %s zz_ext_%d_%d = %d;" % (self.rnd.choice(["optional", "repeated"]), k, len(self.out), n, n))
        self.p(depth, "}")

    def around(self):
        """Between the declarations of a file."""
        if self.exts and self.noise(.5):
            self.extend(0)
        ms = [self.name(m["name"]) for m in self.f["msgs"]]
        if ms and self.noise(.08):
            self.p(0, "service ZzSvc%d {" % len(self.out))
            for i in range(self.rnd.randrange(3)):
                self.p(1, "rpc Do%d(.%s%s) returns (stream .%s%s);" % (i, self.pkg(self.i), self.rnd.choice(ms), self.pkg(self.i), self.rnd.choice(ms)))
            self.p(0, "}")

    def body(self, m, depth):
        if self.noise(.12):
            self.ranges(m, depth)
        if m.get("tracked"):
            self.p(depth, "option (track.use) = true;")
        if self.dep(m):
            self.p(depth, "option deprecated = true;")
        groups = [f["rp"] for f in m["fields"] if f["k"] == "group"]
        # the order of declarations is free, except that fields keep theirs
        for e in m["enums"]:
            self.enum(e, depth)
        for s in m["msgs"]:
            if not any(g[-len(s["name"]) - 1:] == ["."] + s["name"] for g in groups):
                self.message(s, depth)
        done = set()
        for f in m["fields"]:
            if f["oo"]:
                if f["oo"] in done:
                    continue
                done.add(f["oo"])
                self.lead(depth, m["oneofs"][f["oo"] - 1])
                self.p(depth, "oneof %s {" % self.name(m["oneofs"][f["oo"] - 1]["name"]))
                for g in m["fields"]:
                    if g["oo"] == f["oo"]:
                        self.field(g, m, depth + 1)
                self.p(depth, "}")
            else:
                self.field(f, m, depth)

    def message(self, m, depth):
        self.lead(depth, m)
        self.p(depth, "message %s {" % self.name(m["name"]))
        self.at.append(self.name(m["name"]))
        self.body(m, depth + 1)
        self.at.pop()
        if self.exts and self.noise(.2):
            self.extend(depth + 1)
        self.p(depth, "}")

    def text(self):
        f = self.f
        if "dep" not in f and self.dep(f):
            self.p(0, "// header\n")
        self.p(0, 'syntax = "proto%d";' % f["syn"])
        if self.pkg(self.i):
            self.p(0, "package %s;" % self.pkg(self.i)[:-1])
        self.p(0, 'option go_package = "%s";' % (f["pkg"] + f.get("pkgname", "")))
        if f.get("dep"):
            self.p(0, "option deprecated = true;")
        if self.noise(.15):
            self.p(0, self.rnd.choice(["option optimize_for = CODE_SIZE;", 'option java_package = "com.example.x";', "option cc_enable_arenas = true;", "option py_generic_services = true;"]))
        for m in f["imps"]:
            self.p(0, 'import %s"%s";' % ("public " if m["pub"] else "", self.path(m["to"] - 1)))
        if any(m.get("tracked") for m in walk(f)):
            self.p(0, 'import "track.proto";')
        for e in f["enums"]:
            self.enum(e, 0)
            self.around()
        for m in f["msgs"]:
            self.message(m, 0)
            self.around()
        return "\n".join(self.out) + "\n"


def walk(x):
    for m in x["msgs"]:
        yield m
        yield from walk(m)


TRACK = '''syntax = "proto2";
package track;
import "google/protobuf/descriptor.proto";
option go_package = "vg/track";
extend google.protobuf.MessageOptions { optional bool use = 37383685; }
'''


def place(sets, prefix="vg/"):
    """Gives every set directories, Go packages and a protobuf package of its own."""
    out = []
    for k, fs in enumerate(sets):
        fs = json.loads(json.dumps(fs))
        for f in fs:
            f["tag"] = "s%d" % k
            f["dir"] = "s%d/%s" % (k, f["dir"])
            f["pkg"] = f["pkg"].replace("vg/", "%ss%d/" % (prefix, k), 1)
        out.append(fs)
    return out


def write(root, sets, decor=None, unpacked=True):
    """Writes the .proto files; returns per set the list of paths."""
    paths = []
    for k, fs in enumerate(sets):
        ps = []
        for i in range(len(fs)):
            r = Render("s%d" % k, fs, i, decor)
            r.unpacked = unpacked
            p = r.path(i)
            os.makedirs(os.path.dirname(os.path.join(root, p)), exist_ok=True)
            with open(os.path.join(root, p), "w") as h:
                h.write(r.text())
            ps.append(p)
        paths.append(ps)
    with open(os.path.join(root, "track.proto"), "w") as h:
        h.write(TRACK)
    return paths


def protoc(ctx, root, out, files, opts="", check=True):
    os.makedirs(out, exist_ok=True)
    arg = ctx.path("files")
    with open(arg, "w") as h:
        h.write("\n".join(files))
    return sh(["protoc", "--plugin=protoc-gen-golite=" + ctx.plugin(), "-I", root, "-I", "/usr/include",
               "--golite_out=%s:%s" % (opts, out), "@" + arg], timeout=300, check=check)


def tree(root):
    r = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            r[os.path.relpath(p, root)] = open(p, "rb").read()
    return r


def emit(ctx, sets, decor=None, label="sets", prefix="vg/"):
    """Runs the generator on the sets and describes the output: events for TraceGen."""
    sets = place(sets, prefix)
    if decor: # one set, not to clash with others, whose last file is in no proto package
        sets[0][-1]["nopkg"] = True
    root = ctx.path("proto")
    os.makedirs(root)
    paths = write(root, sets, decor)
    flat = [p for ps in paths for p in ps]
    # protoc itself must accept what we wrote
    check = ["protoc", "-I", root, "-I", "/usr/include", "--descriptor_set_out=/dev/null"]
    if sh(check + ["@" + _list(ctx, flat)], timeout=300, check=False).returncode != 0:
        with ThreadPoolExecutor(8) as ex:
            ok = list(ex.map(lambda ps: sh(check + ps, timeout=60, check=False), paths))
        bad = [r.stderr.decode()[:200] for r in ok if r.returncode != 0]
        ctx.log("%s: protoc accepts %d of %d sets; %s" % (label, len(sets) - len(bad), len(sets), bad[0].strip()))
        if len(bad) > len(sets) // 2:
            raise CheckError("protoc rejects most sets")
        keep = [k for k, r in enumerate(ok) if r.returncode == 0]
        sets, paths = [sets[k] for k in keep], [paths[k] for k in keep]
        flat = [p for ps in paths for p in ps]
    rel, imp, one = ctx.path("rel"), ctx.path("imp"), ctx.path("one")
    ran = [True] * len(sets)
    p = protoc(ctx, root, rel, flat, "paths=source_relative", check=False)
    if p.returncode != 0:
        # which sets it cannot do
        shutil.rmtree(rel)
        for k, ps in enumerate(paths):
            ran[k] = protoc(ctx, root, rel, ps, "paths=source_relative", check=False).returncode == 0
            if ran.count(False) > 20:
                ran[k + 1:] = [False] * (len(sets) - k - 1)
                break
    good = [p for k, ps in enumerate(paths) if ran[k] for p in ps]
    # again, and for only some of the files each time
    last = [ps[-1] for k, ps in enumerate(paths) if ran[k]]
    rest = [p for k, ps in enumerate(paths) if ran[k] for p in ps[:-1]]
    again = ctx.path("again")
    jobs = [(imp, good, ""), (again, good, "paths=source_relative"), (one, last[::-1], "paths=source_relative"), (one, rest[::-1], "paths=source_relative")]
    jobs = [(root,) + j for j in jobs]
    # without the common start of all paths; and with the Go packages named on the command line
    mod, cmd, root2 = ctx.path("mod"), ctx.path("cmd"), ctx.path("proto2")
    jobs.append((root, mod, good, "module=" + prefix[:-1]))
    few = [k for k in range(len(sets)) if ran[k]][:60]
    some = [p for k in few for p in paths[k]]
    for p in some:
        os.makedirs(os.path.dirname(os.path.join(root2, p)), exist_ok=True)
        with open(os.path.join(root, p)) as h, open(os.path.join(root2, p), "w") as o:
            o.write(re.sub("(?m)^option go_package = .*$", "", h.read(), count=1))
    if os.path.isdir(root2):
        shutil.copy(os.path.join(root, "track.proto"), root2)
    jobs.append((root2, cmd, some, ",".join(["paths=source_relative"] + [
        "M%s=%s" % (p, f["pkg"] + f.get("pkgname", "")) for k in few for f, p in zip(sets[k], paths[k])])))
    ctx.plugin()
    os.makedirs(one)
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda j: protoc(ctx, j[0], j[1], j[2], j[3], check=False), [j for j in jobs if j[2]]))
    A, B, I, C, MO, CM = tree(rel), tree(one), tree(imp), tree(again), tree(mod), tree(cmd)
    spec = ctx.path("inspect")
    with open(spec, "w") as h:
        for k, fs in enumerate(sets):
            dirs = {f["pkg"]: os.path.join(rel, f["dir"]) for f in fs}
            h.write(json.dumps(dict(dirs=dirs, files=[
                dict(pkg=f["pkg"], path=os.path.join(rel, ps[:-6] + ".pb.go")) for f, ps in zip(fs, paths[k])])) + "\n")
    obsf = ctx.path("obs")
    sh([ctx.harness(), "geninspect", "-arg", spec, "-trace", obsf, REPO], timeout=600, env=dict(GODEBUG="gotypesalias=1"))
    evs = []
    made, madeI = set(A), set(I)
    for k, l in enumerate(open(obsf)):
        obs = json.loads(l)
        fs = sets[k]
        same = True
        for f, o, ps in zip(fs, obs, paths[k]):
            g = ps[:-6] + ".pb.go"
            gi = "%s/%s.pb.go" % (f["pkg"], f["base"])
            o["paths"] = dict(rel=g if g in A else "missing", imp=gi if gi in I else "missing")
            made.discard(g)
            madeI.discard(gi)
            o["imports"] = [x for x in o["imports"] if x != "vg/track"]
            o["errors"] = o["errors"][:3]
            same = same and A.get(g) == B.get(g) == I.get(gi) == C.get(g) == MO.get(gi[len(prefix):])
            if k in few:
                same = same and A.get(g) == CM.get(g)
        evs.append(dict(fs=fs, obs=obs, same=same, ran=ran[k]))
    extra = sorted(made) + sorted(madeI)
    if extra:
        evs[0]["obs"][0]["paths"]["rel"] = "unasked: " + extra[0]
    ctx.log("%s: %d sets, %d files emitted" % (label, len(sets), len(flat)))
    return evs, rel, root, paths, sets


def _list(ctx, files):
    p = ctx.path("list")
    with open(p, "w") as h:
        h.write("\n".join(files))
    return p


# ------------------------------------------------------- sampled sets

FIELD_NAMES = ["id", "foo_bar", "x1", "x_1", "a__b", "_lead", "fooBar", "FooBar", "URL", "get_name", "name", "string", "reset",
               "marshal", "unmarshal", "proto_message", "descriptor", "type", "func", "map", "a_b_c_d", "trailing_", "m2m", "x_2y",
               "value", "some", "is_some", "proto", "n", "int32", "error", "nil", "true", "x", "xx_y", "i", "len"]
MSG_NAMES = ["Foo", "foo", "foo_bar", "Bar2", "X", "Http_req", "HTTP", "inner", "Inner", "Entry", "Item", "data_", "T", "proto", "String", "Option"]
ENUM_NAMES = ["Kind", "color", "E_1", "state_code", "Mode"]
VAL_NAMES = ["ZERO", "one", "Two_2", "X", "LAST", "neg", "BIG", "_under", "Y", "a"]


class Sampler:
    """Sets of files with names, nestings and references nobody chose by hand."""

    def __init__(self, seed, runtime=False, nested=2, files=4, oneofs=.12):
        self.r = random.Random(seed)
        self.runtime = runtime  # only what the runtime supports
        self.nested, self.files, self.oneofs = nested, files, oneofs

    def names(self, pool, n):
        out, seen = [], set()
        for x in self.r.sample(pool, min(n, len(pool))):
            k = x.replace("_", "").lower()
            if k not in seen:
                seen.add(k)
                out.append(list(x))
        return out

    def number(self, used):
        while True:
            n = self.r.choice([self.r.randint(1, 20), self.r.choice([15, 16, 2047, 2048, 18999, 20000, 262143, 536870911]), self.r.randint(1, 1 << self.r.randint(1, 28))])
            if n not in used and not 19000 <= n <= 19999:
                used.add(n)
                return n

    def enum(self, name, used):
        vals = []
        for v in self.names(VAL_NAMES, self.r.randint(1, 5)):
            v = v + ["_"] + name if "".join(v) in used else v
            if "".join(v) in used:
                continue
            used.add("".join(v))
            vals.append(dict(name=v, n=0 if not vals else self.r.choice([0, 1, 2, -1, 2147483647, -2147483648, self.r.randint(-99, 99)])))
        if not vals:
            vals = [dict(name=list("Z_") + name, n=0)]
        return dict(name=name, vals=vals)

    def types(self, depth, prefix, top=True, deep=False):
        """Messages without fields yet; deep: one chain of them at least."""
        ms, es, used = [], [], set()
        lo, hi = (1, 3) if top else (1, 1) if deep else (0, 2)
        for n in self.names(MSG_NAMES, self.r.randint(lo, hi)):
            m = dict(name=n, fields=[], oneofs=[], enums=[], msgs=[])
            if depth > 0:
                m["msgs"], m["enums"] = self.types(depth - 1, prefix + n + ["."], False, deep)
            ms.append(m)
            used.add("".join(n))
        for n in self.names(ENUM_NAMES, self.r.randint(0, 2)):
            if "".join(n) in used:
                continue
            used.add("".join(n))
            es.append(self.enum(n, used))
        return ms, es

    def paths(self, x, prefix=()):
        for m in x["msgs"]:
            yield "message", list(prefix) + m["name"], m
            yield from self.paths(m, list(prefix) + m["name"] + ["."])
        for e in x["enums"]:
            yield "enum", list(prefix) + e["name"], e

    def fields(self, fs, i, m, path):
        f = fs[i]
        syn = f["syn"]
        vis = [j for j in visible(fs, i) if j == i or fs[j]["syn"] == syn]
        refs = [(j + 1, p, k) for j in vis for k, p, x in self.paths(fs[j])]
        used = set()
        norm = lambda x: "".join(x).replace("_", "").lower()
        taken = {norm(x["name"]) for x in m["msgs"] + m["enums"]} | {norm(v["name"]) for e in m["enums"] for v in e["vals"]}
        oo = 0
        for n in self.names(FIELD_NAMES, self.r.randint(0, 9)):
            if norm(n) in taken:
                continue
            c, kk, l = "one", "", self.r.choice(["opt", "req", "rep"] if syn == 2 else ["none", "none", "opt", "rep"])
            rf, rp = 0, []
            k = self.r.choice(SCALARS + ["message"] * 4 + ["enum"] * 2)
            if k in ("message", "enum"):
                c2 = [x for x in refs if x[2] == k]
                if not c2:
                    k = "sint64"
                else:
                    rf, rp, _ = self.r.choice(c2)
            if self.r.random() < .2:
                # the entry type has the name of the field
                if ("".join(n) + "entry").replace("_", "").lower() in taken:
                    continue
                taken.add(("".join(n) + "entry").replace("_", "").lower())
                c, kk, l = "map", self.r.choice(KEYS), "rep"
            elif not self.runtime and self.r.random() < self.oneofs:
                if not m["oneofs"] or self.r.random() < .5:
                    on = list("of_" + "".join(n))
                    m["oneofs"].append(dict(name=on))
                oo = len(m["oneofs"])
                l = "opt" if syn == 2 else "none"
            # one oneof's fields must follow each other
            m["fields"].append(dict(name=n, n=self.number(used), k=k, l=l, c=c, kk=kk, rf=rf, rp=rp, oo=oo if c == "one" and l in ("opt", "none") and oo and not (syn == 3 and l == "opt") else 0))
            oo = 0
        m["fields"] = self.regroup(m)
        if not self.runtime and self.r.random() < .06:
            m["tracked"] = True
        for s in m["msgs"]:
            self.fields(fs, i, s, path + ["."] + s["name"])

    def regroup(self, m):
        out, done = [], set()
        for f in m["fields"]:
            if not f["oo"]:
                out.append(f)
            elif f["oo"] not in done:
                done.add(f["oo"])
                out += [g for g in m["fields"] if g["oo"] == f["oo"]]
        return out

    def set(self):
        """For the runtime, a set whose packages can be compiled."""
        while True:
            fs = self.any()
            if not self.runtime or acyclic(fs):
                return fs

    def any(self):
        n = self.r.randint(1, self.files)
        fs, pkgs = [], []
        alike = random.Random(self.r.random()).random() < .3 # packages of one name
        syn = self.r.choice([2, 3])
        for i in range(n):
            if pkgs and self.r.random() < .4:
                pkg = self.r.choice(pkgs)
            else:
                pkg = "vg/" + (["p", "q/p", "go-r/p", "q/v1/p"] if alike else ["p", "q", "go-r", "v1/s"])[len(pkgs)]
                pkgs.append(pkg)
            imps = []
            for j in range(i):
                if self.r.random() < .6:
                    imps.append(dict(to=j + 1, pub=self.r.random() < .4))
            self.r.shuffle(imps)
            f = dict(dir="d%d" % pkgs.index(pkg), base="f%d" % i if self.r.random() < .7 else "f_%d-x" % i if False else "File%d" % i,
                     pkg=pkg, syn=syn if self.r.random() < .8 else 5 - syn, imps=imps)
            deep = self.r.random() < .12
            f["msgs"], f["enums"] = self.types(self.nested + (3 if deep else 0), [], deep=deep)
            if f["enums"] and not self.runtime and random.Random(self.r.random()).random() < .15:
                f["msgs"] = [] # only enums
            fs.append(f)
        for i in range(n):
            for m in fs[i]["msgs"]:
                self.fields(fs, i, m, m["name"])
        self.firsts(fs)
        return fs

    WORDS = ["the", "a", "`x`", '"q"', "*/", "/*", "//", "\\n", "%d", "{", "}", "非ascii", "Deprecated:", "no", "'s", "$1", "type", "func",
             "import", "package", ");", "x=1", "protobuf:\"varint,1,opt\"", "`", "\"", "go", "é"]

    def lines(self, p):
        if self.r.random() > p:
            return []
        n = self.r.choice([1, 1, 1, 2, 3])
        first = [["w"], ["w"], ["w"], ["Deprecated:"], ["Deprecated:", "Do", "not", "use."], ["Types", "that", "are", "assignable", "to"], ["Code", "generated"]]
        return [self.r.choice(first) + self.r.choices(self.WORDS, k=self.r.randint(0, 4)) if self.r.random() < .9 else [] for _ in range(n)]

    def document(self, fs):
        """Comments and marks of deprecation for everything that can have them."""
        def one(x, p=.5):
            x["doc"] = self.lines(p)
            if not any(x["doc"]):
                x["doc"] = []
            x["trail"] = [l for l in self.lines(.3) if l and not {"*/", "/*"} & set(l)]
            x["dep"] = self.r.random() < .25
        for f in fs:
            f["dep"] = self.r.random() < .3
            for k, p, x in self.paths(f):
                one(x)
                for y in x.get("vals", []) + x.get("fields", []) + x.get("oneofs", []):
                    one(y)
                for y in x.get("oneofs", []):
                    y["dep"] = False
        return fs

    def firsts(self, fs):
        """In proto2 the first value of an enum need not be 0, but for values of maps."""
        inmap = {(f["rf"], "".join(f["rp"])) for x in fs for m in walk(x) for f in m["fields"] if f["c"] == "map" and f["k"] == "enum"}
        for i, x in enumerate(fs):
            for k, p, e in self.paths(x):
                if k == "enum" and x["syn"] == 2 and (i + 1, "".join(p)) not in inmap and self.r.random() < .5:
                    e["vals"][0]["n"] = self.r.choice([1, -1, 5, 2147483647, -2147483648])


def acyclic(fs):
    """Go packages can import each other like this."""
    to = {}
    for i, f in enumerate(fs):
        to.setdefault(f["pkg"], set()).update(fs[j]["pkg"] for j in visible(fs, i) if fs[j]["pkg"] != f["pkg"])
    while to:
        free = [p for p in to if not to[p] & set(to)]
        if not free:
            return False
        for p in free:
            del to[p]
    return True


def visible(fs, i):
    seen = {m["to"] - 1 for m in fs[i]["imps"]}
    todo = list(seen)
    while todo:
        j = todo.pop()
        for m in fs[j]["imps"]:
            if m["pub"] and m["to"] - 1 not in seen:
                seen.add(m["to"] - 1)
                todo.append(m["to"] - 1)
    return sorted(seen | {i})
