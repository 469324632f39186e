"""Builds the resolved program model: runs the clang exporter over every
non-test translation unit below /repo/cxx and merges the results."""
import glob, hashlib, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("SA_REPO", "/repo")
CXX = os.path.join(REPO, "cxx")
EXPORT = os.path.join(VERIF, "tool", "bin", "export")
CACHE = os.path.join(VERIF, ".cache")
FLAGS = ["-std=c++20", "-iquote", ".", "-w", "-ferror-limit=5",
         "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
# Test translation units that are only parsed for the template
# instantiations they force (nothing located in a test file is analysed).
EXTRA_TUS = ["noisy_relation_test.cc", "clean_relation_test.cc",
             "transition_latent_value_test.cc",
             "distributions/adapter_test.cc", "emissions/sometimes_test.cc"]


class Broken(Exception):
    """The analysis cannot be carried out (vanished anchor, parse error)."""


def units():
    out = []
    for p in sorted(glob.glob(os.path.join(CXX, "**", "*.cc"), recursive=True)):
        r = os.path.relpath(p, CXX)
        if r.endswith("_test.cc") or r.startswith("tests/") or r == "typename_playground.cc":
            continue
        out.append(r)
    return out


def _digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(os.path.relpath(f, CXX).encode() if f.startswith(CXX) else os.path.basename(f).encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def _sources():
    fs = []
    for pat in ("*.cc", "*.hh", "*.hpp", "*.h"):
        fs += glob.glob(os.path.join(CXX, "**", pat), recursive=True)
    return sorted(fs) + [EXPORT, os.path.abspath(__file__)]


class Program:
    def __init__(self):
        self.types = []
        self._tid = {}
        self.fns = {}
        self.recs = {}
        self.enums = {}
        self.globals = {}
        self.units = []
        self.overriders = {}
        self.byq = {}
        self.bypat = {}

    # ---- merging -------------------------------------------------------
    def _merge(self, tu, d):
        src = d["types"]
        tmap = {}
        for i, t in enumerate(src):
            if t is None:
                continue
            s = t["s"]
            if s not in self._tid:
                self._tid[s] = len(self.types)
                self.types.append(None)
            tmap[i] = self._tid[s]
        for i, t in enumerate(src):
            if t is None:
                continue
            n = tmap[i]
            if self.types[n] is None:
                t = dict(t)
                if "to" in t:
                    t["to"] = tmap.get(t["to"], -1)
                if "args" in t:
                    t["args"] = [tmap.get(a, -1) if isinstance(a, int) else a
                                 for a in t["args"]]
                self.types[n] = t
        vbase = len(self.units) * 10_000_000

        def fix(o):
            if isinstance(o, dict):
                for k in ("t", "at", "rt", "ct", "ret", "ft"):
                    v = o.get(k)
                    if isinstance(v, int):
                        o[k] = tmap.get(v, -1)
                if isinstance(o.get("id"), int):
                    o["id"] += vbase
                for k in ("params", "targs", "bases"):
                    v = o.get(k)
                    if isinstance(v, list) and any(isinstance(x, int) for x in v):
                        o[k] = [tmap.get(x, -1) if isinstance(x, int) else x for x in v]
                if "args" in o and isinstance(o["args"], list) and o["args"] and \
                        isinstance(o["args"][0], int):
                    o["args"] = [tmap.get(x, -1) if isinstance(x, int) else x for x in o["args"]]
                if isinstance(o.get("base"), int):
                    o["base"] = tmap.get(o["base"], -1)
                for v in o.values():
                    if isinstance(v, (dict, list)):
                        fix(v)
            elif isinstance(o, list):
                for v in o:
                    if isinstance(v, (dict, list)):
                        fix(v)
        for f in d["functions"]:
            if f["q"] == "main":
                f["key"] += "@" + f["file"]
            if f["file"].endswith("_test.cc") or f["key"] in self.fns:
                continue
            fix(f)
            f["tu"] = tu
            self.fns[f["key"]] = f
        for r in d["records"]:
            if r["file"].endswith("_test.cc") or r["name"] in self.recs:
                continue
            fix(r)
            self.recs[r["name"]] = r
        for e in d["enums"]:
            self.enums.setdefault(e["q"], e)
        for g in d["globals"]:
            if not g["file"].endswith("_test.cc") and g["q"] not in self.globals:
                fix(g)
                self.globals[g["q"]] = g
        self.units.append(tu)

    def _index(self):
        for f in self.fns.values():
            self.byq.setdefault(f["q"], []).append(f)
            for o in f.get("overrides", []):
                self.overriders.setdefault(o, []).append(f["key"])

    # ---- queries -------------------------------------------------------
    def type(self, i):
        return self.types[i] if isinstance(i, int) and i >= 0 else {"s": "?", "k": "?"}

    def strip(self, i):
        t = self.type(i)
        while t["k"] in ("ref", "ptr") and t.get("to", -1) >= 0:
            t = self.type(t["to"])
        return t

    def noref(self, i):
        t = self.type(i)
        while t["k"] == "ref" and t.get("to", -1) >= 0:
            t = self.type(t["to"])
        return t

    def fn(self, q, required=True):
        """All functions with qualified name q (all overloads/instantiations)."""
        r = self.byq.get(q, [])
        if required and not r:
            raise Broken("anchor %s not found in the resolved program" % q)
        return r

    def fn1(self, q):
        return self.fn(q)[0]

    def rec_q(self, q):
        return [r for r in self.recs.values() if r["q"] == q]

    def bases(self, rec):
        out = []
        for b in rec.get("bases", []):
            n = self.type(b)["s"]
            out.append(n)
            if n in self.recs:
                out += self.bases(self.recs[n])
        return out

    def derives(self, rec, baseq):
        for b in rec.get("bases", []):
            t = self.type(b)
            if t.get("rec") == baseq:
                return True
            if t["s"] in self.recs and self.derives(self.recs[t["s"]], baseq):
                return True
        return False

    def resolve_method(self, cls, key_or_name, callee=None):
        """Final overrider of a method for dynamic class `cls` (canonical
        record name)."""
        seen = set()
        todo = [cls]
        name = key_or_name
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            r = self.recs.get(c)
            if r is None:
                continue
            cands = []
            for m in r["methods"]:
                if m["name"] != name or m.get("pure"):
                    continue
                if callee is not None and not _compatible(m["key"], callee):
                    continue
                cands.append(m)
            for m in cands:
                if m["key"] in self.fns:
                    return self.fns[m["key"]]
            todo += [self.type(b)["s"] for b in r["bases"]]
        return None


def _sig(key):
    # parameter list + constness, without class qualification
    i = key.find("(")
    depth = 0
    # the last top-level parenthesised group is the signature
    j = key.rfind("(")
    # parameters may contain parentheses (function types); rare here.
    return key[j:]


def _compatible(mkey, ckey):
    return _sig(mkey).count(",") == _sig(ckey).count(",") and \
        _sig(mkey).endswith("const") == _sig(ckey).endswith("const")


def _run(tu, out, defs=()):
    cmd = [EXPORT, "-o", out, "-root", CXX, tu, "--"] + FLAGS + list(defs)
    p = subprocess.run(cmd, cwd=CXX, capture_output=True, text=True, timeout=300)
    if p.returncode != 0 or not os.path.exists(out):
        return tu, p.stderr[-2000:]
    return tu, None


def load(extra=True, defs=()):
    subprocess.run([os.path.join(VERIF, "tool", "build.sh")], check=True)
    import pickle
    files = _sources()
    salt = "".join(d.replace("-", "_") for d in defs)
    dig = _digest(files) + salt
    os.makedirs(CACHE, exist_ok=True)
    pk = os.path.join(CACHE, dig + ".pickle")
    if os.path.exists(pk):
        with open(pk, "rb") as f:
            return pickle.load(f)
    tus = units()
    if len(tus) < 20:
        raise Broken("only %d translation units found under %s" % (len(tus), CXX))
    ex = [t for t in EXTRA_TUS if os.path.exists(os.path.join(CXX, t))] if extra else []
    tmpd = os.path.join(CACHE, "tmp.%d" % os.getpid())
    os.makedirs(tmpd)
    prog = Program()
    # one unit depends on its own text and on every header
    heads = [f for f in files if not f.endswith(".cc")]
    tud = os.path.join(CACHE, "tu")
    os.makedirs(tud, exist_ok=True)

    def one(j):
        tu, out = j
        c = os.path.join(tud, _digest(heads + [os.path.join(CXX, tu)]) + salt + ".json")
        if os.path.exists(c):
            try:
                os.link(c, out)
                os.utime(c)
                return tu, None
            except OSError:
                pass
        r = _run(tu, out, defs)
        if r[1] is None:
            t = c + ".%d" % os.getpid()
            try:
                os.link(out, t)
                os.replace(t, c)
            except OSError:
                pass
        return r
    try:
        jobs = [(t, os.path.join(tmpd, t.replace("/", "_") + ".json")) for t in tus + ex]
        with ThreadPoolExecutor(8) as pool:
            res = list(pool.map(one, jobs))
        for (tu, err) in res:
            if err:
                if tu in ex:
                    continue
                raise Broken("cannot parse %s: %s" % (tu, err))
        for tu, out in jobs:
            if os.path.exists(out):
                with open(out) as f:
                    prog._merge(tu, json.load(f))
    finally:
        for n in os.listdir(tmpd):
            os.unlink(os.path.join(tmpd, n))
        os.rmdir(tmpd)
    prog._index()
    prog.digest = dig
    # keep the cache small
    old = sorted(glob.glob(os.path.join(CACHE, "*.pickle")), key=os.path.getmtime)
    old = old[:-8] + sorted(glob.glob(os.path.join(tud, "*.json")), key=os.path.getmtime)[:-600]
    for o in old:
        try:
            os.unlink(o)
        except OSError:
            pass
    with open(pk + ".%d" % os.getpid(), "wb") as f:
        pickle.dump(prog, f, protocol=4)
    os.replace(pk + ".%d" % os.getpid(), pk)
    return prog


