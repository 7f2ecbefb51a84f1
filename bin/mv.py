"""Conformance machinery: cases from the TLA+ specification (spec/MViewGen.tla)
are rendered as Rust, compiled with the real macro, run, and what was observed
is handed back to TLC (spec/MViewTrace.tla), which compares it with the machine.
"""
import json, os, re, subprocess, shutil, sys, time, glob, signal, resource, random, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
SPEC = os.path.join(VERIF, "spec")
TLAJ = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NIGHTLY = "nightly-2025-09-01"
STABLE = "stable"
MEM = 5 << 30
CPUS = min(8, os.cpu_count() or 8)

ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="0",
           CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=TARGET)
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"):
    ENV.pop(k, None)


class CheckError(Exception):
    pass


def sh(cmd, timeout=None, env=None, cwd=None, mem=None):
    """Runs a command in its own process group; everything it started is ended on timeout."""
    limit = (lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))) if mem else None
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                         env=env or ENV, cwd=cwd, start_new_session=True, preexec_fn=limit)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


# ---------------------------------------------------------------- building

def env_for(stable):
    env = dict(ENV)
    if stable:
        env.update(RUSTUP_TOOLCHAIN=STABLE, CARGO_TARGET_DIR=TARGET + "-stable")
    return env


def build_kit(stable=False, clean=True):
    """Rebuilds the macro from /repo's working tree, and the kit on top of it.
    stable: with a stable compiler and without the macro's nightly feature."""
    harness = os.path.join(VERIF, "harness")
    env = env_for(stable)
    if clean:
        sh(["cargo", "clean", "-q", "--offline", "-p", "leptos-mview", "-p", "leptos-mview-macro",
            "-p", "leptos-mview-core", "-p", "kit"], cwd=harness, timeout=120, env=env)
    rc, o, e = sh(["cargo", "build", "--offline", "--message-format=json"] +
                  (["--no-default-features"] if stable else []), cwd=harness, timeout=1500, env=env)
    arts = {}
    errs = []
    for l in o.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            n = m["target"]["name"].replace("-", "_")
            for f in m["filenames"]:
                if f.endswith(".rlib") or (f.endswith(".so") and "proc-macro" in m["target"]["kind"]):
                    arts[n] = f
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            errs.append(m["message"].get("rendered") or m["message"]["message"])
    if rc != 0 or "kit" not in arts:
        raise CheckError("the harness does not build:\n" + "\n".join(errs)[:3000] + e[-2000:])
    deps = os.path.join(env["CARGO_TARGET_DIR"], "debug", "deps")
    return dict(L=["-L", "dependency=" + deps], env=env, stable=stable,
                ext=[x for n in ("leptos", "leptos_mview", "kit", "tachys") for x in ("--extern", n + "=" + arts[n])],
                arts=arts)


# ---------------------------------------------------------------- generation

def tlc_cmd(cfg, module, meta, extra, heap="2g"):
    return ["java", "-XX:TieredStopAtLevel=1", "-Xss256m", "-Xmx" + heap, "-XX:+UseSerialGC", "-cp", TLAJ, "tlc2.TLC",
            "-noGenerateSpecTE", "-metadir", meta, "-config", cfg] + extra + [module]


def uns(s):      # a TLC-printed string
    return json.loads(s)


def lit(v):
    return '"%s"' % v if isinstance(v, str) else str(v)


class Generator:
    """Runs MViewGen: cases, and what TLC covered while making them."""

    def __init__(self, work):
        self.work = work
        self.states = self.trans = 0
        self.n = 0
        self.invariants = []

    def _run(self, consts, template, extra, timeout):
        d = tempfile.mkdtemp(prefix="gen", dir=self.work)
        txt = open(os.path.join(SPEC, template)).read()
        for k, v in consts.items():
            txt, c = re.subn(r"(?m)^(\s*%s = ).*$" % k, lambda m: m.group(1) + lit(v), txt)
            assert c == 1, (k, template)
        cfg = os.path.join(d, "g.cfg")
        open(cfg, "w").write(txt)
        rc, out, err = sh(tlc_cmd(cfg, os.path.join(SPEC, "MViewGen.tla"), os.path.join(d, "m"), extra),
                          timeout=timeout, cwd=SPEC)
        if rc is None:
            raise CheckError("TLC timed out making cases: %s" % consts)
        cases = []
        for l in out.splitlines():
            if l.startswith('"CASE '):
                cases.append(json.loads(uns(l)[5:]))
        if rc != 0 or "Error:" in out:
            i = out.find("Error:")
            j = out.rfind("\nState ")
            raise CheckError("TLC: the specification breaks one of its own properties (%s)\n%s" % (consts, out[i:i + 3000]))
        st = tr = 0
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m:
            st = tr = int(m[-1])
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            tr, st = int(m[-1][0]), int(m[-1][1])
        shutil.rmtree(d, ignore_errors=True)
        return cases, st, tr

    def all(self, sources, seed):
        """sources: see plans.py. Returns a list of cases per source; their TLC runs share the CPUs."""
        jobs = []
        for n, s in enumerate(sources):
            if s[0] == "rnd":
                _, prof, num, depth, faults = s
                k = max(1, min(CPUS, num // 60))
                jobs += [(n, dict(Prof=prof, Depth=depth, Faults=faults), "gen_rnd.cfg",
                          ["-simulate", "num=%d" % ((num + k - 1) // k), "-depth", "3000", "-workers", "1",
                           "-seed", str(seed * 100000 + n * 1000 + i * 7 + 1)]) for i in range(k)]
            else:
                _, prof, size, share = s
                k = CPUS
                jobs += [(n, dict([("Prof", prof), ("Big" if s[0] == "cat" else "Depth", size),
                                   ("CatPart", i * share + seed % share), ("CatParts", k * share)]),
                          "gen_cat.cfg" if s[0] == "cat" else "gen_enum.cfg", ["-workers", "1"]) for i in range(k)]
        out = [[] for _ in sources]
        with ThreadPoolExecutor(CPUS) as ex:
            for j, (cs, st, tr) in zip(jobs, ex.map(lambda j: self._run(j[1], j[2], j[3], 3000), jobs)):
                out[j[0]] += cs
                self.states += st
                self.trans += tr
        return out


def dedup(cases):
    seen, out = set(), []
    for c in cases:
        k = json.dumps(strip(c["toks"]))
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def strip(ts):
    return [[t["k"], t["s"], t["f"], strip(t["ts"])] for t in ts]


# ---------------------------------------------------------------- rendering

CLOSE = {"{": "}", "(": ")", "[": "]"}


def rust_str(s, how=0):
    """s as a string literal; how: 1 raw, 2 raw with a hash, 3 with an escaped first character"""
    if how in (1, 2) and s.isprintable() and '"' not in s:
        return ('r"%s"' if how == 1 else 'r#"%s"#') % s
    if how == 3 and s:
        return '"\\u{%x}' % ord(s[0]) + rust_str(s[1:])[1:]
    o = '"'
    for ch in s:
        if ch in '"\\':
            o += "\\" + ch
        elif ch == "\n":
            o += "\\n"
        elif ord(ch) < 32:
            o += "\\u{%x}" % ord(ch)
        else:
            o += ch
    return o + '"'


# letters outside ASCII, as the specification spells them
WIDE = {"%1": "\u00fc", "%2": "\u00dc", "%3": "\u00e9", "%4": "\u540d"}
NARROW = {v: k for k, v in WIDE.items()}


def widen(s):
    return re.sub(r"%[1-4]", lambda m: WIDE[m.group(0)], s) if "%" in s else s


def narrow(s):
    return s if s.isascii() else "".join(NARROW.get(c, c) for c in s)


COMMENT = '/* x; " */'


class Renderer:
    """Tokens as Rust source, with the line and column of every token.
    style 0: blanks between all tokens; 1: none where hyphens, `=`, `;` and `.` allow it;
    2: the same, with line breaks and comments among the blanks. Strings are spelled in several ways."""

    def __init__(self, style, spell=True):
        self.spell = spell
        self.s = ""
        self.line = self.start = 0      # of the current line, and where it starts
        self.pos = {}
        self.style = int(style)
        self.count = 0
        self.hoist = None               # pieces of the call that a surrounding macro is given: [kind, text]

    def put(self, text, loc, tight):
        self.count += 1
        if not tight:
            if self.style == 2 and (self.count * 7 + len(text)) % 5 < 2:
                self.s += "\n"
                self.line += 1
                self.start = len(self.s)
            else:
                self.s += " %s " % COMMENT if self.style == 2 and (self.count * 5 + len(text)) % 13 == 0 else " "
        self.pos[(self.line, len(self.s) - self.start)] = loc
        self.s += text

    def take(self, t, prev):
        """What stands for t in the body of a macro, if t is one of the pieces that the macro is given."""
        if self.count % 3 == 0 or (prev is not None and (prev["k"], prev["s"]) in (("p", "!"), ("p", "-"), ("p", ":"))):
            return None
        if t["k"] == "lit" and t["f"] == "str":
            kind, text, body = "literal", rust_str(widen(t["s"])), "$h%d"
        elif t["k"] == "g" and t["s"] == "{" and [x["s"] for x in t["ts"]] == ["ev", "("]:
            text = "ev(%s)" % t["ts"][1]["ts"][0]["s"]
            kind, text, body = ("expr", text, "{ $h%d }") if self.count % 2 else ("block", "{ " + text + " }", "$h%d")
        else:
            return None
        self.hoist.append([kind, text])
        return body % (len(self.hoist) - 1)

    def seq(self, ts, inner=False):
        prev = None
        for t in ts:
            if self.hoist is not None and not inner:
                x = self.take(t, prev)
                if x:
                    self.put(x, (t["n"], 0), False)
                    prev = t
                    continue
            tight = False
            if prev is not None:
                if prev["k"] == "p" and prev["f"] == "j" and (t["k"] == "p" or prev["s"] == "'"):
                    tight = True
                elif self.style:
                    a, b = prev, t
                    if self.style == 2 and self.count % 3 == 0:
                        pass
                    elif a["k"] == "p" and a["s"] == "-" and b["k"] in ("id",) and b["f"] != "r":
                        tight = True
                    elif a["k"] == "p" and a["s"] == "-" and b["k"] == "lit" and b["f"] == "int":
                        tight = True
                    elif b["k"] == "p" and b["s"] == "-" and (
                            a["k"] == "id" or (a["k"] == "lit" and a["f"] == "int")):
                        tight = True
                    elif b["k"] == "p" and b["s"] in ("=", ";") and a["k"] != "p":
                        tight = True
                    elif a["k"] == "p" and a["s"] in (".", "=") and b["k"] in ("id", "lit", "g") and not (
                            a["s"] == "." and b["k"] == "lit"):
                        tight = True
            if t["k"] == "g":
                self.put(t["s"], (t["n"], 0), tight)
                self.seq(t["ts"], inner or t["s"] == "[" or (prev is not None and (prev["k"], prev["s"]) == ("p", "!")))
                self.put(CLOSE[t["s"]], (t["n"], 1), False)
            else:
                if t["k"] == "id":
                    x = ("r#" if t["f"] == "r" else "") + widen(t["s"])
                elif t["k"] == "lit":
                    x = rust_str(widen(t["s"]), self.count % 5 if self.spell else 0) if t["f"] == "str" else "'%s'" % t["s"] if t["f"] == "chr" else t["s"]
                else:
                    x = t["s"]
                self.put(x, (t["n"], 0), tight)
            prev = t


def plain(ts, glue=True):
    r = Renderer(1 if glue else 0, False)
    r.seq(ts)
    return r.s.strip()


STRVARS = ["a", "b", "id", "title", "lang", "href", "some_attr", "a_b_2", "data_x", "data_x_1", "aria_label",
           "class", "style", "color", "value", "name", "key_2", "_my_var", "_x", "a_", "x_y_z", "type", "for",
           "font_size", "fa_str", "role", "a__b", "isOpen", "data_Foo", "type_x", "col_01", "na%3_x", "ariax_y", "x_class"]
LIKELY = ["el", "children", "props", "builder", "attrs", "node", "child", "args", "view", "fragment", "tmp", "this", "handler", "event", "slot", "key", "val", "output"]
STRVARS += LIKELY
BOOLVARS = dict(red="true", off="false", is_red="true", hidden="true", checked="true", disabled="false",
                blue_100="true", is_Up="true")
KEYWORDS = {"type", "for"}
PRELUDE = ("let k1 = ::kit::Ck(\"k1\"); let k2 = ::kit::Ck(\"k2\"); let k_3 = ::kit::Ck(\"k_3\"); let lg = ::kit::Lg; "
           + " ".join('let %s = "v_%s";' % (widen(("r#" + v) if v in KEYWORDS else v), widen(v)) for v in STRVARS)
           + " " + " ".join("let %s = %s;" % kv for kv in BOOLVARS.items()))
HEAD = "#![allow(warnings)]\n#![recursion_limit = \"512\"]\nuse leptos::prelude::*; use leptos_mview::mview; use kit::*;\n"
# What the calls of one compilation have around them: (edition, what comes before them).
PLAIN = [("2021", HEAD)]
# The same names as in what the macro expands to, standing for other things.
OWN_TYPES = "pub struct %s;"
TYPES = ["View", "Box", "Vec", "String", "Option", "Result", "ToChildren", "Fragment", "AnyView", "Children", "HtmlElement",
         "IntoAttribute", "Attribute", "Default", "Clone", "Iterator", "Into", "From", "ToString", "IntoRender", "IntoAttributeValue",
         "Some", "None", "Ok", "Err"]
MODS = ["std", "core", "alloc", "leptos", "leptos_mview", "tachys", "html", "svg", "mathml", "element", "event", "attribute", "property",
        "directive", "children", "component", "prelude", "convert", "boxed", "vec", "option", "custom"]
FNS = ["div", "span", "p", "button", "circle", "mi", "custom", "capture", "undelegated", "on", "prop", "attr", "into", "view", "to_children",
       "component_view", "component_props_builder", "custom_attribute", "into_render", "into_attribute_value", "clone", "drop", "new", "run_"]
MACROS = ["vec", "stringify", "concat", "compile_error", "panic", "view", "quote", "html"]
OWN = ("#![allow(warnings)]\n#![recursion_limit = \"512\"]\nuse ::leptos::prelude::*; use ::leptos_mview::mview; use ::kit::*;\n"
       + " ".join("pub struct %s;" % t for t in TYPES) + "\n" + " ".join("pub mod %s {}" % m for m in MODS) + "\n"
       + " ".join("pub fn %s() {}" % f for f in FNS) + "\n"
       + " ".join("macro_rules! %s { ($($t:tt)*) => { NotThis } }" % m for m in MACROS) + "\n")
BARE = ("#![no_implicit_prelude]\n#![allow(warnings)]\n#![recursion_limit = \"512\"]\n"
        "use ::kit; use ::leptos::prelude::*; use ::leptos_mview::mview; use ::kit::*; use ::std::{format, unreachable, clone::Clone, string::ToString};\n")
OTHERS = [(e, h) for h in (OWN, BARE, HEAD) for e in ("2018", "2021", "2024")]


def in_expr(i):
    """whether call i stands as an expression, or as the last statement of a block"""
    return i % 3 != 0


def style_of(i, r=0):
    """how call i is laid out the r-th time it is expanded"""
    return (0, 1, 2, 1)[(i // 3 + r) % 4]


# what stands around a call that is an expression; @ is the call
AROUND = ["@", "@", "{ let v = @; v }", "(@)", "match () { () => @ }", "if true { @ } else { unreachable!() }", "@"]
# one call inside another: the block's value is the inner view
NESTED = "mview! { { @ } }"
DELIMS = ["{}", "{}", "{}", "()", "[]"]


FORMAT = 'macro_rules! format { ($($t:tt)*) => { "not this" } } '


def crate_paths(ts):
    """How many of the paths that start with `kit` have a leading `::`, and how many have none."""
    out = [0, 0]
    for i, t in enumerate(ts):
        if (t["k"], t["s"], t["f"]) == ("id", "kit", ""):
            out[0 if i > 1 and all(x["k"] == "p" and x["s"] == ":" for x in ts[i - 2:i]) else 1] += 1
        out = [a + b for a, b in zip(out, crate_paths(t["ts"]))]
    return out


def mentions(ts, s):
    return any((t["k"] == "id" and t["s"] == s) or mentions(t["ts"], s) for t in ts)


def render_case(i, toks, r=0, well=False, lines=True, own=False):
    """Source of call i and the token at each (line, column) of it. well: known to be well formed, so that
    no error position depends on what surrounds it."""
    rd = Renderer(style_of(i, r) if lines else style_of(i, r) % 2, i % 4 != 0)
    rd.s = "fn c%d() { %s run(%d, move || " % (i, PRELUDE, i)
    if own and not mentions(toks, "format"):
        rd.s = rd.s.replace("{ ", "{ " + FORMAT, 1)
    led, bare = crate_paths(toks)
    if led and not bare:            # `::kit` is the crate, whatever else is called so
        rd.s = rd.s.replace("{ ", "{ mod kit {} ", 1)
    d = "{}"
    if in_expr(i):
        pre, post = (AROUND[i % len(AROUND)] if well else "@").split("@")
        if well:
            d = DELIMS[i % len(DELIMS)]
            if i % 11 == 0:
                pre, post = NESTED.split("@")
        post += ") }"
    else:
        pre, post = "{ ", " }) }"
    rd.s += pre
    through = well and i % 13 in (4, 8)         # the call is what another macro expands to
    if through:
        start, rd.s = rd.s, ""
        rd.hoist = [] if i % 13 == 8 else None
    call = (0, len(rd.s))
    rd.s += "mview! " + d[0]
    rd.seq(toks)
    rd.s += " " + d[1]
    if through:
        h = rd.hoist
        if h is None:
            rd.s = start + "{ macro_rules! w { ($($t:tt)*) => { $($t)* } } w! { " + rd.s + " } }"
        else:
            rd.s = start + "{ macro_rules! w { (%s) => { %s } } w! { %s } }" % (
                " ; ".join("$h%d:%s" % (n, k) for n, (k, _x) in enumerate(h)), rd.s, " ; ".join(x for _k, x in h))
    rd.s += post
    rd.pos[call] = (0, 0)
    return rd.s, rd.pos


# ---------------------------------------------------------------- observing

def diag_lines(d, fname):
    """(line, column) pairs a rustc diagnostic points at, primary spans first."""
    out = []

    def walk(sp):
        while sp:
            if sp["file_name"] == fname:
                out.append((sp["line_start"], sp["column_start"] - 1))
            sp = (sp.get("expansion") or {}).get("span")
    for sp in sorted(d["spans"], key=lambda s: not s["is_primary"]):
        walk(sp)
    for ch in d.get("children", []):
        for sp in ch["spans"]:
            walk(sp)
    return out


class Observer:
    def __init__(self, kit, work, envs=PLAIN):
        self.kit = kit
        self.envs = envs
        self.work = work
        self.n = 0
        self.compiles = 0
        self.stop_at = None      # give up on the cases not observed by then

    def stopped(self):
        return self.stop_at is not None and time.time() > self.stop_at

    def env(self, i):
        """(edition, what comes before the calls) of call i"""
        return self.envs[i % len(self.envs)]

    def rustc(self, src, out, extra, timeout, edition="2021", cwd=None, more=None):
        self.compiles += 1
        cmd = ["rustc", "--edition", edition, src, "-o", out, "--error-format=json", "-C", "codegen-units=1",
               "-C", "debuginfo=0", "--cap-lints", "allow"] + self.kit["L"] + self.kit["ext"] + extra
        env = self.kit.get("env")
        return sh(cmd, timeout=timeout, cwd=cwd or self.work, env=dict(env or ENV, **more) if more else env, mem=MEM)

    def observe(self, cases, per=None):
        """cases: list of (id, toks, expected). Returns {id: obs}."""
        jobs = []
        groups = [([c for c in cases if (c[2] == "ok") == g and c[0] % len(self.envs) == v], per or 40 if g else 150)
                  for g in (True, False) for v in range(len(self.envs))]
        for group, size in groups:
            n = max(1, min(len(group), max(CPUS // len(self.envs), (len(group) + size - 1) // size))) if group else 0
            for k in range(n):
                jobs.append(group[k::n])
        res = {}
        jobs.sort(key=len, reverse=True)
        with ThreadPoolExecutor(CPUS) as ex:
            for r in ex.map(lambda j: self.batch(j), jobs):
                res.update(r)
        return res

    def batch(self, cases, timeout=240):
        if self.stopped():
            return {}
        res = {}
        pending = list(cases)
        rounds = 0
        while pending and not self.stopped():
            rounds += 1
            self.n += 1
            tag = "b%d_%d" % (self.n, pending[0][0])
            src = os.path.join(self.work, tag + ".rs")
            exe = os.path.join(self.work, tag)
            lines, poss, at = [], [], {}
            edition, head = self.env(pending[0][0])
            n = head.count("\n") + 1
            for k, (i, toks, e) in enumerate(pending):
                s, p = render_case(i, toks, 0, e == "ok", own=head is OWN)
                lines.append(s)
                poss.append(p)
                for o in range(s.count("\n") + 1):
                    at[n] = (k, o)
                    n += 1
            with open(src, "w") as f:
                f.write(head + "\n".join(lines) + "\nfn main() { " +
                        " ".join("c%d();" % c[0] for c in pending) + " }\n")
            t = min(timeout, 30 + sum(0.5 if c[2] == "ok" else 0.1 for c in pending))
            rc, out, err = self.rustc(src, exe, [], t, edition)
            bybad = {}
            loose = []
            ice = "internal compiler error" in err or (rc is not None and rc not in (0, 1))
            for l in err.splitlines():
                if not l.startswith("{"):
                    continue
                d = json.loads(l)
                if d.get("level") not in ("error", "error: internal compiler error"):
                    continue
                ls = [x for x in diag_lines(d, src) if x[0] in at]
                if not ls:
                    if d["spans"] or "aborting" not in d["message"]:
                        loose.append(d)
                    continue
                k, o = at[ls[0][0]]
                bybad.setdefault(k, []).append((d, (o, ls[0][1])))
            if rc == 0:
                res.update(self.execute(exe, pending))
                pending = []
            elif bybad and rc == 1 and not ice:
                for k, ds in bybad.items():
                    res[pending[k][0]] = self.failed(ds, poss[k])
                pending = [c for k, c in enumerate(pending) if k not in bybad]
            elif len(pending) == 1:
                if rc is None:      # alone, and with more time, before calling it a hang
                    rc, out, err = self.rustc(src, exe, [], 90, edition)
                if rc is None:
                    self.stop_at = min(self.stop_at or 1e18, time.time() + 60)
                    res[pending[0][0]] = dict(out="hang", why="no answer in 90s")
                elif rc not in (0, 1):
                    res[pending[0][0]] = dict(out="crash", why="rustc ended with %s: %s" % (rc, err[-600:]))
                elif rc == 0:
                    res.update(self.execute(exe, pending))
                else:
                    res[pending[0][0]] = dict(out="rustc", why="; ".join(d["message"] for d in loose)[:600] or err[-300:])
                pending = []
            else:
                h = len(pending) // 2
                t2 = (60 if h < 3 else 30) if rc is None else timeout
                res.update(self.batch(pending[:h], t2))
                res.update(self.batch(pending[h:], t2))
                pending = []
            for f in (src, exe):
                if os.path.exists(f):
                    os.remove(f)
        return res

    def repeat(self, cases, times):
        """Expands every call several times, in different compiler processes, in different company and
        order, and with different blanks; returns {id: [digest, ..]}."""
        size = 200
        n = max(CPUS, (len(cases) + size - 1) // size)
        jobs = []
        for r in range(times):
            rng = random.Random(r)
            cs = list(cases)
            if r == 1:
                cs.reverse()
            elif r > 1:
                rng.shuffle(cs)
            jobs += [(r, cs[k::n]) for k in range(n) if cs[k::n]]
        res = {}
        with ThreadPoolExecutor(CPUS) as ex:
            for got in ex.map(lambda j: self.expand(j[1], j[0]), jobs):
                for i, d in got.items():
                    res.setdefault(i, []).append(d)
        return res

    def expand(self, cases, r):
        self.n += 1
        src = os.path.join(self.work, "x%d_%d_%d.rs" % (self.n, r, cases[0][0]))
        # rustc's own complaints about damaged user code word line breaks differently
        rendered = [render_case(i, toks, r, lines=e == "ok") for i, toks, e in cases]
        at, n = {}, HEAD.count("\n") + 1
        for k, (s, _p) in enumerate(rendered):
            for o in range(s.count("\n") + 1):
                at[n] = (k, o)
                n += 1
        with open(src, "w") as f:
            f.write(HEAD + "\n".join(s for s, _p in rendered) + "\nfn main() {}\n")
        # another name of the crate, another directory, another environment
        where = os.path.join(self.work, "d%d" % r)
        os.makedirs(where, exist_ok=True)
        more = {} if r % 2 == 0 else dict(
            CARGO_PKG_NAME="p%d" % r, CARGO_CRATE_NAME="c%d" % r, CARGO_PKG_VERSION="%d.2.3" % r, CARGO_MANIFEST_DIR=where, PROFILE="release",
            OUT_DIR=where, CARGO_PRIMARY_PACKAGE="1", LANG="de_DE.UTF-8", TZ="Asia/Tokyo", RUST_BACKTRACE="1", LEPTOS_OUTPUT_NAME="out%d" % r, USER="u%d" % r)
        rc, out, err = self.rustc(src, src[:-3], ["-Zunpretty=expanded"] + (["--crate-name", "n%d" % r] if r else []) + (["--cfg", "debug", "-O"] if r == 3 else []),
                                  200, cwd=where, more=more)
        os.remove(src)
        if os.path.exists(src[:-3]):
            out = open(src[:-3], encoding="utf-8").read()
            os.remove(src[:-3])
        if rc not in (0, 1) or "fn main()" not in out:
            return {}
        diags = {}
        for l in err.splitlines():
            if l.startswith("{"):
                d = json.loads(l)
                ls = [x for x in diag_lines(d, src) if x[0] in at]
                if d.get("level") == "error" and ls:
                    k, o = at[ls[0][0]]
                    loc = rendered[k][1].get((o, ls[0][1]), (999999, o))
                    diags.setdefault(k, []).append("%s @%d.%d" % (d["message"], loc[0], loc[1]))
        parts = re.split(r"(?m)^fn c(\d+)\(\) \{$", out)
        text = {int(parts[j]): parts[j + 1][parts[j + 1].find("run("):parts[j + 1].index("\n}\n")] for j in range(1, len(parts) - 1, 2)}
        res = {}
        for k, (i, _t, _e) in enumerate(cases):
            if i in text:
                # the compiler copies comments into what it prints
                res[i] = [" ".join(text[i].replace(COMMENT, " ").split()), " | ".join(diags.get(k, []))]
        return res

    @staticmethod
    def failed(ds, pos):
        # rustc's own remark on several errors in expression position
        ds = [x for x in ds if "macro expansion ignores" not in x[0]["message"]] or ds
        msgs = [d["message"] for d, _c in ds]
        if any("proc macro panicked" in m or "custom attribute panicked" in m for m in msgs):
            why = [c["message"] for d, _ in ds for c in d.get("children", [])]
            return dict(out="panic", why="; ".join(why)[:400])
        macro = [(d, c) for d, c in ds if not d.get("code")]
        if not macro:
            return dict(out="rustc", why=" | ".join(msgs)[:600])
        locs = sorted({pos.get(c, (999999, c[1])) for _d, c in macro})
        return dict(out="err", locs=[list(x) for x in locs], why=" | ".join(d["message"] for d, _ in macro)[:600])

    def execute(self, exe, cases):
        res = {}
        rc, out, err = sh([exe], timeout=60, cwd=self.work)
        for l in out.splitlines():
            if not l.startswith("CASE "):
                continue
            _c, i, root, clog, rlog, html = l.split(" ", 5)
            i = int(i)
            if root == "panic":
                res[i] = dict(out="crash", why="the expansion panics at run time")
                continue
            html = re.sub(r"\\(.)", lambda m: "\n" if m.group(1) == "n" else m.group(1), html)
            try:
                dom = narrow_doc(parse_html(html))
            except ValueError as x:
                res[i] = dict(out="crash", why="malformed output: %s: %s" % (x, html[:300]))
                continue
            res[i] = dict(out="ok", root=root, clog=[] if clog == "-" else clog.split(","),
                          rlog=[] if rlog == "-" else rlog.split(","), dom=dom, html=html)
        for c in cases:
            if c[0] not in res:
                res[c[0]] = dict(out="crash", why="the program died (%s): %s" % (rc, err[-300:]))
        return res


# ---------------------------------------------------------------- HTML

VOID = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"}
ENT = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "#39": "'", "#x27": "'", "apos": "'", "nbsp": "\u00a0"}


def unescape(s):
    return re.sub(r"&(amp|lt|gt|quot|#39|#x27|apos|nbsp);", lambda m: ENT[m.group(1)], s)


def parse_html(h):
    root = []
    stack = [("", root)]
    i, n = 0, len(h)
    text_open = False

    def text(s):
        nonlocal text_open
        cur = stack[-1][1]
        if text_open and cur and cur[-1]["t"] == "tx":
            cur[-1]["s"] += s
        else:
            cur.append(dict(t="tx", s=s, ns="", at=[], cls=[], sty=[], ch=[]))
        text_open = True
    while i < n:
        if h.startswith("<!--", i):
            j = h.index("-->", i)
            i = j + 3
            text_open = False
        elif h.startswith("<!", i):
            j = h.index(">", i)
            i = j + 1
            text_open = False
        elif h.startswith("</", i):
            j = h.index(">", i)
            name = h[i + 2:j]
            if stack[-1][0] != name:
                raise ValueError("</%s> closes <%s>" % (name, stack[-1][0]))
            stack.pop()
            i = j + 1
            text_open = False
        elif h[i] == "<":
            text_open = False
            m = re.compile(r"<([^\s/>]+)").match(h, i)
            if not m:
                raise ValueError("bad tag")
            name = m.group(1)
            i = m.end()
            attrs = []
            while True:
                while i < n and h[i] in " \t\n":
                    i += 1
                if h[i] == ">":
                    i += 1
                    break
                if h.startswith("/>", i):
                    i += 2
                    break
                m = re.compile(r"[^\s=>]+").match(h, i)
                if not m:
                    raise ValueError("bad attribute in <%s>" % name)
                k = m.group(0)
                i = m.end()
                v = ""
                if i < n and h[i] == "=":
                    if h[i + 1] != '"':
                        raise ValueError("unquoted value")
                    j = h.index('"', i + 2)
                    v = unescape(h[i + 2:j])
                    i = j + 1
                attrs.append((k, v))
            node = dict(t="el", s=name, ns="", at=[], cls=[], sty=[], ch=[])
            for k in ("class", "style"):
                if sum(a == k for a, _ in attrs) > 1:
                    node["at"].append(["dup:", k])
            for k, v in attrs:
                if k == "class":
                    node["cls"] += v.split()
                elif k == "style":
                    node["sty"] += [x.strip() for x in v.split(";") if x.strip()]
                elif k == "ns:":
                    node["ns"] = v
                elif k == "p:":
                    for e in v.split("\u0001"):
                        if e:
                            a, b = e.split("=", 1)
                            node["at"].append(["p:" + a, b])
                else:
                    if k.startswith(("prop:", "on:")):
                        k = re.sub(r"%([0-9a-f]{2})", lambda m: chr(int(m.group(1), 16)), k)
                    node["at"].append([k, v])
            stack[-1][1].append(node)
            if name not in VOID:
                stack.append((name, node["ch"]))
        else:
            j = h.find("<", i)
            j = n if j < 0 else j
            text(unescape(h[i:j]))
            i = j
    if len(stack) != 1:
        raise ValueError("<%s> is not closed" % stack[-1][0])
    return root


def narrow_doc(ns):
    return [dict(t=n["t"], s=narrow(n["s"]), ns=n["ns"], at=[[narrow(k), narrow(v)] for k, v in n["at"]],
                 cls=[narrow(c) for c in n["cls"]], sty=[narrow(c) for c in n["sty"]], ch=narrow_doc(n["ch"])) for n in ns]


# ---------------------------------------------------------------- judging

BLANK = dict(out="", locs=[], root="", clog=[], rlog=[], dom=[], digs=[], first=False)


class Judge:
    def __init__(self, work, stable=False):
        self.stable = stable
        self.work = work
        self.states = self.trans = 0
        self.n = 0

    def judge(self, cases, obs, timeout=800):
        """cases: list of (id, toks, ..). Returns {id: verdict}; TLC decides."""
        k = max(1, min(CPUS, (len(cases) + 39) // 40))
        parts = [cases[i::k] for i in range(k)]
        out = {}
        with ThreadPoolExecutor(CPUS) as ex:
            for r in ex.map(lambda a: self._one(a[0], a[1], obs, timeout), enumerate(parts)):
                out.update(r)
        return out

    def _one(self, idx, cases, obs, timeout):
        self.n += 1
        d = os.path.join(self.work, "j%d_%d" % (self.n, idx))
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "t.ndjson")
        with open(f, "w") as fh:
            for c in cases:
                o = dict(BLANK)
                o.update({k: v for k, v in obs[c[0]].items() if k in BLANK})
                o["first"] = self.stable and in_expr(c[0])
                fh.write(json.dumps(dict(id=c[0], toks=c[1], obs=o)) + "\n")
        cfg = os.path.join(d, "t.cfg")
        open(cfg, "w").write(open(os.path.join(SPEC, "trace.cfg")).read().replace("@FILE@", f))
        rc, out, err = sh(tlc_cmd(cfg, os.path.join(SPEC, "MViewTrace.tla"), os.path.join(d, "m"),
                                  ["-workers", "1"]), timeout=timeout, cwd=SPEC)
        if rc is None:
            raise CheckError("TLC timed out judging traces")
        res = {}
        for l in out.splitlines():
            if l.startswith('"JUDGED '):
                v = json.loads(uns(l)[7:])
                res[v["id"]] = v
        if rc != 0 or len(res) != len(cases):
            i = max(out.find("Error:"), 0)
            raise CheckError("TLC judged %d of %d traces (rc %s)\n%s" % (len(res), len(cases), rc, out[i:i + 3000]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.trans += int(m[-1][0])
        self.states += int(m[-1][1])
        shutil.rmtree(d, ignore_errors=True)
        return res
