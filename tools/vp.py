#!/usr/bin/env python3
"""Driver of the contract checks.

usage: vp.py check <PROPERTY>          (tier from VERIF_TIER, seed from VERIF_SEED)
       vp.py case <harness> <case> [A|B|N]      (development)
       vp.py replay <replay-file>

For every case (one function under contract) it rebuilds the harness from
/repo's current sources, asks CBMC to discharge every generated obligation
(mode A: unbounded data / inductive loop contracts; mode B: the same contract
with stated bounds) and classifies the answer.  See DESIGN.md.
"""
import sys, os, re, json, threading, subprocess, tempfile, shutil, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))

GLIB_INC = ["-I/usr/include/glib-2.0", "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include"]
JOBS = int(os.environ.get("VP_JOBS", "8"))


def sh(cmd, timeout=None, cwd=None, env=None, mem_gb=None):
    pre = None
    if mem_gb:
        import resource
        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, cwd=cwd, env=env, preexec_fn=pre)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf-8", "replace")


# ----------------------------------------------------------------- sources
class Work:
    """scratch area of one run; regenerates the enum-type headers"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vp-")
        gen = os.path.join(self.dir, "gen")
        shutil.copytree(os.path.join(VERIF, "lib", "gen"), gen)
        self.gen = gen
        tmpl = os.path.join(REPO, "build", "enum-types-template.h")
        for lib, name in (("core", "milter-enum-types.h"), ("client", "milter-client-enum-types.h"),
                          ("server", "milter-server-enum-types.h"), ("manager", "milter-manager-enum-types.h")):
            hs = sorted(h for h in glob.glob(os.path.join(REPO, "milter", lib, "*.h"))
                        if not re.search(r"private|internal|enum-types", h))
            try:
                p = subprocess.run(["glib-mkenums", "--template", tmpl] + [os.path.basename(h) for h in hs],
                                   cwd=os.path.join(REPO, "milter", lib), stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, timeout=60)
                if p.returncode == 0 and b"_get_type" in p.stdout:
                    with open(os.path.join(gen, "milter", lib, name), "wb") as f:
                        f.write(p.stdout)
            except Exception:
                pass
        self.inc = ["-I" + os.path.join(VERIF, "lib"), "-I" + gen]
        for lib in ("core", "client", "server", "manager"):
            self.inc += ["-I" + os.path.join(gen, "milter", lib)]
        self.inc += ["-I" + REPO]
        for lib in ("core", "client", "server", "manager"):
            self.inc += ["-I" + os.path.join(REPO, "milter", lib)]
        self.inc += GLIB_INC
        enums = set()
        for h in glob.glob(os.path.join(gen, "milter", "*", "*enum-types.h")):
            enums |= set(re.findall(r"GType\s+(\w+_get_type)", open(h).read()))
        self.enums = enums
        self.no_hook = {}       # harness: loops its hooks were not found for

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def read_header(harness, mode):
    """the real sources linked with the harness in this mode"""
    src = open(os.path.join(VERIF, "harness", harness + ".c")).read()
    m = re.search(r"/\* TUS-%s: (.*?) \*/" % mode, src, re.S) or re.search(r"/\* TUS: (.*?) \*/", src, re.S)
    return m.group(1).split() if m else []


def read_cuts(harness):
    """/* CUT: <file> <function> <loop number> */ lines of a harness"""
    src = open(os.path.join(VERIF, "harness", harness + ".c")).read()
    return [(f, fn, int(n)) for f, fn, n in re.findall(r"/\* CUT: (\S+) (\w+) (\d+) \*/", src)]


def blank(src):
    """comments, strings and character constants replaced by blanks"""
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'',
                  lambda m: re.sub(r"[^\n]", " ", m.group(0)), src, flags=re.S)


def hook_names(harness):
    """function -> the variables its loop hooks mention (harness/<h>.cut.h)"""
    p, names = os.path.join(VERIF, "harness", harness + ".cut.h"), {}
    if os.path.exists(p):
        for fn, x in re.findall(r"^#[ \t]*define[ \t]+VP_CUT_(\w+)_\d+[ \t]+(.*)$", open(p).read(), re.M):
            ids = re.findall(r"(?<![\w.>])([a-z]\w*)\b(?!\s*\()", x)
            names.setdefault(fn, set()).update(
                i for i in ids if not i.startswith("vp_") and i not in
                ("void", "int", "char", "const", "gint", "guint", "gchar", "gsize", "gssize", "gpointer", "gconstpointer", "gboolean"))
    return names


def cut_source(src, cuts, names={}):
    """inject the loop-invariant hooks: VP_CUT_<function>_<n> is evaluated
    before every evaluation of the condition of the n-th loop of the function.
    Nothing else of the text changes."""
    ins, missing = [], []
    b = blank(src)
    for fn, n in cuts:
        m = re.search(r"^(?:[\w \t\*]*[ \t\*])?%s[ \t]*\([^;{]*?\)\s*\{" % fn, b, re.M)
        if not m:
            missing.append(fn)
            continue
        start = m.end()
        depth, i = 1, start
        while depth:
            depth += {"{": 1, "}": -1}.get(b[i], 0)
            i += 1
        end = i
        if not all(re.search(r"\b%s\b" % v, b[m.start():end]) for v in names.get(fn, ())):
            missing.append(fn)          # a variable of the hook is none any more
            continue
        loops = [x for x in re.finditer(r"\b(while|for)\s*\(", b[start:end])]
        if n >= len(loops):
            missing.append(fn)
            continue
        x = loops[n]
        k = start + x.end()
        if x.group(1) == "for":
            d = 0
            while not (b[k] == ";" and d == 0):
                d += {"(": 1, ")": -1}.get(b[k], 0)
                k += 1
            k += 1
            rest = b[k:b.index(";", k)].strip()
        else:
            rest = "x"
        ins.append((start, " int vp_ph%d = 0; " % n))
        ins.append((k, " VP_CUT_%s_%d, %s" % (fn, n, "" if rest else "1 ")))
    for pos, t in sorted(ins, reverse=True):
        src = src[:pos] + t + src[pos:]
    return src, missing


def make_cuts(work, harness):
    cuts = read_cuts(harness)
    if not cuts:
        return None
    d = os.path.join(work.dir, "cut." + harness)
    for f in sorted(set(c[0] for c in cuts)):
        out = os.path.join(d, f)
        if os.path.exists(out):
            continue
        src, missing = cut_source(open(os.path.join(REPO, f)).read(), [(fn, n) for g, fn, n in cuts if g == f], hook_names(harness))
        if missing:             # a proof without the hook counts, a failure does not (run_mode)
            work.no_hook[harness] = "loop hook: no such loop (or variable) in %s: %s" % (f, " ".join(missing))
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = "%s.%d" % (out, threading.get_ident())
        with open(tmp, "w") as o:
            o.write('# 1 "%s"\n' % os.path.join(REPO, f) + src)
        os.replace(tmp, out)
    return d


# environment functions whose result or effect is irrelevant to every contract
# (diagnostics, property registration); calls to any other function without a
# body make the run inconclusive instead of a verdict
BENIGN = re.compile(r"^(g_param_spec_\w+|g_object_class_\w+|g_log|g_logv|milter_logger\w*|g_value_\w+|"
                    r"g_signal_connect\w*|g_signal_handler\w*|g_timer_\w+|milter_event_loop_\w+|"
                    r"g_quark_to_string|g_strerror|g_print\w*|nondet_\w+|g_warn\w*|__CPROVER\w*|"
                    r"g_enum_get_value\w*|g_flags_get_\w+|milter_utils_get_enum_nick_name|"
                    r"milter_utils_inspect_\w+|g_type_class_ref|g_type_class_unref|__atomic\w*|"
                    r"milter_utils_inspect\w*|g_free_sized)$")


class Case:
    def __init__(self, harness, name, modes, **kw):
        self.h, self.macro, self.modes, self.kw = harness, name, modes, kw
        self.name = kw.get("alias", name)

    @property
    def id(self):
        return self.h + ":" + self.name


def goto_build(work, case, mode, mopts, tag):
    out = os.path.join(work.dir, "%s.%s.%s.gb" % (case.h, case.name, tag))
    defs = ["-DVP_" + mode, "-DCASE_" + case.macro] + case.kw.get("defs", []) + mopts.get("defs", [])
    mopts = dict(mopts)
    pre = ["-include", os.path.join(VERIF, "lib", "vp_prelude.h")]
    if mode == "A" and not mopts.get("no_cut"):
        try:
            mopts["tu_dir"] = make_cuts(work, case.h)
        except Exception as e:
            return None, "loop hook: " + str(e)
        if mopts["tu_dir"]:
            pre += ["-include", os.path.join(VERIF, "harness", case.h + ".cut.h")]
    tus = [t if mopts.get("tu_dir") is None or not os.path.exists(os.path.join(mopts["tu_dir"], t))
           else os.path.join(mopts["tu_dir"], t) for t in read_header(case.h, mode)]
    tus = [t if os.path.isabs(t) else os.path.join(REPO, t) for t in tus]
    inc = (["-I" + mopts["tu_dir"]] if mopts.get("tu_dir") else []) + work.inc
    tmp = out + ".1"
    rc, o = sh(["goto-cc"] + defs + inc + pre + ["-w", "--function", "vp_main", "-o", tmp,
               os.path.join(VERIF, "harness", case.h + ".c")] + tus, timeout=180)
    if rc != 0:
        return None, o
    rc, o = sh(["goto-instrument", "--list-undefined-functions", tmp], timeout=60)
    stubs = []
    i = 0
    for f in sorted(set(o.split())):
        if f.endswith("_get_type") and re.match(r"^[a-z]\w+$", f):
            if f in work.enums:
                base = "G_TYPE_FLAGS" if "flags" in f else "G_TYPE_ENUM"
            else:
                base = "G_TYPE_OBJECT"
            stubs.append("GType %s(void) { static GType t; if (!t) t = vp_extern_type(%s, %d); return t; }" % (f, base, i))
            i += 1
    sc = out + ".stubs.c"
    with open(sc, "w") as f:
        f.write("#include <glib-object.h>\nGType vp_extern_type(GType base, int i);\n" + "\n".join(stubs) + "\n")
    rc, o = sh(["goto-cc"] + GLIB_INC + ["-w", "--function", "vp_main", "-o", out, tmp, sc], timeout=180)
    os.unlink(tmp)
    if rc != 0:
        return None, o
    if mode == "A" and case.kw.get("drop"):
        # functions the case must not reach: their bodies are removed and every
        # call to them becomes an obligation of its own (unreachable)
        rc, o = sh(["goto-instrument", "--list-goto-functions", out], timeout=60)
        have = set(re.findall(r"[\w$]+", o))
        args = [x for f in case.kw["drop"].split() if f in have for x in ("--remove-function-body", f)]
        if args:
            rc, o = sh(["goto-instrument"] + args + [out, out + ".r"], timeout=120)
            if rc == 0:
                os.replace(out + ".r", out)
    if mode == "A" and case.kw.get("calls"):
        # a call to a function whose contract is discharged in another case is
        # a call to that contract
        rc, o = sh(["goto-instrument", "--list-goto-functions", out], timeout=60)
        have = set(re.findall(r"[\w$]+", o))
        args = [x for f in case.kw["calls"].split() if f.split(":")[0] in have and f.split(":")[1] in have
                for x in ("--replace-calls", f)]
        if args:
            rc, o = sh(["goto-instrument"] + args + [out, out + ".r"], timeout=120)
            if rc != 0:
                return None, o
            os.replace(out + ".r", out)
    rc, o = sh(["goto-instrument", "--drop-unused-functions", out, out + ".d"], timeout=120)
    if rc == 0:
        os.replace(out + ".d", out)
    if mopts.get("loop_contracts"):
        out2 = out + ".lc"
        rc, o = sh(["goto-instrument", "--dfcc", "vp_main", "--apply-loop-contracts", "--no-malloc-may-fail", out, out2], timeout=300)
        if rc != 0:
            return None, o
        out = out2
    return out, ""


CBMC_FLAGS = ["--no-malloc-may-fail", "--pointer-check", "--bounds-check", "--div-by-zero-check",
              "--unwinding-assertions", "--drop-unused-functions", "--slice-formula",
              "--sat-solver", "cadical"]


def model_loops(gb):
    """loops of the trusted models and the harness (not of /repo)"""
    rc, o = sh(["goto-instrument", "--show-loops", gb], timeout=60)
    out = []
    for m in re.finditer(r"Loop (\S+):\n\s+file (\S+) line", o):
        if not os.path.abspath(m.group(2)).startswith(REPO + "/"):
            out.append(m.group(1))
    return out


def cbmc(gb, mopts, timeout, extra=()):
    cmd = ["cbmc", gb] + CBMC_FLAGS + ["--unwind", str(mopts.get("unwind", 12))]
    us = ["%s:%d" % (l, mopts.get("model_unwind", 70)) for l in model_loops(gb)]
    if us:
        cmd += ["--unwindset", ",".join(us)]
    if mopts.get("unwindset"):
        cmd += ["--unwindset", mopts["unwindset"]]
    cmd += mopts.get("flags", []) + list(extra) + ["--json-ui", "--verbosity", "8"]
    t0 = time.time()
    rc, o = sh(cmd, timeout=timeout, mem_gb=mopts.get("mem_gb", 12))
    return rc, o, time.time() - t0, re.sub(r"--unwindset \S{200,}", "--unwindset <model loops>", " ".join(c if c != gb else "<goto-binary>" for c in cmd))


def parse_json(o):
    try:
        return json.loads(o)
    except Exception:
        pass
    # truncated output
    try:
        return json.loads(o[:o.rindex("\n},") + 2] + "]")
    except Exception:
        return None


class ModeResult:
    def __init__(self):
        self.status = "error"       # clean | fail | inconclusive | error | timeout
        self.note = ""
        self.obl = []               # (name, desc, status, where)
        self.fail = []
        self.soft = []
        self.reach_ok = self.reach_bad = 0
        self.vacuous = []
        self.nobody = []
        self.solver_s = 0.0
        self.wall = 0.0
        self.cmd = ""
        self.gb = None


DEADLINE = [None]


def left():
    return 1e9 if DEADLINE[0] is None else DEADLINE[0] - time.time()


def run_mode(work, case, mode, tier):
    r = ModeResult()
    if left() < 5:
        r.status, r.note = "timeout", "time budget of the check used up"
        return r
    mopts = dict(case.modes[mode])
    if tier == "thorough":
        mopts.update(case.modes.get(mode + "+", {}))
    gb, err = goto_build(work, case, mode, mopts, mode)
    if gb is None:
        r.status, r.note = "error", "build failed: " + err.strip()[-600:]
        return r
    r.gb = gb
    to = max(1, min(mopts.get("timeout", 240 if tier == "quick" else 1200), left()))
    rc, o, r.wall, r.cmd = cbmc(gb, mopts, to)
    if rc == 124:
        r.status, r.note = "timeout", "solver time limit %ds" % to
        return r
    js = parse_json(o)
    if js is None or rc not in (0, 10):
        r.status, r.note = "error", "cbmc rc=%d: %s" % (rc, o.strip()[-500:])
        return r
    for it in js:
        if not isinstance(it, dict):
            continue
        if "messageText" in it:
            t = it["messageText"]
            m = re.match(r"Runtime (Solver|decision procedure): ([\d.e+-]+)s", t)
            if m and m.group(1) == "Solver":
                r.solver_s += float(m.group(2))
            m = re.search(r"no body for (?:callee|function) (\S+)", t)
            if m:
                f = m.group(1).split("::")[-1]
                if not BENIGN.match(f) and f not in case.kw.get("benign", ()):
                    r.nobody.append(f)
        for p in it.get("result", []) if isinstance(it.get("result"), list) else []:
            d, st = p.get("description", ""), p.get("status", "")
            sl = p.get("sourceLocation", {})
            where = "%s:%s %s" % (os.path.relpath(sl.get("file", "?"), REPO) if sl.get("file", "").startswith(REPO) else os.path.basename(sl.get("file", "?")),
                                  sl.get("line", "?"), sl.get("function", ""))
            e = (p["property"], d, st, where)
            m = re.match(r"no body for (?:callee|function) (\S+)", d)
            if m:
                f = m.group(1).split("::")[-1]
                if st != "SUCCESS" and not BENIGN.match(f) and f not in case.kw.get("benign", ()):
                    r.nobody.append(f)
                continue
            if d.startswith("REACH "):
                if st == "FAILURE":
                    r.reach_ok += 1
                else:
                    r.reach_bad += 1
                    r.vacuous.append(d[6:])
                continue
            if d.startswith("INAPPLICABLE") or d.startswith("BOUND ") or "unwinding assertion" in d or d.startswith("model:") or d.startswith("VP model:"):
                if st != "SUCCESS":
                    r.soft.append(e)
                continue
            r.obl.append(e)
            if st == "FAILURE":
                r.fail.append(e)
            elif st != "SUCCESS":
                r.soft.append(e)
    r.nobody = sorted(set(r.nobody))
    if mode == "A" and mopts.get("loop_contracts") and r.fail:
        # inductiveness is a property of the proof, not of the program
        inv = [e for e in r.fail if re.search(r"loop invariant|loop assigns|decreases|assigns clause|is assignable|is valid", e[1])]
        if inv:
            r.soft += inv
            r.fail = [e for e in r.fail if e not in inv]
            if r.fail:
                r.soft += r.fail
                r.fail = []
    if r.fail and not r.nobody:
        r.status = "fail"
    elif r.fail or r.nobody:
        r.status, r.note = "inconclusive", "unmodelled functions: " + " ".join(r.nobody)
    elif r.soft:
        r.status, r.note = "inconclusive", "; ".join("%s (%s)" % (e[1], e[3]) for e in r.soft[:4])
    elif r.vacuous:
        r.status, r.note = "vacuous", "unreachable: " + "; ".join(r.vacuous)
    elif not r.obl or not r.reach_ok:
        r.status, r.note = "vacuous", "no obligations generated"
    else:
        r.status = "clean"
    if mode == "A" and r.status != "clean" and case.h in work.no_hook:
        # the invariant of a loop could not be put in place: nothing is known
        r.status, r.note = "inconclusive", work.no_hook[case.h]
    return r


# ------------------------------------------------------------------ replay
def get_trace(gb, mopts, prop, timeout):
    rc, o, _, _ = cbmc(gb, mopts, timeout, ["--trace", "--property", prop])
    js = parse_json(o)
    inputs, lines = [], []
    if js is None:
        return None, o[-2000:]
    for it in js:
        if not isinstance(it, dict):
            continue
        for p in it.get("result", []) if isinstance(it.get("result"), list) else []:
            if p.get("property") != prop or "trace" not in p:
                continue
            for s in p["trace"]:
                k = s.get("stepType")
                if k == "input":
                    v = s["values"][0] if s.get("values") else {}
                    inputs.append((s.get("inputID"), to_uint(v)))
                elif k == "assignment" and not s.get("hidden") and s.get("assignmentType") == "variable":
                    v = s.get("value", {})
                    if "data" in v:
                        lines.append("%s:%s %s = %s" % (s.get("sourceLocation", {}).get("function", ""),
                                                        s.get("sourceLocation", {}).get("line", ""), s.get("lhs"), v["data"]))
                elif k == "failure":
                    lines.append("FAILED: " + s.get("reason", "") + " at %s" % json.dumps(s.get("sourceLocation", {})))
    return inputs, lines


def to_uint(v):
    b = v.get("binary")
    if b and re.match(r"^[01]+$", b):
        return int(b, 2)
    d = str(v.get("data", "0"))
    m = re.match(r"^-?\d+", d)
    return int(m.group(0)) & (2**64 - 1) if m else 0


def native_build(work, case, mode="B"):
    out = os.path.join(work.dir, "%s.%s.native" % (case.h, case.name))
    if os.path.exists(out):
        return out, ""
    mopts = case.modes.get(mode) or {"defs": case.kw.get("native_defs", [])}
    defs = ["-DVP_N", "-DCASE_" + case.macro] + case.kw.get("defs", []) + mopts.get("defs", [])
    tus = [os.path.join(REPO, t) for t in read_header(case.h, "N")]
    pre = ["-include", os.path.join(VERIF, "lib", "vp_prelude.h")]
    objs = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr", "-g", "-O0", "-w", "-std=gnu11"]
    stubs = out + ".stubs.c"
    open(stubs, "w").write("#include <glib-object.h>\n")
    base = ["gcc", "-fno-builtin"] + objs + defs + work.inc
    ofiles = []
    for i, s in enumerate([os.path.join(VERIF, "harness", case.h + ".c")] + tus + [os.path.join(VERIF, "lib", "vp_native.c")]):
        of = "%s.%d.o" % (out, i)
        rc, o = sh(base + pre + ["-c", s, "-o", of], timeout=180)
        if rc:
            return None, o
        ofiles.append(of)
    rc, o = sh(["sh", "-c", "nm -u " + " ".join(ofiles) + " | awk '/ U /{print $2}' | sort -u; echo ==; nm --defined-only " + " ".join(ofiles) + " | awk '{print $3}'"], timeout=60)
    und, dfn = o.split("==")
    dfn = set(dfn.split())
    i = 0
    lines = ["#include <glib-object.h>", "GType vp_extern_type(GType base, int i);"]
    missing = []
    for f in und.split():
        if f in dfn:
            continue
        if f.endswith("_get_type") and re.match(r"^[a-z]\w+$", f):
            b = ("G_TYPE_FLAGS" if "flags" in f else "G_TYPE_ENUM") if f in work.enums else "G_TYPE_OBJECT"
            lines.append("GType %s(void) { static GType t; if (!t) t = vp_extern_type(%s, %d); return t; }" % (f, b, i))
            i += 1
        else:
            missing.append(f)
    open(stubs, "w").write("\n".join(lines) + "\n")
    link = base + ["-o", out] + ofiles + [stubs, "-lglib-2.0", "-lm"]
    rc, o = sh(link, timeout=180)
    if rc != 0:
        und = sorted(set(re.findall(r"undefined reference to `(\w+)'", o)))
        stubs2 = out + ".stubs2.c"
        link.append(stubs2)
        with open(stubs2, "w") as f:
            f.write("int printf(const char *, ...); int fflush(void *); void _exit(int);\n")
            for u in und:
                if BENIGN.match(u) or u in case.kw.get("benign", ()):
                    f.write("long %s() { return 0; }\n" % u)
                else:
                    f.write('void %s() { printf("VP-UNMODELLED %s\\n"); fflush(0); _exit(79); }\n' % (u, u))
        rc, o = sh(link, timeout=180)
    for f in ofiles:
        os.unlink(f)
    return (out, "") if rc == 0 else (None, o)


NENV = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
            UBSAN_OPTIONS="halt_on_error=1:exitcode=98", LC_ALL="C", G_DEBUG="")


def native_run(exe, args, timeout=60):
    rc, o = sh([exe] + args, timeout=timeout, env=NENV)
    return rc, o


def native_verdict(rc, o):
    """confirmed / clean / unusable"""
    if rc == 1 and "VP-FAIL" in o:
        if "VP-FAIL model:" in o:
            return "unusable"
        return "confirmed"
    if rc in (99, 98) or rc < 0 or rc in (134, 139):
        if re.search(r"symbol lookup error|pc points to the zero page|address 0x0+ .*\n.*T0\)\n.*#0 0x0+ ", o):
            return "unusable"
        return "confirmed"
    if rc == 0:
        return "clean"
    return "unusable"


def replay(work, case, mode, r, fails, outfile, prop):
    """counterexample of the first failing obligations -> native run"""
    mopts = dict(case.modes[mode])
    best = None
    exe, nerr = native_build(work, case)
    for e in fails[:3]:
        inputs, lines = get_trace(r.gb, mopts, e[0], mopts.get("timeout", 240))
        if inputs is None:
            continue
        rec = {"property": prop, "harness": case.h, "case": case.name, "mode": mode,
               "obligation": e[1], "obligation_id": e[0], "where": e[3],
               "inputs": inputs, "trace": lines[-400:] if isinstance(lines, list) else lines,
               "checker_cmd": r.cmd, "confirmed": False,
               "all_failed": [list(x) for x in fails[:30]]}
        if exe and mode == "B":
            inf = os.path.join(work.dir, "inputs.%s.%s" % (case.h, case.name))
            with open(inf, "w") as f:
                for k, v in inputs:
                    if k and k.startswith("vp_"):
                        f.write("%s %d\n" % (k, v))
            rc, o = native_run(exe, [inf])
            rec["native_rc"], rec["native_output"] = rc, o[-4000:]
            rec["confirmed"] = native_verdict(rc, o) == "confirmed"
        else:
            rec["native_output"] = nerr[-1500:] if not exe else "unbounded counterexample: not executable as such"
        if best is None or rec["confirmed"]:
            best = rec
        if rec["confirmed"]:
            break
    if best is None:
        best = {"property": prop, "harness": case.h, "case": case.name, "mode": mode,
                "obligation": fails[0][1], "obligation_id": fails[0][0], "where": fails[0][3],
                "confirmed": False, "all_failed": [list(x) for x in fails[:30]]}
    os.makedirs(os.path.dirname(outfile), exist_ok=True)
    with open(outfile, "w") as f:
        json.dump(best, f, indent=1)
    return best


# ------------------------------------------------------------------- check
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def native_batch(work, case, prop, tier, out, res, note=None):
    """evaluate the contract on sampled inputs, natively, with the real GLib;
    true when some input breaks it"""
    exe, err = native_build(work, case)
    if not exe:
        res["native_error"] = err[-600:]
        return False
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    batch = 4000 if tier == "quick" else 30000
    rc, o = native_run(exe, ["random", str(seed * 1000003), str(batch)], timeout=max(5, min(90, left())))
    m = re.search(r"VP-BATCH runs=(\d+) accepted=(\d+) seed=(\d+)", o)
    if not m:
        return False
    res["native_runs"], res["native_accepted"] = int(m.group(1)), int(m.group(2))
    if m.group(3) == "0":
        return False
    rc, o = native_run(exe, ["random", m.group(3)], timeout=20)
    if native_verdict(rc, o) != "confirmed":
        return False
    os.makedirs(os.path.dirname(out), exist_ok=True)
    mm = re.search(r"VP-FAIL (.*)", o) or re.search(r"(ERROR: AddressSanitizer.*|runtime error: .*)", o)
    ob = mm.group(1) if mm else "memory safety"
    json.dump({"property": prop, "harness": case.h, "case": case.name, "mode": "N",
               "native_args": ["random", m.group(3)], "obligation": ob,
               "failed_obligations": [list(e) for e in (note or [])[:30]],
               "native_output": o[-4000:], "confirmed": True}, open(out, "w"), indent=1)
    res.update(verdict="violation", replay=out, confirmed=True,
               failed=(note or [("native", "VP " + ob, "FAILURE", case.id)]))
    return True


def decide(work, case, prop, tier):
    """-> dict(verdict=proved|bounded|violation|undecided, ...)"""
    res = {"case": case.id, "modes": {}, "verdict": "undecided", "functions": case.kw.get("funcs", [case.name])}
    out = os.path.join(VERIF, "evidence", "replay", "%s-%s-%s.json" % (prop, case.h, case.name))
    native = case.kw.get("native", True)
    A = B = None
    if "A" in case.modes:
        A = run_mode(work, case, "A", tier)
        res["modes"]["A"] = A
        if A.status == "clean":
            res["verdict"] = "bounded" if case.kw.get("a_bound") else "proved"
            if tier != "thorough":
                return res
        # look for a concrete failing input first
        if A.status == "fail" and native and native_batch(work, case, prop, tier, out, res, A.fail):
            return res
    if "B" in case.modes:
        B = run_mode(work, case, "B", tier)
        res["modes"]["B"] = B
        if B.status == "fail":
            rec = replay(work, case, "B", B, B.fail, out, prop)
            res.update(verdict="violation", replay=out, confirmed=rec["confirmed"], failed=B.fail)
            if not rec["confirmed"] and native:
                native_batch(work, case, prop, tier, out, res, B.fail)
            return res
    if A is not None and A.status == "fail":
        replay(work, case, "A", A, A.fail, out, prop)
        res.update(verdict="violation", replay=out, confirmed=False, failed=A.fail)
        return res
    if native and (tier == "thorough" or res["verdict"] == "undecided"):
        # also the last resort when a change uses something outside the models:
        # the same contract on sampled inputs (bounded stand-in, never proof)
        if native_batch(work, case, prop, tier, out, res):
            return res
    if res["verdict"] == "undecided" and B is not None and B.status == "clean":
        res["verdict"] = "bounded"
    return res


def check(prop):
    import properties_table as T
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cases = T.cases(prop)
    DEADLINE[0] = t0 + (800 if tier == "quick" else 6000)
    known = load_known()
    work = Work()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for f in glob.glob(os.path.join(VERIF, "evidence", "replay", prop + "-*.json")):
        os.unlink(f)
    try:
        order = sorted(cases, key=lambda c: -c.kw.get("cost", 1))
        with ThreadPoolExecutor(JOBS) as ex:
            results = dict(zip([c.id for c in order], ex.map(lambda c: decide(work, c, prop, tier), order)))
    finally:
        work.close()
    viol = findings = 0
    obligations = discharged = 0
    proved, bounded, undecided, samples = [], [], [], []
    solver = 0.0
    checker = ""
    nobl_b = 0
    for c in cases:
        r = results[c.id]
        for m, mr in r["modes"].items():
            solver += mr.solver_s
            checker = checker or mr.cmd
        A, B = r["modes"].get("A"), r["modes"].get("B")
        if r["verdict"] == "violation":
            match = None
            for k in known.get("findings", []):
                if k["property"] == prop and k["case"] == c.id and all(re.search(k["obligation"], e[1] + " @ " + e[3]) for e in r["failed"]):
                    match = k
            if match:
                findings += 1
                print("KNOWN-FINDING: property=%s %s" % (prop, match["what"]))
            else:
                viol += 1
                print("failed obligation: %s" % "; ".join("%s [%s]" % (e[1], e[3]) for e in r["failed"][:4]))
                print("VIOLATION property=%s replay=%s%s" % (prop, r["replay"], "" if r["confirmed"] else " no-failing-input-found"))
        elif r["verdict"] == "proved":
            proved.append(c.id)
            obligations += len(A.obl); discharged += sum(1 for e in A.obl if e[2] == "SUCCESS")
            if len(samples) < 12:
                samples += [{"case": c.id, "obligation": e[1], "at": e[3]} for e in A.obl if e[1].startswith("VP ")][:2]
        elif r["verdict"] == "bounded":
            if c.kw.get("a_bound") and (B is None or A.status == "clean"):
                B = A
            bounded.append({"case": c.id, "bound": c.kw.get("a_bound") or c.kw.get("bound") or "unwind %s" % c.modes["B"].get("unwind", 12),
                            "obligations": len(B.obl), "why_not_proved": (A.note if A is not None and A.note else "bounded by construction")})
            nobl_b += len(B.obl)
            if len(samples) < 12:
                samples += [{"case": c.id, "obligation": e[1], "at": e[3], "bounded": True} for e in B.obl if e[1].startswith("VP ")][:1]
        else:
            undecided.append({"case": c.id, "why": {m: (mr.status + ": " + mr.note)[:400] for m, mr in r["modes"].items()},
                              "native_runs": r.get("native_runs", 0), "native_accepted": r.get("native_accepted", 0),
                              "native_error": r.get("native_error", "")})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {
              "obligations": obligations, "discharged": discharged, "checker_cmd": checker,
              "trusted_base": T.trusted_base(prop),
              "back_end": "cbmc 6.11.0, SAT (CaDiCaL) with the array theory",
              "functions_under_contract": T.functions(prop),
              "cases_proved": proved,
              "cases_bounded_not_counted_as_proved": bounded, "obligations_bounded": nobl_b,
              "cases_undecided": undecided, "solver_seconds": round(solver, 2),
              "violations": viol, "known_findings": findings, "samples": samples},
          "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d proved (%d/%d obligations), %d bounded, %d undecided, %d violations, %d known findings, %.1fs (solver %.1fs)" % (
        prop, len(cases), len(proved), discharged, obligations, len(bounded), len(undecided), viol, findings, ev["wall_s"], solver))
    for u in undecided:
        print("UNDECIDED %s: %s" % (u["case"], json.dumps(u["why"])))
    if viol:
        return 1
    vac = [u for u in undecided if any(w.startswith("vacuous") for w in u["why"].values())]
    if vac or (obligations + nobl_b + findings == 0 and not any(r.get("native_accepted") for r in results.values())):
        print("ERROR: vacuous or empty run")
        return 2
    return 0


def dev_case(h, name, mode):
    import properties_table as T
    c = next(c for c in T.all_cases() if c.h == h and c.name == name)
    work = Work()
    try:
        if mode == "N":
            exe, err = native_build(work, c)
            if not exe:
                print(err); return 1
            rc, o = native_run(exe, ["random", "1", os.environ.get("NRUNS", "2000")], timeout=200)
            m = re.search(r"VP-BATCH .*seed=(\d+)", o)
            print(h, name, "N", m.group(0) if m else o[-2000:])
            if m and m.group(1) != "0":
                rc, o = native_run(exe, ["random", m.group(1)])
                print(rc, o[-3000:])
            elif m and "accepted=0" in m.group(0):
                rc, o = native_run(exe, ["random", "1"])
                print(rc, o[-3000:])
            return 0
        if mode == "D":
            r = decide(work, c, "DEV", os.environ.get("VERIF_TIER", "quick"))
            print(r["verdict"], {m: (x.status, x.note, len(x.obl), round(x.wall, 1)) for m, x in r["modes"].items()}, r.get("confirmed"))
            for e in r.get("failed", [])[:10]: print("   FAIL", e)
            return 0
        r = run_mode(work, c, mode, os.environ.get("VERIF_TIER", "quick"))
        print(h, name, mode, r.status, r.note, "obl=%d reach=%d/%d wall=%.1f solver=%.1f" % (len(r.obl), r.reach_ok, r.reach_ok + r.reach_bad, r.wall, r.solver_s))
        for e in r.fail[:12]: print("   FAIL", e)
        for e in sorted(r.soft, key=lambda e: e[2])[:3]: print("   soft", e)
        print("   nobody", r.nobody, "vacuous", r.vacuous)
        if (r.fail or r.soft) and os.environ.get("TRACE"):
            i, l = get_trace(r.gb, dict(c.modes[mode]), (r.fail or sorted(r.soft, key=lambda e: e[2]))[0][0], 600)
            print(i); print("\n".join(l[-int(os.environ["TRACE"]):]) if isinstance(l, list) else l)
    finally:
        work.close()


def do_replay(path):
    rec = json.load(open(path))
    print(json.dumps({k: rec[k] for k in rec if k not in ("trace",)}, indent=1)[:6000])
    import properties_table as T
    c = next(c for c in T.all_cases() if c.h == rec["harness"] and c.name == rec["case"])
    work = Work()
    try:
        exe, err = native_build(work, c)
        if not exe:
            print(err); return 2
        if rec.get("native_args"):
            args = rec["native_args"]
        else:
            inf = os.path.join(work.dir, "in")
            open(inf, "w").write("".join("%s %d\n" % (k, v) for k, v in rec.get("inputs", []) if k and k.startswith("vp_")))
            args = [inf]
        rc, o = native_run(exe, args)
        print(o[-4000:]); print("native verdict:", native_verdict(rc, o))
    finally:
        work.close()
    return 0


def setup():
    for t in ("goto-cc", "goto-instrument", "cbmc", "gcc", "glib-mkenums"):
        if shutil.which(t) is None:
            print("missing tool: " + t)
            return 1
    w = Work()
    w.close()
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "setup":
        sys.exit(setup())
    if sys.argv[1] == "check":
        sys.exit(check(sys.argv[2]))
    if sys.argv[1] == "case":
        sys.exit(dev_case(sys.argv[2], sys.argv[3], sys.argv[4] if len(sys.argv) > 4 else "D") or 0)
    if sys.argv[1] == "replay":
        sys.exit(do_replay(sys.argv[2]))
