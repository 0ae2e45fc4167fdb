#!/usr/bin/env python3
"""Mutation campaign: small random changes of the library that the existing
tests do not notice, run against all checks at a small budget (development aid).

  mutate.py OUT.jsonl SEED COUNT [code|defs]      uses copies under /tmp only
"""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLANT_REPO", "/repo")
CODE = ["nmeareader.py", "nmeamessage.py", "socketwrapper.py", "nmeahelpers.py"]
DEFS = ["nmeatypes_get.py", "nmeatypes_get_prop.py", "nmeatypes_poll.py", "nmeatypes_poll_prop.py", "nmeatypes_set.py", "nmeatypes_set_prop.py"]
HELP = {"get_parts", "calc_checksum", "generate_checksum", "dmm2ddd", "date2utc", "time2utc", "ddd2dmm", "date2str", "time2str",
        "leapsecond", "utc2wnotow", "wnotow2utc", "time2utc", "get_gpswnotow", "format_dict"}
RUNS = {"C10": 150, "C17": 120, "C09": 250, "C11": 250, "C13": 500, "C14": 1500}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Mod: "//", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|", ast.Div: "*"}


def seg(src, node):
    return ast.get_source_segment(src, node)


def mutants(src, names=None):
    """[(start offset, end offset, new text, what)]"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for x in lines:
        offs.append(offs[-1] + len(x))

    def pos(l, c):
        return offs[l - 1] + len(lines[l - 1].encode()[:c].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    out = []

    def add(n, new, what):
        a, b = span(n)
        if src[a:b] != new:
            out.append((a, b, new, what))

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef,)):
            fn = n.name
            if names is not None and fn not in names:
                return
        if isinstance(n, (ast.AnnAssign,)) or fn is None and not isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)):
            if fn is None:
                return
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                l, r = seg(src, n.left), seg(src, n.comparators[0])
                add(n, f"({l} {CMP[type(n.ops[0])]} {r})", "cmp")
                if type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                    add(n, f"({l} == {r})", "cmp-eq")
            if isinstance(n, ast.BoolOp):
                op = " and " if isinstance(n.op, ast.Or) else " or "
                add(n, "(" + op.join(seg(src, v) for v in n.values) + ")", "bool")
                for k in range(len(n.values)):
                    op2 = " or " if isinstance(n.op, ast.Or) else " and "
                    rest = [seg(src, v) for j, v in enumerate(n.values) if j != k]
                    add(n, "(" + op2.join(rest) + ")", "drop-term")
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                add(n, f"({seg(src, n.left)} {BIN[type(n.op)]} {seg(src, n.right)})", "arith")
            if isinstance(n, ast.UnaryOp):
                add(n, seg(src, n.operand), "drop-unary")
            if isinstance(n, ast.Constant) and not isinstance(n.value, bool):
                if isinstance(n.value, int):
                    add(n, str(n.value + 1), "const")
                    add(n, str(n.value - 1), "const")
                elif isinstance(n.value, str) and n.value and len(n.value) < 12:
                    add(n, '""', "const-str")
                elif isinstance(n.value, bytes):
                    add(n, 'b""', "const-bytes")
            if isinstance(n, (ast.If, ast.IfExp, ast.While)) and not (isinstance(n.test, ast.Constant)):
                if not isinstance(n, ast.While):
                    add(n.test, "True", "cond")
                add(n.test, "False", "cond")
                add(n.test, f"(not ({seg(src, n.test)}))", "cond-neg")
            if isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(n.func, ast.Name) and n.func.id in ("abs", "int", "list", "dict", "bytes", "str", "tuple", "float", "len"):
                if n.func.id != "len":
                    add(n, f"({seg(src, n.args[0])})", "drop-call")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "copy", "upper", "lower", "replace", "lstrip", "rstrip"):
                add(n, f"({seg(src, n.func.value)})", "drop-method")
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg and len(n.keywords) + len(n.args) > 1:
                        a, b = span(k)
                        m = re.compile(r"\s*,").match(src, b)
                        if m:
                            out.append((a, m.end(), "", "drop-kw"))
                        else:
                            h = src[:a].rstrip()
                            if h.endswith(","):
                                out.append((len(h) - 1, b, "", "drop-kw"))
            if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
                add(n.value, "None", "return-none")
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                sl = n.slice
                if sl.lower is not None:
                    a, b = span(sl.lower)
                    out.append((a, b, f"({src[a:b]}) + 1", "slice"))
                if sl.upper is not None:
                    a, b = span(sl.upper)
                    out.append((a, b, f"({src[a:b]}) - 1", "slice"))
            if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
                for k in range(len(n.type.elts)):
                    rest = [seg(src, v) for j, v in enumerate(n.type.elts) if j != k]
                    add(n.type, "(" + ", ".join(rest) + ",)", "except")
            if isinstance(n, ast.With) and len(n.items) == 1:
                add(n.items[0].context_expr, "__import__('contextlib').nullcontext()", "with")
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Raise)):
                if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                    add(n, "pass", "del-stmt")
            if isinstance(n, ast.AugAssign):
                a, b = span(n)
                out.append((a, b, seg(src, n.target) + " = " + seg(src, n.value), "aug"))
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.FunctionDef) and (c is n.args or c is n.returns):
                for d in n.args.defaults + n.args.kw_defaults:
                    if isinstance(d, ast.Constant) and isinstance(d.value, (int, bool)):
                        add(d, str(not d.value) if isinstance(d.value, bool) else str(d.value + 1), "default")
                continue
            if isinstance(c, (ast.Raise,)) and fn:
                add(c, "pass", "del-stmt")
                continue
            if isinstance(c, ast.JoinedStr):
                continue
            walk(c, fn)
    walk(tree, None)
    return out


TYPES = ["CH", "DE", "IN", "ST", "HX", "TM", "DT", "LA", "LN"]


def def_mutants(src):
    """Changes of the definition tables."""
    out = []
    ents = list(re.finditer(r'^( +)"(\w+)": (\w+),[^\n]*\n', src, re.M))
    for i, m in enumerate(ents):
        t = m.group(3)
        if t not in TYPES + ["LAD", "LND", "QS", "DTL", "DM"]:
            continue
        for n in {"CH": ["IN"], "ST": ["DE"], "DE": ["IN", "ST"], "IN": ["DE", "ST"], "HX": ["IN"], "TM": ["ST", "DE"], "DT": ["DM", "ST"], "LA": ["DE"], "LN": ["LA"]}.get(t, ["ST"]):
            out.append((m.start(3), m.end(3), n, f"type {m.group(2)}: {t}->{n}"))
        out.append((m.start(), m.end(), "", f"drop {m.group(2)}"))
        if i + 1 < len(ents) and ents[i + 1].start() == m.end():
            out.append((m.start(), ents[i + 1].end(), ents[i + 1].group(0) + m.group(0), f"swap {m.group(2)}"))
    for m in re.finditer(r'^( +)(\d+),\s*(#[^\n]*)?\n', src, re.M):
        out.append((m.start(2), m.end(2), str(int(m.group(2)) + 1), "group count"))
    return out


def line_of(src, a):
    return src.count("\n", 0, a) + 1


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def one(job):
    f, a, b, new, what = job
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        sh(f"mkdir {d}/repo && cp -a {REPO}/. {d}/repo/ && git -C {d}/repo checkout -q -- . && rm -rf {d}/repo/.git")
        p = f"{d}/repo/src/pynmeagps/{f}"
        raw = open(p, newline="").read()
        crlf = "\r\n" in raw
        src = raw.replace("\r\n", "\n")
        res = {"file": f, "line": line_of(src, a), "what": what, "old": src[a:b][:160], "new": new[:160], "span": [a, b]}
        t = src[:a] + new + src[b:]
        try:
            ast.parse(t)
        except SyntaxError:
            return {**res, "status": "invalid"}
        open(p, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TZ="UTC", PYTHONPATH=d + "/repo/src")
        try:
            r = sh("timeout 60 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --no-cov tests", cwd=d + "/repo", env=env)
        except Exception as e:  # noqa
            return {**res, "status": "tests-error"}
        if r.returncode:
            return {**res, "status": "tests"}
        sh(f"mkdir {d}/verif && cp -a {V}/check.py {V}/data {V}/dst {V}/known {V}/*.json* {d}/verif/")
        sh(f"sed -i 's#\"/repo/#\"{d}/repo/#' {d}/verif/dst/*.py {d}/verif/dst/props/*.py")
        order = {"socketwrapper.py": ["C02", "C03", "C16", "C05", "C01", "C08"], "nmeahelpers.py": ["C14", "C15", "C12", "C04", "C13", "C01"]}.get(f, ["C01", "C12", "C15", "C06", "C05"])
        order += [c for c in [f"C{k:02d}" for k in range(1, 18)] if c not in order]
        if f in DEFS:
            order = ["C01", "C12", "C15"]
        for c in order:
            env = dict(os.environ, DST_WORKERS="2", DST_RUNS=str(RUNS.get(c, 700)), DST_SHRINK="0", DST_CAP="200", VERIF_SEED="5", VERIF_TIER="quick")
            r = sh(f"timeout 500 python3 check.py {c}", cwd=d + "/verif", env=env)
            if r.returncode == 1:
                return {**res, "status": "caught", "by": c}
            if r.returncode:
                return {**res, "status": "caught-error", "by": c, "rc": r.returncode, "out": r.stdout[-400:]}
        return {**res, "status": "SURVIVED"}
    finally:
        shutil.rmtree(d)


def main():
    out, seed, count, kind = sys.argv[1], sys.argv[2], int(sys.argv[3]), (sys.argv + ["code"])[4]
    jobs = []
    for f in (CODE if kind == "code" else DEFS):
        src = open(f"{REPO}/src/pynmeagps/{f}", newline="").read().replace("\r\n", "\n")
        ms = mutants(src, HELP if f == "nmeahelpers.py" else None) if kind == "code" else def_mutants(src)
        jobs += [(f, *m) for m in sorted(set(ms))]
    print(len(jobs), "mutants")
    random.Random(seed).shuffle(jobs)
    jobs = jobs[:count]
    with ThreadPoolExecutor(int(os.environ.get("MUT_PAR", "4"))) as ex, open(out, "a") as fo:
        for r in ex.map(one, jobs):
            fo.write(json.dumps(r) + "\n")
            fo.flush()


if __name__ == "__main__":
    main()
