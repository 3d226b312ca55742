"""systematic mutants of the code under test: which of them pass the stable tests and are noticed by no check?
mutate.py [FILE-substring...]   environment: JOBS (6), FULL=1 also runs the prover on what the harness misses"""
import ast, copy, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
SRC = "/repo/src/"
PROPS = {"vgm/core.py": "C01 C02 C03 C04 C10 C19", "vgm/command.py": "C01 C02 C03 C10", "vgm/ym2151/config.py": "C17 C15 C07 C05 C08", "vgm/ym2151/note.py": "C14 C06 C16",
         "vgm/ym2151/state.py": "C05 C06 C07 C09 C11 C08", "extractors.py": "C12 C16 C15", "main.py": "C20 C10", "tools.py": "C18",
         "xrns/xrns_serializer.py": "C13 C19", "xrns/writer.py": "C13", "xrns/parts/pattern.py": "C12 C13 C19", "xrns/parts/pattern_sequence.py": "C12 C13",
         "xrns/parts/song.py": "C12 C13 C19", "xrns/parts/track.py": "C12 C13", "xrns/parts/globals.py": "C13 C12"}
CMP = {ast.Lt: [ast.LtE, ast.NotEq], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.NotEq], ast.GtE: [ast.Gt, ast.Eq], ast.Eq: [ast.NotEq, ast.GtE, ast.LtE], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.FloorDiv], ast.FloorDiv: [ast.Div, ast.Mod], ast.Mod: [ast.FloorDiv], ast.BitAnd: [ast.BitOr],
       ast.BitOr: [ast.BitAnd], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift]}


def variants(n, names, attrs):
    """replacements of one node"""
    if isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, bool):
            yield ast.Constant(not v)
        elif isinstance(v, int):
            for w in {v + 1, v - 1, v * 2, v // 2, 0, v ^ 0x80} - {v}:
                yield ast.Constant(w)
        elif isinstance(v, str) and v:
            yield ast.Constant(v + "x")
            yield ast.Constant("")
        elif isinstance(v, bytes) and v:
            yield ast.Constant(v[:-1])
        elif v is None:
            yield ast.Constant(0)
        elif isinstance(v, float):
            yield ast.Constant(v * 1.01)
    elif isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in CMP.get(type(n.ops[0]), []):
            yield ast.Compare(n.left, [o()], n.comparators)
    elif isinstance(n, ast.BinOp):
        for o in BIN.get(type(n.op), []):
            yield ast.BinOp(n.left, o(), n.right)
        yield n.left
    elif isinstance(n, ast.BoolOp):
        yield ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values)
        for i in range(len(n.values)):
            r = n.values[:i] + n.values[i + 1:]
            yield r[0] if len(r) == 1 else ast.BoolOp(n.op, r)
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        yield n.operand
    elif isinstance(n, ast.IfExp):
        yield n.body
        yield n.orelse
    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in attrs:
        for a in attrs[n.attr]:
            yield ast.Attribute(n.value, a, n.ctx)
    elif isinstance(n, ast.Call):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "deepcopy":
            yield n.args[0]
            yield ast.Call(ast.Attribute(f.value, "copy", ast.Load()), n.args, [])
        elif isinstance(f, ast.Name) and f.id in ("sorted", "list", "min", "iter") and len(n.args) == 1 and not n.keywords:
            yield n.args[0]
            if f.id == "min":
                yield ast.Call(ast.Name("max", ast.Load()), n.args, [])
        if len(n.args) >= 2:
            yield ast.Call(f, [n.args[1], n.args[0]] + n.args[2:], n.keywords)
        for i in range(len(n.keywords)):
            yield ast.Call(f, n.args, n.keywords[:i] + n.keywords[i + 1:])
    elif isinstance(n, ast.Dict) and len(n.keys) > 1:
        for i in range(len(n.keys)):
            yield ast.Dict(n.keys[:i] + n.keys[i + 1:], n.values[:i] + n.values[i + 1:])
    elif isinstance(n, (ast.List, ast.Tuple)) and n.elts and isinstance(n.ctx, ast.Load):
        yield type(n)(n.elts[:-1], n.ctx)
    elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Raise, ast.Break, ast.Return)) and not isinstance(getattr(n, "value", None), ast.Constant):
        yield ast.Pass()
        if isinstance(n, ast.AugAssign):
            yield ast.Assign([n.target], n.value)
    elif isinstance(n, ast.If):
        yield ast.If(ast.Constant(True), n.body, n.orelse)
        yield ast.If(ast.Constant(False), n.body, n.orelse)
        yield ast.If(ast.UnaryOp(ast.Not(), n.test), n.body, n.orelse)
    elif isinstance(n, ast.While):
        yield ast.If(n.test, n.body, [])


SIBLINGS = [("lfo", "amp_md", "phs_md"), ("right", "left"), ("octave", "note", "key_fraction"), ("fb", "ams", "pms", "connection"), ("noise", "noise_freq"),
            ("first_detune", "second_detune"), ("first_decay_rate", "second_decay_rate", "first_decay_level", "release_rate", "attack_rate"), ("total_level", "multiply", "key_scale"),
            ("reg", "value"), ("instrument", "pan", "note"), ("lines_per_beat", "ticks_per_line"), ("signature_numerator", "signature_denominator"),
            ("metronome_beats_per_bar", "metronome_lines_per_beat"), ("song_name", "artist"), ("name", "state"), ("stdin", "stdout")]
ATTRS = {a: [b for b in g if b != a] for g in SIBLINGS for a in g}


def mutants(text):
    tree = ast.parse(text)
    nodes = [(p, f, i) for p in ast.walk(tree) for f, v in ast.iter_fields(p) for i in (range(len(v)) if isinstance(v, list) else [None])]
    seen = {ast.unparse(tree)}
    for p, f, i in nodes:
        if f in ("annotation", "returns", "decorator_list", "type_params", "type_comment"):
            continue
        cur = getattr(p, f)
        n = cur if i is None else cur[i]
        if not isinstance(n, ast.AST):
            continue
        for v in variants(n, None, ATTRS):
            ast.copy_location(v, n)
            if i is None:
                setattr(p, f, v)
            else:
                cur[i] = v
            try:
                ast.fix_missing_locations(tree)
                s = ast.unparse(tree)
                compile(s, "x", "exec")
            except Exception:
                s = None
            if i is None:
                setattr(p, f, n)
            else:
                cur[i] = n
            if s and s not in seen:
                seen.add(s)
                yield getattr(n, "lineno", 0), ast.unparse(n)[:70].replace("\n", " "), ast.unparse(v)[:70].replace("\n", " "), s


BASE = json.load(open("/opt/vp/BASELINE.json"))


def trial(job):
    k, f, line, a, b, s = job
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        open(f"{d}/src/{f}", "w").write(s)
        env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1", VP_REPO_SRC=d + "/src")
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "/repo/tests", "-q", "-p", "no:cacheprovider", "--rootdir=/repo"], env=env, cwd=d, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return None
        if "13 failed, 40 passed" not in t.stdout:
            return None
        for p in PROPS[f].split():
            try:
                q = subprocess.run(["/opt/venv/bin/python", "/verif/harness/worker.py", p, "--budget", "4", "--seed", "1"], env=env, cwd=d, capture_output=True, text=True, timeout=120)
            except subprocess.TimeoutExpired:
                return (k, f, line, a, b, p, "hang")
            try:
                if json.loads(q.stdout.splitlines()[-1])["violation"]:
                    return (k, f, line, a, b, p, "harness")
            except Exception:
                return (k, f, line, a, b, p, "harness died")
        if os.environ.get("FULL"):
            for p in PROPS[f].split():
                q = subprocess.run(["python3", "check.py", p], cwd="/verif", env=dict(env, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
                if q.returncode:
                    v = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]
                    return (k, f, line, a, b, p, "prover " + (v[0][-25:] if v else str(q.returncode)))
        return (k, f, line, a, b, "-", "MISSED")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    sel = sys.argv[1:]
    jobs = []
    only = set(os.environ["ONLY"].split()) if os.environ.get("ONLY") else None        # file:number ...
    for f in PROPS:
        if sel and not any(x in f for x in sel):
            continue
        for k, m in enumerate(mutants(open(SRC + f).read())):
            if only is None or f"{f}:{k}" in only:
                jobs.append((k, f, *m))
    print(len(jobs), "mutants", flush=True)
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
        for r in ex.map(trial, jobs):
            if r:
                print(*r, sep=" | ", flush=True)


main()
