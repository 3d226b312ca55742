"""property breaking edits; runs the check of the property on a copy with each.  screen.py FILE [name-substring...]
FILE defines BUGS with b(name, property, *edits); prints rc, refuted, undecided and whether the stable tests still pass."""
import json, os, shutil, subprocess, sys
BUGS = []
def b(name, prop, *edits):
    BUGS.append((name, prop, edits))
S, C, X, N, V, M, K, T = "vgm/ym2151/state.py", "vgm/ym2151/config.py", "extractors.py", "vgm/ym2151/note.py", "vgm/core.py", "main.py", "vgm/command.py", "tools.py"
Z, P, WR, SCH = "xrns/xrns_serializer.py", "xrns/parts/pattern.py", "xrns/writer.py", "xrns/xml/song/renoise_song65.py"
exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
sel = sys.argv[2:]
BASE = json.load(open("/opt/vp/BASELINE.json"))
for name, prop, edits in BUGS:
    if sel and not any(s in name for s in sel):
        continue
    d = f"/tmp/screen{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo/src", d + "/src")
    bad = False
    for f, a, c in edits:
        p = f"{d}/src/{f}"
        s = open(p).read()
        if a not in s:
            print("!!", name, "edit does not apply to", f, repr(a[:60]))
            bad = True
            break
        open(p, "w").write(s.replace(a, c, 1))
    if bad:
        continue
    env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1")
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "/repo/tests", "-q", "-p", "no:cacheprovider", "--rootdir=/repo"], env=env, cwd="/tmp", capture_output=True, text=True)
    q = subprocess.run(["python3", "check.py", prop], cwd="/verif", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VP_REPO_SRC=d + "/src"), capture_output=True, text=True)
    o = q.stdout.splitlines()
    v = [l for l in o if l.startswith("VIOLATION")]
    ref = len([l for l in o if "refuted" in l])
    und = [l for l in o if "undecided" in l]
    print(f"{'OK  ' if q.returncode == 1 else 'MISS'} {name} {prop} rc={q.returncode} refuted={ref} undecided={len(und)} {'NOINPUT' if v and 'no-failing' in v[0] else ''} {o[-2 if v else -1].split(';')[-1] if o else q.stderr[-200:]} | {t.stdout.strip().splitlines()[-1][:30]} {und[0][:160] if und and not ref else ''}", flush=True)
shutil.rmtree(f"/tmp/screen{os.getpid()}", ignore_errors=True)
