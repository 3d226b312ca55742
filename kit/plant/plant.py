"""plant.py [id...]: builds /verif/seeded/<id> from BUGS and confirms it"""
import os,sys,json,subprocess,shutil,textwrap
sys.path.insert(0,'/tmp')
HELP='''import io, os, sys, tempfile, contextlib, json, gzip
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
WORK = tempfile.mkdtemp()
os.chdir(WORK)


def u32(n):
    return int(n).to_bytes(4, "little")


def vgm_bytes(data, version=0x151, ym2413=0, ym2151=3579545, off=0x0C, pad=0x40):
    h = bytearray(pad)
    h[0:4] = b"Vgm "
    h[4:8] = u32(0x1000)
    h[8:12] = u32(version)
    h[0x10:0x14] = u32(ym2413)
    h[0x30:0x34] = u32(ym2151)
    h[0x34:0x38] = u32(off)
    return bytes(h) + bytes(data)


def open_vgm(data, **k):
    import vgm.core
    return vgm.core.reader(io.BytesIO(vgm_bytes(data, **k)))


def W(reg, value):
    return bytes([0x54, reg, value])


def wait(n):
    out = b""
    while n > 65535:
        out += b"\\x61\\xff\\xff"
        n -= 65535
    return out + b"\\x61" + n.to_bytes(2, "little")


def state(data):
    import main
    return main.process_vgm_file(open_vgm(data))


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def finish(ok, why=""):
    import shutil
    os.chdir("/")
    shutil.rmtree(WORK, ignore_errors=True)
    if not ok:
        print("FAILS:", why)
    sys.exit(0 if ok else 1)


'''
def sh(cmd,**k): return subprocess.run(cmd,shell=True,capture_output=True,text=True,**k)
def build(b):
    d=f'/verif/seeded/{b["id"]}'; os.makedirs(d,exist_ok=True)
    w=f'/tmp/plant/{b["id"]}'; shutil.rmtree(w,ignore_errors=True)
    sh(f'cp -a /repo {w}'); sh(f'git -C {w} checkout -q -- .')
    for f,a,c in b['edits']:
        p=f'{w}/src/{f}'; s=open(p).read()
        if s.count(a)<1: return f'{b["id"]}: text not found in {f}: {a!r}'
        open(p,'w').write(s.replace(a,c,1))
    diff=sh(f'git -C {w} diff').stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.py','w').write(HELP+textwrap.dedent(b['demo']).strip()+'\n')
    open(d+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nunset PYTHONPATH\nexec timeout 250 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":b['property'],"needs":b['needs'],"what_it_breaks":b['what']},open(d+'/meta.json','w'),indent=1)
    r0=sh(f'cd /repo && bash {d}/demo.sh'); r1=sh(f'cd {w} && bash {d}/demo.sh')
    t=sh(f'cd {w} && PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH={w}/src /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -rA 2>&1')
    passed={l.split()[1] for l in t.stdout.splitlines() if l.startswith('PASSED ')}
    base=json.load(open('/opt/vp/BASELINE.json'))
    base=base if isinstance(base,list) else base.get('passed') or base.get('stable') or base.get('tests')
    norm=lambda x: x.replace('/','.').replace('::','.').replace('.py','').split('tests.')[-1]
    lost=[x for x in base if norm(x) not in {norm(y) for y in passed}]
    ok = r0.returncode==0 and r1.returncode!=0 and not lost and len(passed)>30
    shutil.rmtree(w,ignore_errors=True)
    if not ok:
        return f'{b["id"]}: BAD clean={r0.returncode} {r0.stdout[-300:]}{r0.stderr[-500:]} patched={r1.returncode} {r1.stderr[-200:]} lost={lost[:4]}'
    return f'{b["id"]}: ok ({r1.stdout.strip()[-100:]}{r1.stderr.strip()[-80:]}) {t.stdout.strip().splitlines()[-1]}'
if __name__=='__main__':
    import importlib
    from concurrent.futures import ThreadPoolExecutor
    BUGS=[]
    for m in sorted(x[:-3] for x in os.listdir('/tmp') if x.startswith('bugs') and x.endswith('.py')):
        BUGS+=importlib.import_module(m).BUGS
    sel=[b for b in BUGS if len(sys.argv)<2 or b['id'] in sys.argv[1:]]
    with ThreadPoolExecutor(6) as p:
        for r in p.map(build,sel): print(r)
