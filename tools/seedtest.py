"""tools/seedtest.py ID... [--tests] [--check]: confirm planted bugs in scratch copies of /repo and run the check against them."""
import json, os, re, shutil, subprocess, sys, concurrent.futures as cf, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
opt = {a for a in sys.argv[1:] if a.startswith('--')}
ids = args or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=k.pop('env', ENV), **k)


def one(i):
    d = os.path.join(ROOT, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    w = '/tmp/seedtest/' + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/seedtest', exist_ok=True)
    sh('cp -a /repo {}'.format(w))
    dd = w + '-demo'
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(d, dd, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    out = [i, meta['property']]
    r0 = sh('bash {}/demo.sh'.format(dd), cwd=w, timeout=300)
    out.append('demo-clean={}'.format(r0.returncode))
    if r0.returncode:
        print(i, r0.stdout.decode()[-1500:])
    a = sh('git apply {}/patch.diff'.format(d), cwd=w)
    if a.returncode:
        out.append('PATCH FAILS ' + a.stdout.decode()[-300:])
        return out
    b = sh('sed "s#/repo#{0}#g" /opt/vp/build.sh > {0}-build.sh; sed "s#/repo#{0}#g" /opt/vp/build_check.py > {0}-bc.py; sed -i "s#/opt/vp/build_check.py#{0}-bc.py#" {0}-build.sh; bash {0}-build.sh; rm {0}-bc.py'.format(w), cwd=w)
    r1 = sh('bash {}/demo.sh'.format(dd), cwd=w, timeout=300)
    out.append('build={} demo-patched={} ({})'.format(b.returncode, r1.returncode, r1.stdout.decode().strip().splitlines()[-1:]))
    if '--tests' in opt:
        sh('sed "s#/repo#{}#g" /opt/vp/test.sh > {}-test.sh; bash {}-test.sh {}-out.json > {}-log 2>&1'.format(w, w, w, w, w))
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        got = set(json.load(open(w + '-out.json'))['passed'])
        out.append('stable tests: {}'.format('ok' if base <= got else 'FAIL ' + str(sorted(base - got)[:3])))
    if '--check' in opt:
        t0 = time.time()
        r = sh('./check {} --tier quick'.format(meta['property']), cwd=ROOT,
               env=dict(ENV, PV_REPO=w, PV_EVIDENCE=w + '-evidence'), timeout=1200)
        txt = r.stdout.decode()
        v = [l for l in txt.splitlines() if l.startswith(('VIOLATION', 'violated', 'undecided'))]
        out.append('check={} {:.0f}s {}'.format(r.returncode, time.time() - t0, v[:4]))
    sh('rm -rf {0} {0}-demo {0}-build.sh {0}-test.sh {0}-evidence'.format(w))
    return out


with cf.ThreadPoolExecutor(1 if '--check' in opt else 3) as ex:
    for o in ex.map(one, ids):
        print(' | '.join(map(str, o)), flush=True)
