"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(ROOT, 'specs')
CP = ('/opt/veriftools/tla/tla2tools.jar:'
      '/opt/veriftools/tla/CommunityModules-deps.jar')


class TlcError(Exception):
    pass


class Result(object):
    def __init__(self):
        self.out = ''
        self.generated = 0
        self.distinct = 0
        self.ok = False
        self.error = ''
        self.lines = []       # payloads printed as "@@" \o ToJson(..)
        self.verdicts = []    # payloads printed as "@V" \o ToJson(..)
        self.coverage = {}


def run(module, cfg, scratch, workers=4, timeout=600, args=(), heap='3g',
        env=None, extra_files=()):
    """Run TLC on specs/<module>.tla with the cfg text given."""
    d = tempfile.mkdtemp(prefix='tlc-', dir=scratch)
    for f in os.listdir(SPECS):
        if f.endswith('.tla'):
            os.symlink(os.path.join(SPECS, f), os.path.join(d, f))
    for src, name in extra_files:
        os.symlink(os.path.abspath(src), os.path.join(d, name))
    with open(os.path.join(d, 'M.cfg'), 'w') as f:
        f.write(cfg)
    tmpd = os.path.join(d, 'tmp')
    os.makedirs(tmpd)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
           '-XX:ParallelGCThreads=4',
           '-Djava.io.tmpdir=' + tmpd,
           '-cp', CP, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
           '-config', 'M.cfg'] + list(args) + [module + '.tla']
    r = Result()
    e = dict(os.environ)
    if env:
        e.update(env)
    t0 = time.time()
    # after an evaluation error TLC evaluates everything once more, without
    # any caching, to print a call stack: this is not awaited
    outf = os.path.join(d, 'out.txt')
    with open(outf, 'wb') as f:
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=f,
                             stderr=subprocess.STDOUT)
        since, pos, tail = None, 0, b''
        try:
            while True:
                try:
                    p.wait(0.2 if time.time() - t0 > 2 else 0.02)
                    break
                except subprocess.TimeoutExpired:
                    pass
                now = time.time()
                if now - t0 > timeout:
                    r.error = 'timeout after %ds' % timeout
                    break
                with open(outf, 'rb') as g:
                    g.seek(pos)
                    new = tail + g.read()
                    pos = g.tell()
                    tail = new[-40:]
                if since is None and b'\nError: ' in new:
                    since = now
                if since is not None and now - since > 4:
                    break
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
    with open(outf, 'rb') as f:
        r.out = f.read().decode('utf8', 'replace')
    r.rc = p.returncode
    r.wall = time.time() - t0
    seen = set()
    for line in r.out.splitlines():
        if line.startswith('"@'):
            try:
                s = json.loads(line)
            except ValueError:
                continue
            if s in seen:
                continue
            seen.add(s)
            if s.startswith('@@'):
                r.lines.append(json.loads(s[2:]))
            elif s.startswith('@V'):
                r.verdicts.append(json.loads(s[2:]))
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found',
                   r.out)
    if m:
        r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
    if r.rc == 0 and not r.error:
        r.ok = True
    elif not r.error:
        i = r.out.find('Error:')
        r.error = r.out[i:i + 1500] if i >= 0 else r.out[-1500:]
    shutil.rmtree(d, ignore_errors=True)
    return r
