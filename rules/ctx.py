"""Check runner: builds the extractor, extracts facts of the current /repo tree
for the configurations a property needs, runs its rules, writes evidence."""
import os, sys, re, json, time, subprocess, tempfile, shutil, hashlib, importlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import core

REPO = os.environ.get('H2D_REPO', '/repo')
RES = '/usr/lib/llvm-18/lib/clang/18'
CONFIGS = {
    'base':   ['-DHOMOG2D_ENABLE_VRTP'],
    'plain':  [],
    'svg':    ['-DHOMOG2D_ENABLE_VRTP', '-DHOMOG2D_USE_SVG_IMPORT'],
    'float':  ['-DHOMOG2D_ENABLE_VRTP', '-DDRV_F=float', '-DDRV_G=double'],
    'ld':     ['-DHOMOG2D_ENABLE_VRTP', '-DHOMOG2D_INUMTYPE=long double', '-DDRV_F=long double', '-DDRV_G=double'],
    'ldld':   ['-DHOMOG2D_ENABLE_VRTP', '-DHOMOG2D_USE_SVG_IMPORT', '-DHOMOG2D_INUMTYPE=long double', '-DDRV_F=long double', '-DDRV_G=long double'],
    'speed':  ['-DHOMOG2D_ENABLE_VRTP', '-DHOMOG2D_OPTIMIZE_SPEED'],
    'nocheck': ['-DHOMOG2D_ENABLE_VRTP', '-DHOMOG2D_NOCHECKS'],
    'nowarn': ['-DHOMOG2D_ENABLE_VRTP', '-DHOMOG2D_NOWARNINGS'],
    'eigen':  ['-DHOMOG2D_ENABLE_VRTP', '-DHOMOG2D_USE_EIGEN', '-I/usr/include/eigen3'],
    'opencv': ['-DHOMOG2D_ENABLE_VRTP', '-DHOMOG2D_USE_OPENCV', '-I/usr/include/opencv4'],
    'boost':  ['-DHOMOG2D_ENABLE_VRTP', '-DHOMOG2D_USE_BOOSTGEOM'],
    'prtp':   ['-std=c++20', '-DHOMOG2D_ENABLE_PRTP', '-DDRV_F=double', '-DDRV_G=double'],
    'debug':  ['-DHOMOG2D_ENABLE_VRTP', '-DHOMOG2D_DEBUGMODE'],
    'thr':    ['-DHOMOG2D_ENABLE_VRTP', '-DHOMOG2D_USE_SVG_IMPORT', '-DHOMOG2D_THR_ZERO_DIST=1.0625e-9', '-DHOMOG2D_THR_ZERO_ORTHO_DIST=1.1875e-9', '-DHOMOG2D_THR_ZERO_ANGLE=0.00131640625', '-DHOMOG2D_THR_ZERO_DENOM=1.4375e-9', '-DHOMOG2D_THR_ZERO_DETER=1.5625e-9'],
    'f_only': ['-DHOMOG2D_ENABLE_VRTP', '-DHOMOG2D_INUMTYPE=float', '-DDRV_F=float', '-DDRV_G=float'],
}

class ToolError(Exception): pass

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop; self.tier = tier; self.seed = seed
        self.tmp = tempfile.mkdtemp(prefix='h2dck.')
        self.facts = {}
        self.viol = {}          # key -> message
        self.cov = {'explanation': '', 'configurations': {}}
        self.obl = 0; self.ok = 0
        self.samples = []
        self.counts = {}
    # ---- facts
    def tool(self):
        subprocess.check_call(['bash', os.path.join(VERIF, 'tool/build.sh')])
        h = hashlib.sha256(open(os.path.join(VERIF, 'tool/h2dfacts.cpp'), 'rb').read()).hexdigest()[:16]
        return os.path.join(VERIF, 'build', 'h2dfacts-' + h)
    def extract(self, *configs, allow_errors=False):
        tool = self.tool()
        def one(c):
            out = os.path.join(self.tmp, c + '.json')
            hdr = os.path.join(REPO, 'homog2d.hpp')
            src = os.path.join(VERIF, 'driver/main.cpp')
            flags = CONFIGS[c]
            std = [] if any(x.startswith('-std') for x in flags) else ['-std=c++17']
            cmd = [tool, out, src, '--'] + std + ['-I' + REPO, '-I' + os.path.join(VERIF, 'driver'), '-resource-dir', RES] + flags
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=self.tmp)
            if r.returncode not in (0, 3) or not os.path.exists(out):
                raise ToolError('extractor failed for configuration %s: %s' % (c, r.stderr[-2000:]))
            F = core.Facts(out)
            os.unlink(out)
            F.config = c
            F.diag = '; '.join(re.sub(r'^\S*/', '', l) for l in r.stdout.split('\n') + r.stderr.split('\n') if 'error:' in l)
            if F.errors and not allow_errors:
                raise ToolError('configuration %s: %d compile errors in the analysed program:\n%s' % (c, F.errors, '\n'.join(l for l in r.stdout.split('\n') + r.stderr.split('\n') if 'error' in l)[:3000]))
            return c, F
        todo = [c for c in configs if c not in self.facts]
        with ThreadPoolExecutor(4) as ex:
            for c, F in ex.map(one, todo):
                self.facts[c] = F
                self.cov['configurations'][c] = {'flags': ' '.join(CONFIGS[c]), 'functions': len(F.fns), 'nodes': sum(len(f.nodes) for f in F.fns), 'patterns_with_body': sum(1 for p in F.patterns if p['body']), 'patterns_instantiated': len({f.pl for f in F.fns} & {p['pl'] for p in F.patterns})}
                if len(F.fns) < 300 and not F.errors: raise ToolError('configuration %s: only %d functions extracted' % (c, len(F.fns)))
        return [self.facts[c] for c in configs]
    # ---- results
    def need(self, n, minimum, what):
        """vanished anchor -> no answer instead of a silent pass"""
        self.counts[what] = self.counts.get(what, 0) + (n if isinstance(n, int) else len(n))
        v = n if isinstance(n, int) else len(n)
        if v < minimum: raise ToolError('anchor vanished: %s: found %d, expected at least %d' % (what, v, minimum))
    def good(self, sample=None):
        self.obl += 1; self.ok += 1
        if sample and len(self.samples) < 12 and sample not in self.samples: self.samples.append(sample)
    def bad(self, key, msg):
        self.obl += 1
        if key not in self.viol: self.viol[key] = msg
    def check(self, cond, key, msg, sample=None):
        if cond: self.good(sample)
        else: self.bad(key, msg() if callable(msg) else msg)
        return cond

def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(.*?) \|\| (.*)', l.strip())
            if m: out.append({'property': m[1], 'key': m[2], 'what': m[3], 'status': 'known'})
    return out

def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cx = Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module('props.' + prop)
        mod.run(cx)
    except ToolError as e:
        print('ERROR property=%s %s' % (prop, e)); return 2
    finally:
        shutil.rmtree(cx.tmp, ignore_errors=True)
    known = {k['key']: k for k in known_findings() if k.get('property') == prop and k.get('status') == 'known'}
    viol = {k: m for k, m in cx.viol.items() if k not in known}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': dict(cx.cov, explanation=mod.RULE, obligations=cx.obl, discharged=cx.ok, counts=cx.counts, samples=cx.samples[:12],
                           configurations=cx.cov['configurations']),
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rp = os.path.join(VERIF, 'evidence', prop + '.violations.txt')
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in sorted(set(cx.viol) & set(known)):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]['what']))
    if cx.obl == 0:
        print('ERROR property=%s no obligation was generated' % prop); return 2
    if viol:
        with open(rp, 'w') as f:
            for k in sorted(viol): f.write('%s\n    %s\n' % (k, viol[k]))
        for k in sorted(viol)[:40]: print('  %s\n      [%s]' % (viol[k], k))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if os.path.exists(rp): os.unlink(rp)
    print('OK property=%s: %d obligations discharged in %d configuration(s), %.1f s' % (prop, cx.ok, len(cx.facts), time.time() - t0))
    return 0

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
