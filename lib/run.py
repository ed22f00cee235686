"""Shared machinery of the checks: building harnesses, sharding, running the code, running TLC, verdicts."""
import json, os, shutil, subprocess, sys, threading, time, resource
from concurrent.futures import ThreadPoolExecutor
import tlc
VERIF = tlc.VERIF
BUILD = os.environ.get('VP_BUILD', f'{VERIF}/.build')
JOBS = 8

class ToolError(tlc.ToolError): pass

def cargo(crate, bin_, extra_env=None, subdir='target', config=()):
    """builds /verif/harness/<crate> against /repo's working tree, returns the binary"""
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_TARGET_DIR=f'{BUILD}/{subdir}', CARGO_NET_OFFLINE='true', **(extra_env or {}))
    env.pop('RUSTFLAGS', None)
    p = subprocess.run(['cargo', 'build', '--offline', '-q', *config], cwd=f'{VERIF}/harness/{crate}', env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode: raise ToolError('harness build failed:\n' + '\n'.join(p.stdout.splitlines()[-60:]))
    return f'{BUILD}/{subdir}/debug/{bin_}'

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def drive(binary, lines, timeout, fallback, args=()):
    """feeds the lines, returns one JSON line per input. When the process dies or gives no answer for `timeout`
    seconds, the input it was working on gets fallback(i, reason), and a new process continues after it."""
    out, i, failures = [], 0, 0
    while i < len(lines):
        if failures > 5:      # do not burn the time limit on a build that hangs on everything
            out += [fallback(j, 'not run: the code stopped answering repeatedly') for j in range(i, len(lines))]
            break
        p = subprocess.Popen([binary, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=limits)
        def feed():
            try:
                p.stdin.write('\n'.join(lines[i:]) + '\n'); p.stdin.close()
            except OSError: pass
        got, last = [], [time.time()]
        def read():
            for l in p.stdout:
                if l.endswith('}\n'): got.append(l[:-1]); last[0] = time.time()
        fs = [threading.Thread(target=f, daemon=True) for f in (feed, read)]
        for t in fs: t.start()
        hung = False
        while True:
            fs[1].join(.05)
            if not fs[1].is_alive(): break
            if time.time() - last[0] > timeout: hung = True; p.kill(); fs[1].join(); break
        p.wait(); fs[0].join()
        why = f'no answer within {timeout} s' if hung else f'process ended with status {p.returncode}'
        got = got[:len(lines) - i]
        out += got
        i += len(got)
        if i < len(lines):
            out.append(fallback(i, why)); i += 1; failures += 3 if hung else 1
    return out

class Check:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.quick = self.tier != 'thorough'
        self.t0 = time.time()
        self.dir = f'{BUILD}/run/{prop}-{os.getpid()}'
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violation = None   # (what, payload dict)
        self.known = []

    def design(self, module, invariants, constants, name=None, workers=8, properties=(), constraints=(), mem='6g', timeout=800, spec='Spec'):
        """an exhaustive model check of the specification alone"""
        p = tlc.start(module, tlc.cfg_text(spec, invariants=invariants, constants=constants, properties=properties, extra=''.join(f'CONSTRAINT {c}\n' for c in constraints)), f'{self.dir}/{name or module}-design', {}, workers=workers, mem=mem)
        r = tlc.finish(p, timeout)
        self.cov['states'] += r['distinct']; self.cov['transitions'] += r['states']
        self.cov.setdefault('design_models', []).append(dict(module=module, constants=list(constants), invariants=list(invariants), distinct_states=r['distinct'], exhaustive=True))
        if not r['ok']: raise ToolError(f'the specification {module} breaks its own {r["violated"]}:\n' + tlc.last_state(r['out']))

    def validate(self, modules, shards, timeout=800, name='s', mem='2500m'):
        """modules: [(module, constants, invariants, deciding set)]; shards: list of (cases, traces) as lists of
        JSON texts. A violated deciding invariant is a violation of the property; any other one is a tool error."""
        jobs = []
        for s, (cases, traces) in enumerate(shards):
            if not cases: continue
            d = f'{self.dir}/{name}{s}'
            os.makedirs(d)
            open(f'{d}/cases', 'w').write('\n'.join(cases) + '\n')
            open(f'{d}/traces', 'w').write('\n'.join(traces) + '\n')
            for mod in modules: jobs.append((s, d, mod))
        def one(job):
            s, d, (module, constants, invariants, deciding) = job
            if self.violation: return None
            p = tlc.start(module, tlc.cfg_text(invariants=invariants, constants=constants), f'{d}/{module}',
                          dict(VP_CASES=f'{d}/cases', VP_TRACES=f'{d}/traces'), mem=mem)
            r = tlc.finish(p, timeout)
            if not r['ok']:
                if r['violated'] in deciding:
                    self.violation = self.violation or (r['violated'], dict(shard=s, module=module, case=tlc.last_case(r['out']), state=tlc.last_state(r['out'])))
                else: raise ToolError(f'{module}: {r["violated"]} violated: the specification or the inputs are wrong\n' + tlc.last_state(r['out']))
            shutil.rmtree(f'{d}/{module}/meta', ignore_errors=True)
            return r
        with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(one, jobs))
        for r in res:
            if r: self.cov['states'] += r['distinct']; self.cov['transitions'] += r['states']
        self.cov['traces_validated_against_impl'] += sum(len(c) for c, _ in shards)

    def finish(self, level='model_checking', replay=None):
        viol = self.violation is not None
        cov = self.cov
        ev = dict(property=self.prop, tier='quick' if self.quick else 'thorough', seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=int(viol))
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        with open(f'{VERIF}/evidence/{self.prop}.json', 'w') as f: json.dump(ev, f, indent=1)
        for k in self.known: print(f'KNOWN-FINDING: property={self.prop} {k}')
        if viol:
            what, info = self.violation
            rd = f'{VERIF}/replay/{self.prop}'
            shutil.rmtree(rd, ignore_errors=True); os.makedirs(rd)
            with open(f'{rd}/violation.json', 'w') as f: json.dump(dict(property=self.prop, broken=what, seed=self.seed, tier=self.tier, **info), f, indent=1)
            print(f'{self.prop}: {what} does not hold; {info.get("summary", "")}')
            print(f'VIOLATION property={self.prop} replay={rd}/violation.json')
        else:
            print(f'{self.prop}: held on {cov["traces_validated_against_impl"]} recorded runs, {cov["states"]} states ({ev["wall_s"]} s)')
        shutil.rmtree(self.dir, ignore_errors=True)
        return 1 if viol else 0

def shard(items, n=JOBS):
    """round robin, so that expensive neighbours are spread"""
    return [items[i::n] for i in range(n)]
