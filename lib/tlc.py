"""Running TLC on shards of (cases, traces)."""
import os, re, subprocess, time
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class ToolError(Exception): pass

def cfg_text(spec='Spec', invariants=(), constants=(), properties=(), extra=''):
    s = f'SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n'
    if constants: s += 'CONSTANTS\n' + ''.join(f'  {c}\n' for c in constants)
    for i in invariants: s += f'INVARIANT {i}\n'
    for i in properties: s += f'PROPERTY {i}\n'
    return s + extra

def start(module, cfg, workdir, env, mem='2500m', workers=1, opts=()):
    os.makedirs(workdir, exist_ok=True)
    with open(f'{workdir}/{module}.cfg', 'w') as f: f.write(cfg)
    e = dict(os.environ, **env)
    out = open(f'{workdir}/tlc.out', 'w')
    # the specs are read through -DTLA-Library so that no file is written next to them
    p = subprocess.Popen(['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', f'-Xmx{mem}', '-Dfile.encoding=UTF-8', '-Xss256m',
                          f'-DTLA-Library={VERIF}/spec', f'-Djava.io.tmpdir={workdir}', '-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', f'{workdir}/meta',
                          '-workers', str(workers), '-config', f'{workdir}/{module}.cfg', *opts, f'{VERIF}/spec/{module}.tla'],
                         cwd=workdir, env=e, stdout=out, stderr=subprocess.STDOUT)
    p.workdir = workdir
    p.t0 = time.time()
    return p

STAT = re.compile(r'^(\d+) states generated, (\d+) distinct states found', re.M)

def finish(p, timeout):
    """-> dict(ok, states, distinct, violated (invariant or property name or None), state (text), out)"""
    try: p.wait(timeout=max(1, timeout))
    except subprocess.TimeoutExpired:
        p.kill(); p.wait()
        raise ToolError(f'TLC timed out in {p.workdir}')
    out = open(f'{p.workdir}/tlc.out', errors='replace').read()
    s = STAT.findall(out)
    r = dict(ok=False, states=int(s[-1][0]) if s else 0, distinct=int(s[-1][1]) if s else 0, violated=None, out=out, rc=p.returncode)
    v = re.search(r'Error: Invariant (\S+) is violated', out) or re.search(r'Error: Action property (\S+) is violated', out)
    if v: r['violated'] = v[1]
    elif 'Temporal properties were violated' in out: r['violated'] = 'temporal'
    elif re.search(r'Error: Postcondition .*? (is|has been) violated|Error: POSTCONDITION', out) or 'The following postcondition' in out: r['violated'] = 'postcondition'
    elif p.returncode == 0 and 'Model checking completed. No error has been found.' in out: r['ok'] = True
    else:
        tail = '\n'.join(out.splitlines()[-40:])
        raise ToolError(f'TLC failed (exit {p.returncode}) in {p.workdir}:\n{tail}')
    return r

def last_case(out):
    """the value of variable c in the last printed state"""
    m = re.findall(r'^(?:/\\ )?c = (\d+)', out, re.M)
    return int(m[-1]) if m else None
def last_state(out):
    i = out.rfind('State ')
    return out[i:i + 4000] if i >= 0 else out[-3000:]
