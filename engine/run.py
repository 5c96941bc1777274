#!/usr/bin/env python3
"""Builds the tools, regenerates the LLVM IR of the harness of one property from /repo's
current source, decides every entry with the symbolic executor, replays counterexamples
natively, and writes the evidence file."""
import glob, json, os, re, subprocess, sys, time, fcntl, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get('SAIL_VERIF_BUILD', os.path.join(V, '.build'))
TC = 'nightly-x86_64-unknown-linux-gnu'
HOME = os.path.expanduser('~')
TCDIR = os.path.join(os.environ.get('RUSTUP_HOME', HOME + '/.rustup'), 'toolchains', TC)
LLVM = os.path.join(TCDIR, 'lib/rustlib/x86_64-unknown-linux-gnu/bin')
SYMEX = os.path.join(B, 'symex/release/symex')
DRIVER = os.path.join(B, 'driver/debug/symrustc')
T0 = time.time()
SETUP_FEATURES = ['warm']


def sh(cmd, env=None, cwd=None, timeout=None):
    return subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors='replace')


def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_') and k != 'CARGO_HOME' or k in ('RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTUP_TOOLCHAIN', 'RUSTDOCFLAGS'):
            del e[k]
    e['CARGO_NET_OFFLINE'] = 'true'
    e['RUSTUP_TOOLCHAIN'] = TC
    return e


def build_tools():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'tools.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = base_env()
        e['RUSTFLAGS'] = f'-C link-arg=-Wl,-rpath,{TCDIR}/lib'
        r = sh(['cargo', 'build', '--offline', '-q', '--target-dir', B + '/driver'], e, V + '/engine/driver')
        if r.returncode:
            fail('driver build failed', r.stdout)
        e = base_env()
        r = sh(['cargo', 'build', '--release', '--offline', '-q', '--target-dir', B + '/symex'], e, V + '/engine/symex')
        if r.returncode:
            fail('engine build failed', r.stdout)


def fail(msg, detail=''):
    print('ERROR:', msg)
    if detail:
        print(detail[-6000:])
    sys.exit(2)


def harness_env():
    e = base_env()
    e.update({
        'PYO3_PYTHON': '/usr/bin/python3.12' if os.path.exists('/usr/bin/python3.12') else sys.executable,
        'RUSTFLAGS': '-Zalways-encode-mir -Awarnings',
        'RUSTC_WORKSPACE_WRAPPER': DRIVER,
        'SYM_CODEGEN_FLAGS': '-Copt-level=2 -Ccodegen-units=1 -Cno-vectorize-loops -Cno-vectorize-slp',
        'CARGO_TARGET_DIR': B + '/tgt',
    })
    return e


CUT = ['arrow_cast::cast_with_options', 'arrow_cast::cast::cast_with_options', 'arrow_ord', 'arrow_cast::display::*', 'arrow_cast::pretty::*']


def cuts(feature):
    """functions left without a body in the module of this property; an entry that reaches one is inconclusive"""
    c = set(CUT)
    for src in glob.glob(f'{V}/harness/src/{feature}.rs') + glob.glob(f'{V}/harness/src/{feature}_*.rs'):
        for m in re.finditer(r'^//@@ (cut|keep): (.*)', open(src).read(), re.M):
            (c.update if m.group(1) == 'cut' else c.difference_update)(m.group(2).split())
    return ' '.join(sorted(c))


def build_ir(feature):
    """-> path of the LLVM module regenerated from the current source"""
    env = harness_env()
    env['SYM_CUT'] = cuts(feature)
    def go():
        r = subprocess.run(
            ['cargo', 'check', '-Zbuild-std=std,panic_abort', '-Zchecksum-freshness', '--offline', '--target',
             'x86_64-unknown-linux-gnu', '--features', feature, '--message-format=json'],
            env=env, cwd=V + '/harness', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
        ll = None
        msgs = []
        for line in r.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get('reason') == 'compiler-message' and m['message'].get('level') == 'error':
                msgs.append(m['message'].get('rendered', ''))
            if m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'symharness':
                for f in m['filenames']:
                    if f.endswith('.rmeta'):
                        d, b = os.path.split(f)
                        ll = os.path.join(d, b[3:-6] + '.ll')
        if r.returncode:
            return None, '\n'.join(msgs) + r.stderr[-3000:]
        return ll, ''
    ll, err = go()
    if ll is None:
        fail('the harness does not compile against this tree', err)
    if not os.path.exists(ll):
        fail('no LLVM module at ' + ll)
    return ll


def entries(feature, tier):
    """scan the harness source for entries and their metadata"""
    out = []
    srcs = sorted(glob.glob(f'{V}/harness/src/{feature}.rs') + glob.glob(f'{V}/harness/src/{feature}_*.rs'))
    for src in srcs:
        meta = {}
        for line in open(src):
            m = re.match(r'\s*//@\s*(\w+):\s*(.*)', line)
            if m:
                meta[m.group(1)] = (meta.get(m.group(1), '') + ' ' + m.group(2)).strip()
                continue
            m = re.match(r'\s*(?:pub extern "C" fn (h_\w+)|(?:crate::)?\w+!\s*[({]\s*(h_\w+))', line)
            if m:
                meta['name'] = m.group(1) or m.group(2)
                if tier == 'thorough' or meta.get('tier', 'quick') == 'quick':
                    out.append(meta)
                meta = {}
    return out


def native(ll, names, tag):
    """compile the same module to machine code"""
    d = os.path.join(B, 'native', tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    bc, o, exe = d + '/h.bc', d + '/h.o', d + '/h'
    r = sh([LLVM + '/opt', '-non-global-value-max-name-size=4096', '-passes=internalize,globaldce', '--internalize-public-api-list=' + ','.join(names), ll, '-o', bc])
    if r.returncode:
        return None, r.stdout
    r = sh([LLVM + '/llc', '-O1', '-filetype=obj', '-relocation-model=pic', bc, '-o', o])
    if r.returncode:
        return None, r.stdout
    und = sh([LLVM + '/llvm-nm', '-u', o]).stdout.split()
    defs = []
    for s in und:
        for suf, t in (('12___rust_alloc', 'sym_alloc'), ('14___rust_dealloc', 'sym_dealloc'), ('14___rust_realloc', 'sym_realloc'),
                       ('19___rust_alloc_zeroed', 'sym_alloc_zeroed'), ('17rust_begin_unwind', 'sym_unwind'),
                       ('___rust_alloc_error_handler', 'sym_alloc_error'), ('__rust_no_alloc_shim_is_unstable_v2', 'sym_nop'),
                       ('___rust_start_panic', 'sym_unwind')):
            if s.endswith(suf):
                defs.append(f'-Wl,--defsym={s}={t}')
                break
        else:
            if s.startswith(('_R', '_ZN', 'Py', '_Py')) or s == 'rust_eh_personality':
                defs.append(f'-Wl,--defsym={s}=sym_cut')
    open(d + '/args', 'w').write('\n'.join(defs))
    r = sh(['gcc', '-O1', '-w', '-rdynamic', '-o', exe, V + '/engine/native/rt.c', o, '-Wl,--unresolved-symbols=ignore-all', '-lm', '-ldl', '-lpthread', '@' + d + '/args'])
    if r.returncode:
        return None, r.stdout
    for f in (bc, o):
        os.remove(f)
    return exe, ''


def run_native(exe, name, inputs):
    try:
        r = subprocess.run([exe, name] + [str(x) for x in inputs], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=90, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        return 'hang', 0
    m = re.search(r'^NATIVE (\S+) (\d+)', r.stdout, re.M)
    if m:
        return m.group(1), int(m.group(2))
    return f'signal{-r.returncode}' if r.returncode < 0 else f'exit{r.returncode}', 0


def run_entry(ll, meta, deadline, tmp, qtime):
    name = meta['name']
    out = f'{tmp}/{name}.json'
    if os.path.exists(out):
        os.remove(out)
    left = deadline - time.time()
    lim = min(float(meta.get('time', 300)), left - 5)
    if lim <= 1:
        return {'entry': name, 'status': 'inconclusive', 'why': 'no time left', 'violations': []}
    cmd = [SYMEX, ll, '--entry', name, '--time', str(int(lim)), '--qtime', str(meta.get('qtime', qtime)), '--out', out] + meta.get('args', '').split() + ([] if meta.get('fmt') == 'real' else ['--stub-fmt'])
    e = dict(os.environ)
    e['TMPDIR'] = tmp
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=lim + 150, text=True, errors='replace', env=e)
        log = r.stdout
    except subprocess.TimeoutExpired:
        log = 'killed'
    try:
        return json.load(open(out))
    except Exception:
        return {'entry': name, 'status': 'inconclusive', 'why': 'engine died: ' + log[-300:], 'violations': []}


def check(pid, tier, bless=False):
    feature = pid.lower()
    props = {}
    for line in open(V + '/properties.jsonl'):
        if line.strip():
            p = json.loads(line)
            props[p['id']] = p
    known = json.load(open(V + '/known_findings.json'))['findings'] if os.path.exists(V + '/known_findings.json') else []
    known = [k for k in known if k['property'] == pid]
    build_tools()
    tmp = f'{B}/run-{pid}-{os.getpid()}'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    with open(os.path.join(B, 'cargo.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ll0 = build_ir(feature)
        ll = tmp + '/module.ll'
        shutil.copy(ll0, ll)
    es = entries(feature, tier)
    if not es:
        fail('no entries for ' + pid)
    tb = time.time() - T0
    budget = 780 if tier == 'quick' else 3400
    deadline = T0 + budget
    qtime = 60000 if tier == 'quick' else 300000
    # longest first
    es.sort(key=lambda m: -float(m.get('time', 60)))
    with ThreadPoolExecutor(max_workers=int(os.environ.get('SYM_JOBS', '7'))) as ex:
        res = list(ex.map(lambda m: run_entry(ll, m, deadline, tmp, qtime), es))
    for m, r in zip(es, res):
        r['meta'] = m
    # native module: validate sampled paths and replay counterexamples
    names = [m['name'] for m in es]
    exe, err = native(ll, names, f'{pid}-{os.getpid()}')
    problems, viol, knownhit, validated, mismatched = [], [], [], 0, []
    incomplete = []
    if exe is None:
        problems.append('native replay build failed: ' + err[-400:])
    rdir = f'{B}/replay/{pid}'
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    base = json.load(open(V + '/vacuity.json')) if os.path.exists(V + '/vacuity.json') else {}
    for r in res:
        name = r['entry']
        bad_here = False
        done = {}
        for v in r.get('violations', []):
            key = (v['kind'] == 'panic', v['id'])
            if done.get(key):
                continue
            k = next((k for k in known if k['entry'] == name and k['id'] == v['id']), None)
            how = ('none', 0)
            if exe:
                how = run_native(exe, name, v['inputs'])
            want = (how[0] == 'assert' and v['kind'] == 'assert' and how[1] == v['id']) or \
                   (v['kind'] == 'panic' and (how[0] in ('panic', 'hang') or how[0].startswith('signal')))
            if not want:
                done.setdefault(key, False)
                mismatched.append(f'{name}: counterexample {v["kind"]} {v["id"]} {v["msg"]} inputs {v["inputs"]} gives {how} natively')
                continue
            done[key] = True
            bad_here = True
            if k:
                knownhit.append((k, v))
                continue
            n = len(viol)
            script = f'{rdir}/{name}-{v["id"]}-{v["kind"]}.json'
            what = meta_text(r['meta'], v['id'])
            json.dump({'property': pid, 'entry': name, 'assertion': v['id'], 'kind': v['kind'], 'message': v['msg'], 'says': what,
                       'inputs': v['inputs'], 'widths': v['widths'], 'native': list(how), 'trace': v['trace'],
                       'replay': f'{exe} {name} ' + ' '.join(map(str, v['inputs']))}, open(script, 'w'), indent=1)
            viol.append((name, v, script, what))
        # a counterexample that does not reproduce makes the entry inconclusive
        if any(not x for x in done.values()) and not any(done.values()):
            incomplete.append(f'{name}: counterexample does not reproduce')
        if r['status'] == 'inconclusive' or (r['status'] == 'violation' and r.get('why')):
            (incomplete if r.get('paths') else problems).append(f'{name}: {r.get("why")}')
        if r['status'] == 'ok' or bad_here:
            for s in r.get('samples', [])[:6]:
                if not exe:
                    break
                how = run_native(exe, name, s)
                if how[0] in ('ok', 'panic-allowed'):
                    validated += 1
                else:
                    problems.append(f'{name}: sampled path {s} gives {how} natively')
        want = base.get(name)
        if want and not bless:
            got = {'a': set(r.get('asserted', {})), 'r': set(r.get('reached', {}))}
            miss = [('assertion', x) for x in want['a'] if x not in got['a']] + [('reach', x) for x in want['r'] if x not in got['r']]
            if miss and r['status'] == 'ok':
                problems.append(f'{name}: vacuous, never evaluated: {miss}')
        elif not bless and not want:
            problems.append(f'{name}: no vacuity baseline')
    incomplete += mismatched
    # parts that were not decided are named on stdout and in the evidence; the check gives no answer when they dominate
    nbad = len({p.split(':')[0] for p in incomplete})
    if incomplete and nbad * 2 > len(res):
        problems += [f'{nbad} of {len(res)} entries not decided']
    if bless:
        for r in res:
            base[r['entry']] = {'a': sorted(r.get('asserted', {}), key=int), 'r': sorted(r.get('reached', {}), key=int)}
        json.dump(base, open(V + '/vacuity.json', 'w'), indent=0, sort_keys=True)
    tot = lambda k: sum(r.get(k, 0) for r in res)
    fns = sorted({f for r in res for f in r.get('functions', [])})
    own = [f for f in fns if f.startswith(('sail_', 'h_')) or 'sail_' in f]
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'explanation': 'Symbolic execution of the LLVM IR that rustc generates from the current source of /repo and its dependencies; '
                           'states are completed symbolic paths plus merge points, transitions are interpreted LLVM instructions; every assertion and '
                           'every panic site on a path is a solver query over all inputs within the stated bounds.',
            'states': tot('paths') + tot('merges') + tot('cut'), 'transitions': tot('steps'),
            'traces_validated_against_impl': validated,
            'paths': tot('paths'), 'merges': tot('merges'), 'excluded_by_assumption': tot('cut'), 'allowed_panics': tot('panics_allowed'),
            'assertions_evaluated': tot('checks'), 'solver_queries': tot('queries'), 'sat': tot('sat'), 'unsat': tot('unsat'),
            'unknown': tot('unknown'), 'second_solver_queries': tot('fallback'),
            'solver_seconds': round(tot('solver_seconds'), 2), 'slowest_query_s': max([r.get('slowest_query', 0) for r in res] + [0]),
            'solvers': 'Z3 ' + next((r['solver'] for r in res if r.get('solver')), '?') + ' (bit-vectors, floating point); cvc5 and Z3 on the bit-vector formula and on its exact integer lowering when that gives up',
            'entries': [{'entry': r['entry'], 'status': r['status'], 'bound': r['meta'].get('bound', ''), 'says': r['meta'].get('says', ''), 'paths': r.get('paths', 0), 'instructions': r.get('steps', 0),
                         'queries': r.get('queries', 0), 'seconds': r.get('seconds', 0), 'assertions': r.get('asserted', {}), 'reached': r.get('reached', {})} for r in res],
            'functions_encoded': len(fns), 'functions': own[:300],
            'samples': [{'entry': r['entry'], 'inputs': s} for r in res for s in r.get('samples', [])[:1]][:20],
            'build_s': round(tb, 1),
        },
        'assumptions': sorted({n for r in res for n in r.get('notes', [])}) + [
            'no input outside the stated bounds; one thread; allocation never fails; hash seeds fixed; environment: no files, no environment variables',
            'trusted: rustc and LLVM up to optimized IR, the symbolic executor (its paths are replayed natively on sampled models), Z3/cvc5'],
        'wall_s': round(time.time() - T0, 1), 'violations': len(viol),
    }
    ev['coverage']['known_findings'] = sorted({k['what'] for k, _ in knownhit})
    ev['coverage']['problems'] = problems
    ev['coverage']['not_decided'] = incomplete
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    for r in sorted(res, key=lambda r: -r.get('seconds', 0)):
        print(f'{r["entry"]}: {r["status"]} paths={r.get("paths")} checks={r.get("checks")} queries={r.get("queries")} {r.get("seconds", 0):.1f}s {r.get("why", "")[:300]}')
    seen = set()
    for k, v in knownhit:
        if (k['entry'], k['id']) not in seen:
            seen.add((k['entry'], k['id']))
            print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    for p in incomplete[:20]:
        print('NOT-DECIDED:', p[:600])
    for p in problems[:20]:
        print('PROBLEM:', p[:600])
    for name, v, script, what in viol:
        print(f'  {name} assertion {v["id"]} ({v["kind"]}: {v["msg"]}) {what} inputs={v["inputs"]}')
    if not viol and exe:
        shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
    if viol:
        print(f'VIOLATION property={pid} replay={viol[0][2]}')
        return 1
    print(f'{pid} {tier}: {len(res)} entries, build {tb:.0f}s, total {time.time() - T0:.0f}s, {len(incomplete)} not decided, {len(problems)} problems')
    return 2 if problems else 0


def meta_text(meta, i):
    return meta.get(f'a{i}', meta.get('says', ''))


def setup():
    build_tools()
    feats = sys.argv[2:] or SETUP_FEATURES
    print('tools', round(time.time() - T0))
    build_ir(feats[0])
    print('harness', round(time.time() - T0))


if __name__ == '__main__':
    c = sys.argv[1]
    if c == 'setup':
        setup()
    elif c == 'bless':
        sys.exit(check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else 'thorough', True))
    else:
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
        sys.exit(check(c, tier))
