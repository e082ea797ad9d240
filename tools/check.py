#!/usr/bin/env python3
"""Runs the check of one property: builds the engine and the harness from /repo's working tree, executes
the harness symbolically, replays counterexamples and sampled paths natively, writes the evidence."""
import json, os, subprocess, sys, threading, time, glob, hashlib, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from plan import PLAN, CRATES
T = os.path.join(V, 'target')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_INCREMENTAL'): ENV.pop(k, None)

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=ENV, **kw)
class Broken(Exception): pass
class Rejected(Exception): pass

def build_engine():
    r = sh(['cargo', 'build', '--release', '--offline', '--target-dir', f'{T}/engine'], cwd=f'{V}/engine')
    if r.returncode: raise Broken('engine build failed:\n' + r.stdout[-3000:])

def prepare(crate):
    """generated inputs of the build"""
    for cmd in CRATES[crate].get('prepare', []):
        r = sh(['bash', '-c', cmd], cwd=V)
        if r.returncode: raise Broken(f'{cmd} failed:\n{r.stdout[-3000:]}')

def build_js(crate):
    """the generated client is printed by a program; the text is what gets executed symbolically"""
    td = f'{T}/{crate}'
    r = sh(['cargo', 'build', '--offline', '--target-dir', td], cwd=f'{V}/harness/{crate}')
    if r.returncode: raise Rejected(r.stdout)
    r = subprocess.run([f'{td}/debug/{crate}'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
    if r.returncode: raise Broken(f'{crate} failed: ' + r.stderr[-2000:])
    open(f'{td}/client.ts', 'w').write(r.stdout)

def build_harness(crate):
    if 'js' in CRATES[crate]: return build_js(crate)
    prepare(crate)
    d, td = f'{V}/{CRATES[crate].get("dir", "harness/" + crate)}', f'{T}/{crate}'
    for f in glob.glob(f'{td}/debug/deps/*.lto.input.bc'): os.remove(f)
    # the last step must run again, or no bitcode is left behind
    for f in glob.glob(f'{td}/debug/deps/{crate}-*') + glob.glob(f'{td}/debug/.fingerprint/{crate}-*'):
        shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
    env = dict(ENV, **CRATES[crate].get('env', {}))
    r = subprocess.run(['cargo', 'rustc', '--offline', '--target-dir', td, '--', '-Csave-temps', '-Cno-vectorize-loops', '-Cno-vectorize-slp'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env)
    if r.returncode: raise Rejected(r.stdout)
    bcs = glob.glob(f'{td}/debug/deps/{crate}-*.lto.input.bc')
    if len(bcs) != 1: raise Broken(f'{len(bcs)} bitcode files for {crate}')
    root = sh(['rustc', '--print', 'sysroot']).stdout.strip()
    r = sh([f'{root}/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt', '-passes=internalize,globaldce', '--internalize-public-api-list=main,' + ','.join(CRATES[crate]['entries'](V)), bcs[0], '-o', f'{td}/h.bc'])
    if r.returncode: raise Broken('opt failed: ' + r.stdout[-2000:])
    # keep the executable where a later build does not replace it while it is replayed
    shutil.copy(f'{td}/debug/{crate}', f'{td}/native')

def native(crate, entry, params, data, obs=None, timeout=60):
    f = f'{T}/{crate}/in-{os.getpid()}'
    with open(f, 'wb') as h: h.write(data)
    env = dict(ENV, ZSYM_ENTRY=entry, ZSYM_INPUT=f, ZSYM_PARAMS=','.join(map(str, params)), RUST_BACKTRACE='0')
    if obs: env['ZSYM_OBS'] = obs
    cmd = [f'{T}/{crate}/native']
    if 'js' in CRATES[crate]: cmd = ['node', f'{V}/js/main.js', '--replay', f'{T}/{crate}/client.ts', CRATES[crate]['js'], entry, f] + [str(x) for x in params]
    try:
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired: return 'timeout', ''
    finally: os.remove(f)

def known():
    out = []
    p = f'{V}/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                # finding: property=<id> entry=<entry> message=<text>
                d = {}
                l = l[len('finding: '):]
                l, _, d['message'] = l.partition(' message=')
                for x in l.split(): k, _, v = x.partition('='); d[k] = v
                out.append(d)
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(f'{V}/evidence', exist_ok=True); os.makedirs(T, exist_ok=True)
    p = PLAN[prop]
    runs = p['runs'] + (p.get('more', []) if tier == 'thorough' else [])
    if tier == 'thorough': runs = [r for r in runs if not r.get('quick_only')]
    only = os.environ.get('ZSYM_ONLY')
    if only: runs = [r for r in runs if r['entry'] == only]
    errs = []
    def eng():
        try: build_engine()
        except Exception as e: errs.append(e)
    th = threading.Thread(target=eng); th.start()
    rejected = {}
    for c in sorted({r['crate'] for r in runs}):
        try: build_harness(c)
        except Rejected as e: rejected[c] = str(e)
        except Exception as e: errs.append(e)
    th.join()
    violations, problems, seen_known, left_out = [], [str(e) for e in errs], {}, []
    for c, log in rejected.items():
        v = p['on_reject'](c, log) if 'on_reject' in p else None
        if v:
            path = f'{V}/evidence/replay-{prop}.txt'
            open(path, 'w').write(log)
            violations.append((path, v))
        elif all(r.get('optional') for r in runs if r['crate'] == c): left_out.append(f'harness {c} does not build: {log[-1000:]}')
        else: problems.append(f'harness {c} does not build:\n{log[-6000:]}')
    build_s = time.time() - t0
    tot = dict(paths=0, forks=0, steps=0, asserts=0, asserts_symbolic=0, queries=0, sat=0, unsat=0, unknown=0, domain_decisions=0, solver_seconds=0.0)
    replayed, samples, detail, functions = 0, [], [], {}
    if not problems:
        for r in runs:
            c, entry, params = r['crate'], r['entry'], r.get('params', [])
            if c in rejected: continue
            out = f'{T}/{c}/{prop}-{entry}.json'
            if os.path.exists(out): os.remove(out)
            cmd = [f'{T}/engine/release/zsym', '--bc', f'{T}/{c}/h.bc', '--entry', entry, '--out', out, '--jobs', str(os.cpu_count() or 8), '--secs', str(r.get('secs', 400 if tier == 'quick' else 3000)), '--timeout', str(r.get('timeout', 60000)), '--max-paths', str(r.get('max_paths', 20000000)), '--samples', '4']
            for x in params: cmd += ['--param', str(x)]
            if 'max_steps' in r: cmd += ['--max-steps', str(r['max_steps'])]
            if 'js' in CRATES[c]: cmd = ['node', f'{V}/js/main.js', f'{T}/{c}/client.ts', CRATES[c]['js'], entry, out] + [str(x) for x in params]
            g = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=dict(ENV, JSYM_SECS=str(r.get('secs', 400 if tier == 'quick' else 3000))))
            name = entry + '(' + ','.join(map(str, params)) + ')'
            if not os.path.exists(out): problems.append(f'{name}: no result\n{g.stdout[-2000:]}'); continue
            d = json.load(open(out))
            for k in tot: tot[k] += d[k]
            for f, n in d['functions'].items(): functions[f] = functions.get(f, 0) + n
            for e in sorted(set(d['errors']))[:5]: (left_out if r.get('optional') and e.startswith('not supported by the check') else problems).append(f'{name}: {e}')
            mine = []
            for v in d['violations']:
                code, err = native(c, entry, params, bytes.fromhex(v['input']))
                if code == 77 or (isinstance(code, int) and code < 0) or code == 'timeout' and 'deep' in v['msg']:
                    msg = [l[len('ZSYM-VIOLATION '):] for l in err.splitlines() if l.startswith('ZSYM-VIOLATION ')]
                    msg = msg[0] if msg else v['msg'] + ' / ' + ' '.join(err.split())[:300]
                    k = next((k for k in known() if k.get('property') == prop and k.get('entry') == entry and k['message'] in msg), None)
                    if k: seen_known[k['message']] = k; mine.append('known'); continue
                    h = hashlib.sha1((entry + v['input'] + str(params)).encode()).hexdigest()[:10]
                    path = f'{V}/evidence/replay-{prop}-{h}.json'
                    json.dump(dict(property=prop, crate=c, entry=entry, params=params, input_hex=v['input'], message=msg, stack=v['stack'], replay=f"node {V}/js/main.js --replay {T}/{c}/client.ts {CRATES[c]['js']} {entry} INPUT {' '.join(map(str, params))} (INPUT: a file with {bytes.fromhex(v['input']).decode()})" if 'js' in CRATES[c] else f"printf '{v['input']}' | xxd -r -p > /tmp/i; ZSYM_ENTRY={entry} ZSYM_PARAMS={','.join(map(str, params))} ZSYM_INPUT=/tmp/i {T}/{c}/native"), open(path, 'w'), indent=1)
                    violations.append((path, f'{name}: {msg}')); mine.append('new')
                else: problems.append(f'{name}: counterexample {v["input"]} ({v["msg"]}) does not reproduce: native exit {code} {err[-300:]}')
            for s in d['samples']:
                of = f'{T}/{c}/obs-{os.getpid()}'
                code, err = native(c, entry, params, bytes.fromhex(s['input']), of)
                o = open(of, 'rb').read().hex() if os.path.exists(of) else ''
                if os.path.exists(of): os.remove(of)
                if code != 0 or o != s.get('obs', ''): problems.append(f'{name}: sampled path {s["input"]} differs natively (exit {code} {err[-200:]})')
                replayed += 1
                if len(samples) < 12: samples.append(dict(entry=name, input_hex=s['input'][:400], observed=bytes.fromhex(s.get('obs', '')).decode('utf8', 'replace')[:600]))
            miss = [x for x in r.get('covers', []) if not d['covers'].get(str(x))]
            if miss and not mine and not left_out: problems.append(f'{name}: cover points {miss} were not reached')
            if not d['paths'] and not mine and not left_out: problems.append(f'{name}: no path was completed')
            detail.append(dict(run=name, bound=r.get('bound', ''), paths=d['paths'], forks=d['forks'], assertions=d['asserts'], symbolic_assertions=d['asserts_symbolic'], queries=d['queries'], sat=d['sat'], unsat=d['unsat'], unknown=d['unknown'], solver_s=round(d['solver_seconds'], 3), max_query_s=round(d['max_query_seconds'], 3), symbolic_bytes=d['max_vars'], wall_s=round(d['wall_seconds'], 2), covers=d['covers'], ended=d['ended']))
            if violations and os.environ.get('ZSYM_ALL') is None: break
    # functions of the code under test that were executed
    if any('js' in CRATES[r['crate']] for r in runs): zod = sorted(functions)
    else: zod = sorted(f for f in functions if f.startswith(('zod', '<zod')) or ' as zod' in f or 'zod_' in f or '/repo' in f)
    ev = dict(property=prop, tier=tier, seed=seed, level=p.get('level', 'model_checking'), coverage=dict(
        states=tot['paths'] + tot['forks'], transitions=tot['steps'], traces_validated_against_impl=replayed, samples=samples or ['none'],
        explanation=('symbolic execution of the TypeScript client the current /repo generates; states = completed paths + fork points, transitions = function calls along the paths; sampled paths were replayed without instrumentation and compared' if any('js' in CRATES[r['crate']] for r in runs) else 'symbolic execution of the LLVM IR rustc made from the current /repo; states = completed paths + fork points, transitions = instructions executed along the paths; sampled paths were replayed in the native build and compared'),
        paths=tot['paths'], assertions=tot['asserts'], assertions_over_symbolic_values=tot['asserts_symbolic'], solver_queries=tot['queries'], solver_sat=tot['sat'], solver_unsat=tot['unsat'], solver_unknown=tot['unknown'], decided_by_byte_domains=tot['domain_decisions'], solver_seconds=round(tot['solver_seconds'], 3),
        functions_executed=len(functions), functions_of_zod=zod[:200], runs=detail, bounds=p['bounds'], build_seconds=round(build_s, 1), inconclusive=problems[:20], left_out=left_out[:20],
        known_findings_seen=sorted(seen_known)),
        assumptions=p.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    for k in seen_known.values(): print(f'KNOWN-FINDING: property={prop} {k["message"]}')
    if violations:
        for path, msg in violations[:5]: print(f'VIOLATION property={prop} replay={path}'); print('  ' + msg[:500])
        sys.exit(1)
    if problems:
        print(f'INCONCLUSIVE property={prop}'); [print('  ' + x) for x in problems[:10]]
        sys.exit(2)
    print(f'OK property={prop} paths={tot["paths"]} assertions={tot["asserts"]} queries={tot["queries"]} solver={tot["solver_seconds"]:.1f}s replayed={replayed} wall={time.time() - t0:.0f}s')
main()
