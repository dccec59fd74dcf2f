#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]      decide one property against /repo's current working tree
   check.py --replay <file>                         re-run one recorded violation
   check.py --build-all                             compile every harness (no property is decided)

Exit 0: the property held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
PKGS = ['controller_manager', 'controller_interface', 'hardware_interface', 'combined_robot_hw', 'joint_limits_interface', 'transmission_interface']
ASAN = ['-O1', '-fsanitize=address']
ASUB = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
STUBS = [('V/stubs/cpp/ros_stub.cpp', ASAN), ('V/stubs/cpp/pluginlib_stub.cpp', ASAN)]

sys.path.insert(0, os.path.join(V, 'tools'))
from registry import HARNESSES, CHECKS  # noqa: E402


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def gen_msgs():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(R, 'controller_manager_msgs'))):
        for f in sorted(fs):
            if f.endswith(('.msg', '.srv')):
                h.update(f.encode()); h.update(open(os.path.join(d, f), 'rb').read())
    h.update(open(os.path.join(V, 'tools/gen_msgs.py'), 'rb').read()); h.update(R.encode())
    out = os.path.join(B, 'gen-' + h.hexdigest()[:16])
    if not os.path.isdir(out):
        tmp = out + '.%d' % os.getpid()
        r = sh([sys.executable, os.path.join(V, 'tools/gen_msgs.py'), R, tmp + '/cpp', tmp + '/py'])
        if r.returncode:
            raise Broken('message generation failed:\n' + r.stdout)
        try:
            os.rename(tmp, out)
        except OSError:
            pass
    return out


def path(p):
    return p.replace('V/', V + '/', 1) if p.startswith('V/') else p.replace('R/', R + '/', 1)


def compile_one(src, flags, inc):
    """Object file of one source; objects are reused only for identical preprocessed text and flags."""
    src = path(src)
    cmd = ['clang++', '-std=gnu++17', '-gline-tables-only', '-Wno-everything'] + flags + inc
    pre = subprocess.run(cmd + ['-E', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode:
        raise Broken('preprocessing %s failed:\n%s' % (src, pre.stderr.decode(errors='replace')[-4000:]))
    key = hashlib.sha256(repr(cmd).encode() + pre.stdout).hexdigest()[:24]
    obj = os.path.join(B, 'obj', key + '.o')
    if not os.path.exists(obj):
        tmp = obj + '.%d.tmp' % os.getpid()
        r = sh(cmd + ['-c', src, '-o', tmp])
        if r.returncode:
            raise Broken('compiling %s failed:\n%s' % (src, r.stdout[-4000:]))
        os.rename(tmp, obj)
    return obj


def build(name):
    h = HARNESSES[name]
    os.makedirs(os.path.join(B, 'obj'), exist_ok=True)
    gen = gen_msgs()
    if h.get('python'):
        return [sys.executable, path(h['python']), '--gen', gen + '/py', '--repo', R]
    inc = ['-include', 'prelude.h', '-I' + V + '/stubs/cpp', '-I' + gen + '/cpp'] + ['-I%s/%s/include' % (R, p) for p in PKGS]
    flagsets = {'asan': ASAN, 'asub': ASUB, 'plain': ['-O1']}
    jobs = []
    for src, fl in h['sources']:
        jobs.append((src, fl if isinstance(fl, list) else flagsets[fl]))
    for src in ('V/stubs/cpp/ros_stub.cpp', 'V/stubs/cpp/pluginlib_stub.cpp'):
        jobs.append((src, flagsets[h.get('stub_flags', 'asan')]))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], j[1], inc + h.get('inc', [])), jobs))
    link = ['clang++'] + h.get('link_flags', ['-fsanitize=address,undefined']) + objs
    exe = os.path.join(B, name + '-' + hashlib.sha256(repr(link).encode() + repr(h.get('libs')).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        r = sh(link + ['-o', tmp, '-lpthread'] + h.get('libs', []))
        if r.returncode:
            raise Broken('linking %s failed:\n%s' % (name, r.stdout[-4000:]))
        os.rename(tmp, exe)
    return [exe]


def env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:quarantine_size_mb=8:malloc_context_size=4:allocator_may_return_null=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    return e


def known_findings():
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) signature=(\S+) (.*)$', line.strip())
            if m:
                out.append(m.groups())
    return out


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = [k for k in known_findings() if k[0] == prop]
    results, violations, hits, logs = [], [], {}, []
    for name in CHECKS[prop]['harnesses']:
        exe = build(name)
        out = os.path.join(B, 'result-%s-%s-%d.json' % (prop, name, os.getpid()))
        cmd = exe + ['--prop', prop, '--tier', tier, '--hang', '20', '--out', out]
        for k in known:
            cmd += ['--known', k[1]]
        r = sh(cmd, env=env())
        if r.returncode not in (0, 1) or not os.path.exists(out):
            raise Broken('%s ended with %d:\n%s' % (name, r.returncode, r.stdout[-6000:]))
        d = json.load(open(out)); os.unlink(out)
        if d['error']:
            raise Broken('%s: %s' % (name, d['error']))
        d['harness'] = name
        results.append(d)
        for v in d['violations']:
            v['harness'] = name; violations.append(v)
        for k, n in d['known'].items():
            hits[k] = hits.get(k, 0) + n
        if violations:
            break
    if not violations and not sum(d['executions'] for d in results):
        raise Broken('nothing was explored')
    fams = [dict(f, harness=d['harness']) for d in results for f in d['families']]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': CHECKS[prop].get('level', 'model_checking'),
          'coverage': {
              'states': sum(d['states'] for d in results),
              'transitions': sum(d['transitions'] for d in results),
              'traces_validated_against_impl': sum(d['executions'] for d in results),
              'distinct_outcomes': sum(d['outcomes'] for d in results),
              'exhaustive': bool(fams) and all(f['complete'] for f in fams),
              'families': fams,
              'samples': [s for d in results for s in d['samples']][:8],
              'method': CHECKS[prop].get('method', 'every execution of the real code within the stated bounds, each step compared with a reference model'),
              'known_findings_hit': hits},
          'assumptions': CHECKS[prop].get('assumptions', []) + ['ROS (time, parameters, services, plugin loading, logging) is replaced by in-process stand-ins under /verif/stubs'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    c = ev['coverage']
    print('%s [%s] executions=%d states=%d transitions=%d outcomes=%d exhaustive=%s %.1fs' % (
        prop, tier, c['traces_validated_against_impl'], c['states'], c['transitions'], c['distinct_outcomes'], c['exhaustive'], ev['wall_s']))
    for p, sig, what in known:
        if sig in hits:
            print('KNOWN-FINDING: property=%s %s' % (p, what))
    if violations:
        v = violations[0]
        os.makedirs(os.path.join(V, 'replay'), exist_ok=True)
        rp = os.path.join(V, 'replay', '%s-%s.json' % (prop, re.sub(r'[^A-Za-z0-9_-]+', '_', v['signature'])[:60]))
        json.dump(dict(v, property=prop, tier=tier), open(rp, 'w'), indent=1)
        print('signature: %s\nmessage: %s' % (v['signature'], v['message'][:3000]))
        for line in v['trace'][-40:]:
            print('  ' + line)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


def replay(f):
    v = json.load(open(f))
    exe = build(v['harness'])
    r = subprocess.run(exe + ['--prop', v['property'], '--tier', v.get('tier', 'quick'), '--replay', v['family'], ','.join(map(str, v['choices']))], env=env())
    return r.returncode


def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in a:
        i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        if a[:1] == ['--replay']:
            return replay(a[1])
        if a[:1] == ['--build-all']:
            for n in HARNESSES:
                t = time.time(); build(n); print('%s built in %.1fs' % (n, time.time() - t))
            return 0
        if len(a) != 1 or a[0] not in CHECKS:
            print(__doc__); return 2
        return run(a[0], tier)
    except Broken as e:
        print('check.py: %s' % e, file=sys.stderr)
        return 2


if __name__ == '__main__':
    sys.exit(main())
