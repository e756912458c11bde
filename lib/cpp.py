"""C++ checks: compile the real sources to LLVM IR, run symex, replay natively."""
import glob, json, os, re, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from common import *

LL = '/usr/lib/llvm-20'
CXX = LL + '/bin/clang++'
NCXX = '/usr/lib/llvm-18/bin/clang++'  # has an ASan runtime; used for native replay builds
CC = LL + '/bin/clang'
ENG = os.path.join(VERIF, 'engine')
DEFS = ['-DIWYU_GIT_REV="verif"', '-DIWYU_RESOURCE_BINARY_PATH="/usr/lib/llvm-20/bin/clang-20"', '-DIWYU_RESOURCE_DIR=""',
        '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS']
INC = ['-I' + ENG, '-I' + os.path.join(VERIF, 'harness'), '-I' + REPO, '-I' + LL + '/include']
SYMFLAGS = ['-std=c++17', '-O1', '-DNDEBUG', '-DVP_SYMBOLIC=1', '-fno-exceptions', '-include', ENG + '/prelude.h', '-U_FORTIFY_SOURCE', '-w',
            '-fno-threadsafe-statics', '-fno-pic', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize', '-emit-llvm', '-c']
NATFLAGS = ['-std=c++17', '-O1', '-DNDEBUG', '-fno-exceptions', '-w', '-fsanitize=address', '-g0', '-c']


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout


def _srchash():
    """Hash of everything a harness can include."""
    fs = sorted(glob.glob(REPO + '/*.h') + glob.glob(REPO + '/*.cc') + glob.glob(VERIF + '/harness/*.h') +
                glob.glob(VERIF + '/harness/*.inc') + glob.glob(ENG + '/*'))
    return sha(*[read(f) for f in fs if os.path.isfile(f)])


_SRCH = None


def compile_one(src, flags, out_ext, compiler=CXX, extra=()):
    global _SRCH
    if _SRCH is None:
        _SRCH = _srchash()
    os.makedirs(BUILD + '/obj', exist_ok=True)
    cmd = [compiler] + list(flags) + DEFS + list(extra) + INC
    key = sha(_SRCH, read(src), src, ' '.join(cmd))
    out = '%s/obj/%s-%s%s' % (BUILD, os.path.basename(src).replace('.', '_'), key, out_ext)
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid() + '.%d' % threading.get_ident()
        _run(cmd + [src, '-o', tmp])
        os.rename(tmp, out)
    return out


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    key = sha(*[read(ENG + '/' + f) for f in ('symex.cpp', 'expr.h', 'interp.inc')])
    out = '%s/symex-%s' % (BUILD, key)
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        _run([CXX, '-std=c++17', '-O2', '-fno-rtti', '-w', '-I' + LL + '/include', ENG + '/symex.cpp', '-o', tmp,
              '-L' + LL + '/lib', '-lLLVM-20', '-lz3', '-Wl,-rpath,' + LL + '/lib'])
        os.rename(tmp, out)
    return out


def build_all(harness, repo_tus, extra=(), sym_extra=(), sym_skip=()):
    """Returns (engine, [bitcode], native executable).  Everything in parallel."""
    with ThreadPoolExecutor(NCPU) as ex:
        fe = ex.submit(build_engine)
        fb = [ex.submit(compile_one, VERIF + '/harness/' + h, SYMFLAGS + list(extra) + list(sym_extra), '.bc') for h in harness]
        fb += [ex.submit(compile_one, REPO + '/' + t, SYMFLAGS + list(extra) + list(sym_extra), '.bc') for t in repo_tus if t not in sym_skip]
        fb.append(ex.submit(compile_one, ENG + '/rt_sym.cpp', SYMFLAGS + ['-fno-builtin'], '.bc'))
        fb.append(ex.submit(compile_one, ENG + '/rt_llvm.cpp', SYMFLAGS, '.bc'))
        fb.append(ex.submit(compile_one, ENG + '/rt_libc.c', ['-O1', '-fno-builtin', '-w', '-fno-vectorize', '-emit-llvm', '-c'], '.bc', CC))
        fn = [ex.submit(compile_one, VERIF + '/harness/' + h, NATFLAGS + list(extra), '.o', NCXX) for h in harness]
        fn += [ex.submit(compile_one, REPO + '/' + t, NATFLAGS + list(extra), '.o', NCXX) for t in repo_tus]
        fn.append(ex.submit(compile_one, ENG + '/rt_native.cpp', NATFLAGS, '.o', NCXX))
        bcs = [f.result() for f in fb]
        objs = [f.result() for f in fn]
        exe = '%s/native-%s' % (BUILD, sha(*objs))
        if not os.path.exists(exe):
            tmp = exe + '.tmp%d' % os.getpid()
            _run([NCXX, '-fsanitize=address', '-rdynamic'] + objs + ['-o', tmp, '-L' + LL + '/lib', '-lLLVM-20', LL + '/lib/libclang-cpp.so.20.1', '-ldl',
                  '-Wl,-rpath,' + LL + '/lib', '-Wl,--allow-multiple-definition', '-Wl,--unresolved-symbols=ignore-all'])
            os.rename(tmp, exe)
        return fe.result(), bcs, exe


def replay(exe, cases):
    """cases: [(entry, params, inputs)] -> list of {'out':[(n,v)],'fail':[...],'cov':set,'exit':str}"""
    k = max(1, (len(cases) + NCPU - 1) // NCPU)
    parts = [cases[i:i + k] for i in range(0, len(cases), k)]
    with ThreadPoolExecutor(NCPU) as ex:
        return [r for rs in ex.map(lambda c: replay1(exe, c), parts) for r in rs]


def replay1(exe, cases):
    os.makedirs(BUILD, exist_ok=True)
    fd, path = tempfile.mkstemp(dir=BUILD, suffix='.case')
    with os.fdopen(fd, 'w') as f:
        for entry, params, ins in cases:
            f.write('case %s\n' % entry)
            for k, v in params.items():
                f.write('param %s %d\n' % (k, v))
            for k, v in ins:
                f.write('in %s %d\n' % (k, v))
            f.write('end\n')
    p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=60 + 25 * len(cases), cwd='/usr')
    os.unlink(path)
    res = []
    for line in p.stdout.split('\n'):
        w = line.split(' ', 1)
        if w[0] == 'case' and len(w) == 2:
            res.append({'out': [], 'fail': [], 'cov': set(), 'exit': '', 'missing': 0})
        elif not res:
            continue
        elif w[0] == 'out':
            n, _, v = w[1].partition(' ')
            res[-1]['out'].append([n, v])
        elif w[0] == 'assert-fail':
            res[-1]['fail'].append(w[1])
        elif w[0] == 'cover':
            res[-1]['cov'].add(w[1])
        elif w[0] == 'exit' and not res[-1]['exit']:
            res[-1]['exit'] = w[1]
        elif w[0] == 'missing-input':
            res[-1]['missing'] += 1
    return res


def showin(ins):
    """Readable rendering of recorded inputs: groups characters into strings."""
    groups, order = {}, []
    for n, v in ins:
        b = n.rsplit('#', 1)[0]
        if b not in groups:
            groups[b] = []
            order.append(b)
        groups[b].append(v)
    r = []
    for b in order:
        v = groups[b]
        if b.endswith('.len') or not all(9 <= x < 256 for x in v) or b.startswith('n_'):
            r.append('%s=%s' % (b, ','.join(map(str, v))))
        else:
            r.append('%s=%r' % (b, ''.join(map(chr, v))))
    return ' '.join(r)


def check(prop, harness, repo_tus, jobs, must_cover=(), bounds='', outside='', stubs=(), assumptions=(), extra=(), sym_extra=(), sym_skip=(),
          extra_params=None):
    """jobs: list of dicts entry, params, (thorough: params overriding), time, tiers."""
    rep = Report(prop)
    rep.assumptions = list(assumptions)
    try:
        eng, bcs, exe = build_all(harness, repo_tus, extra, sym_extra, sym_skip)
    except BuildError as e:
        rep.problems.append('harness does not build against the current sources: ' + str(e)[-3000:])
        rep.coverage = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        rep.finish()
    tbuild = time.time() - T0
    dbg = os.environ.get('VP_DEBUG')
    js = []
    for j in jobs:
        if TIER not in j.get('tiers', ('quick', 'thorough')):
            continue
        p = dict(j.get('params', {}))
        if TIER == 'thorough':
            p.update(j.get('thorough', {}))
        if os.environ.get('VP_ENTRY') and j['entry'] not in os.environ['VP_ENTRY'].split(','):
            continue
        js.append((j['entry'], p, j.get('time', 300 if TIER == 'quick' else 1500), j.get('steps', 20000000)))
    tmpd = tempfile.mkdtemp(dir=BUILD)

    def one(ij):
        i, (entry, p, tmax, steps) = ij
        o = '%s/%d.json' % (tmpd, i)
        cmd = [eng, '-entry', entry, '-o', o, '-max-time', str(tmax), '-max-steps', str(steps), '-seed', str(SEED + i), '-witnesses', '24' if TIER == 'quick' else '100']
        for k, v in p.items():
            cmd += ['-param', '%s=%d' % (k, v)]
        r = subprocess.run(cmd + bcs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if not os.path.exists(o):
            return {'crash': r.stdout[-2000:] + ' rc=%d' % r.returncode}
        d = json.load(open(o))
        d['log'] = r.stdout[-3000:]
        return d
    with ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(one, enumerate(js)))
    subprocess.run(['rm', '-rf', tmpd])
    tot = {k: 0 for k in ('paths', 'forks', 'steps', 'asserts', 'assert_queries', 'aborts', 'queries', 'z3_calls', 'cache_hits', 'tables', 'z3_time', 'unknowns', 'unsupported')}
    covers, funcs, samples, joblog = {}, set(), [], []
    validated = 0
    exhaustive = True
    for (entry, p, tmax, steps), d in zip(js, results):
        if 'crash' in d:
            rep.problems.append('engine failed on %s: %s' % (entry, d['crash']))
            continue
        if dbg:
            print(entry, p, {k: d[k] for k in ('complete', 'timed_out', 'pending', 'paths', 'forks', 'steps', 'asserts', 'assert_queries', 'aborts', 'assumed_away', 'queries', 'z3_calls', 'z3_time', 'wall_s', 'vars')}, d['unsup_what'], d['covers'], d['log'])
        for k in tot:
            tot[k] += d[k]
        for k, v in d['covers'].items():
            covers[k] = covers.get(k, 0) + v
        for f in d['functions']:
            if 'include_what_you_use' in f and not f.startswith('std::'):
                funcs.add(re.sub(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string', f)[:140])
        if not d['complete']:
            exhaustive = False
        joblog.append({'entry': entry, 'params': p, 'paths': d['paths'], 'complete': d['complete'], 'wall_s': d['wall_s'], 'unsupported': d['unsup_what']})
        # confirmed counterexamples
        vs = d['violations']
        if vs:
            res = replay(exe, [(entry, p, v['in']) for v in vs])
            unconf = {}
            for v, r in zip(vs, res):
                key = v['kind'] + ':' + v['msg']
                if v['kind'] == 'assert':
                    ok = bool(r['fail'])
                    title = '%s: %s' % (entry, r['fail'][0] if r['fail'] else v['msg'])
                else:
                    ok = bool(r['fail']) or r['exit'].startswith('signal') or r['exit'].startswith('status')
                    title = '%s: %s (%s)' % (entry, v['msg'], r['exit'])
                if ok:
                    rep.violation(title, {'entry': entry, 'params': p, 'inputs': showin(v['in']), 'raw': v['in'], 'where': v['where'], 'native': r['exit'] + ' ' + ' '.join(r['fail'])})
                    unconf[key] = False
                else:
                    unconf.setdefault(key, (v, r))
            for key, x in unconf.items():
                if x:
                    rep.problems.append('counterexample not reproduced natively: %s %s at %s native=%s/%s' % (entry, key + ' ' + showin(x[0]['in']), x[0]['where'], x[1]['exit'], x[1]['fail']))
        # incomplete paths: run their witnesses natively
        inc = d['incomplete']
        if inc:
            res = replay(exe, [(entry, p, v['in']) for v in inc])
            for v, r in zip(inc, res):
                if v['kind'] == 'steplimit' and r['exit'].startswith('signal') and not r['missing']:
                    rep.violation('%s: the operation does not end' % entry, {'entry': entry, 'params': p, 'inputs': showin(v['in']), 'raw': v['in'], 'native': r['exit'], 'note': 'the path exceeds the step limit symbolically and the time or memory limit natively'})
                elif r['fail'] and not r['missing']:
                    rep.violation('%s: %s' % (entry, r['fail'][0]), {'entry': entry, 'params': p, 'inputs': showin(v['in']), 'note': 'path left the modelled subset (%s); witness fails natively' % v['msg']})
        # witness validation
        ws = [w for w in d['witnesses'] if w['kind'] in ('ok', 'abort')]
        if ws:
            res = replay(exe, [(entry, p, w['in']) for w in ws])
            for w, r in zip(ws, res):
                exp_ok = w['kind'] == 'ok'
                good = r['out'] == w['out'] and r['cov'] == set(w['cov']) and not r['fail'] and not r['missing']
                good = good and (r['exit'] == 'ok' if exp_ok else r['exit'].startswith(('signal-6', 'status')))
                if good:
                    validated += 1
                    if len(samples) < 12 and w['cov'] and validated % 5 == 1:
                        samples.append({'entry': entry, 'inputs': showin(w['in'])[:400], 'outputs': w['out'][:6]})
                elif r['fail']:
                    rep.violation('%s: %s' % (entry, r['fail'][0]), {'entry': entry, 'params': p, 'inputs': showin(w['in']), 'note': 'path witness fails natively'})
                else:
                    rep.problems.append('engine and native run disagree: %s %s in=%s exp=%s %s cov=%s got=%s %s cov=%s missing=%d' % (entry, p, showin(w['in']), w['kind'], w['out'], w['cov'], r['exit'], r['out'], sorted(r['cov']), r['missing']))
    missing = [c for c in must_cover if not covers.get(c)]
    if missing and not rep.violations and not os.environ.get('VP_ENTRY'):
        rep.problems.append('vacuity: never reached: %s' % ', '.join(missing))
    if not samples:
        samples = [{'entry': e[0], 'params': e[1]} for e in js[:3]]
    rep.coverage = {
        'states': tot['paths'], 'transitions': tot['steps'], 'traces_validated_against_impl': validated, 'samples': samples,
        'exhaustive': exhaustive, 'branch_forks': tot['forks'], 'assertions_reached': tot['asserts'], 'assertion_queries': tot['assert_queries'],
        'solver_queries': tot['queries'], 'z3_calls': tot['z3_calls'], 'query_cache_hits': tot['cache_hits'], 'truth_tables': tot['tables'],
        'solver_time_s': round(tot['z3_time'], 2), 'solver_unknown': tot['unknowns'], 'paths_left_modelled_subset': tot['unsupported'],
        'functions_encoded': sorted(funcs), 'bounds': bounds, 'outside_the_claim': outside, 'stubs': list(stubs),
        'reachability_witnesses': covers, 'jobs': joblog, 'build_s': round(tbuild, 1),
    }
    rep.finish()
