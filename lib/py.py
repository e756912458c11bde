"""Python checks: explore every path of the harness over the instrumented
current sources, decide assertions with Z3, replay on the plain modules."""
import contextlib, importlib.util, io, multiprocessing, os, random, signal, sys, time, traceback, types
from common import *
import pysym
from pysym import PathEnd, Unsupported, Violated, Budget, Failed

FILES = {'fixlib': VERIF + '/harness/fixlib.py', 'fix_includes': REPO + '/fix_includes.py', 'iwyu_tool': REPO + '/iwyu_tool.py'}
SYM, NAT = {}, {}
CFG = {}


def load_plain(path, name):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class NS:
    pass


def load(harness, modules):
    sym, nat = NS(), NS()
    for m in modules:
        setattr(sym, m, pysym.load_instrumented(FILES[m], m))
        setattr(nat, m, load_plain(FILES[m], 'plain_' + m))
    SYM['mods'], NAT['mods'] = sym, nat
    SYM['h'] = pysym.load_instrumented(VERIF + '/harness/' + harness, 'harness')
    NAT['h'] = load_plain(VERIF + '/harness/' + harness, 'plain_harness')


class Alarm(BaseException):
    pass


def _alarm(*a):
    raise Alarm()


def native(entry, params, inputs, tmax=20):
    """Run the harness on the plain modules.  -> dict(kind, msg, outs, covers)"""
    vp = pysym.ConcVP(inputs, params)
    r = {'kind': 'ok', 'msg': ''}
    saved = pysym.C
    pysym.C = None
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    signal.setitimer(signal.ITIMER_REAL, tmax)
    try:
        getattr(NAT['h'], entry)(vp, NAT['mods'])
    except PathEnd:
        r['kind'] = 'end'
    except Failed as e:
        r['kind'], r['msg'] = 'assert', str(e)
    except Alarm:
        r['kind'], r['msg'] = 'hang', 'no result within %d s' % tmax
    except SystemExit as e:
        r['kind'], r['msg'] = 'exception', 'SystemExit: %s' % e.code
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO)]
        r['kind'], r['msg'] = 'exception', type(e).__name__
        r['detail'] = '%s: %s at %s' % (type(e).__name__, e, ', '.join('%s:%d' % (f.name, f.lineno) for f in where[-3:]) or ', '.join('%s:%d' % (f.name, f.lineno) for f in tb[-2:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout, sys.stderr = old
        pysym.C = saved
    r['outs'], r['covers'], r['missing'] = vp.outs, vp.covers, vp.missing
    return r


def _inputs(p, model):
    r = []
    for n, k, v in p.inputs:
        if k == 'choice':
            r.append((n, k, v))
        elif k == 'int':
            r.append((n, k, model[v]))
        else:
            r.append((n, k, ''.join(chr(model[c]) for c in v)))
    return r


def run_path(entry, params, prefix, rnd, tmax, want_witness):
    p = pysym.Path(prefix, params)
    pysym.C = p
    pysym.OUT = pysym.Capture()
    pysym.ERR = pysym.Capture()
    res = {'kind': 'ok', 'msg': '', 'inputs': None}
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = pysym.OUT, pysym.ERR
    signal.setitimer(signal.ITIMER_REAL, tmax)
    try:
        getattr(SYM['h'], entry)(pysym.SymVP(), SYM['mods'])
        signal.setitimer(signal.ITIMER_REAL, 0)
    except PathEnd:
        res['kind'] = 'end'
    except Unsupported as e:
        res['kind'], res['msg'] = 'unsupported', str(e)
    except Violated as e:
        res['kind'], res['msg'] = 'assert', str(e)
    except Alarm:
        res['kind'], res['msg'] = 'hang', 'path took more than %d s' % tmax
    except SystemExit as e:
        res['kind'], res['msg'] = 'exception', 'SystemExit: %s' % (e.code,)
    except RecursionError as e:
        res['kind'], res['msg'] = 'exception', 'RecursionError'
    except Exception as e:
        res['kind'], res['msg'] = 'exception', type(e).__name__
        res['tb'] = traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout, sys.stderr = old
    if res['kind'] != 'end' and (want_witness or res['kind'] != 'ok'):
        try:
            m = p.final_model(rnd)
            res['inputs'] = _inputs(p, m)
            res['outs'] = [(n, pysym._fill(v, lambda x: m[x])) for n, v in p.outs]
        except PathEnd:
            if res['kind'] != 'ok':
                res['kind'] = 'end'
        except Unsupported as e:
            res['kind'], res['msg'] = 'unsupported', str(e)
    res['covers'] = p.covers
    res['pending'] = p.pending
    pysym.C = None
    return res


def task(args):
    """Explore from the given prefixes for a slice of time; returns what is left."""
    job, entry, params, prefixes, tslice, tpath, seed, every = args
    rnd = random.Random(seed * 1000003 + hash(str(prefixes[:1])) % 1000)
    st = pysym.STATS
    for k in vars(st):
        setattr(st, k, 0)
    pysym.FUNCS.clear()
    t0 = time.time()
    out = {'job': job, 'paths': 0, 'ended': 0, 'viol': [], 'unsup': [], 'covers': {}, 'samples': [], 'validated': 0, 'disagree': []}
    stack = list(prefixes)
    n = 0
    nv = {}
    while stack and (time.time() - t0 < tslice or n == 0):
        pf = stack.pop()
        n += 1
        r = run_path(entry, params, pf, rnd, tpath, n % every == 1 or every == 1)
        stack.extend(reversed(r['pending']))
        if r['kind'] == 'end':
            out['ended'] += 1
            continue
        out['paths'] += 1
        for c in r['covers']:
            out['covers'][c] = out['covers'].get(c, 0) + 1
        if r['kind'] == 'ok':
            if r['inputs'] is not None:
                w = native(entry, params, r['inputs'])
                symo = [(a, pysym._fill(b, None)) for a, b in r['outs']]
                if w['kind'] == 'ok' and w['outs'] == symo and w['covers'] == r['covers'] and not w['missing']:
                    out['validated'] += 1
                    if len(out['samples']) < 1 and r['covers']:
                        out['samples'].append({'entry': entry, 'inputs': show(r['inputs'])[:400], 'outputs': str(symo)[:300]})
                elif w['kind'] in ('assert', 'exception', 'hang'):
                    out['viol'].append(('native:' + w['kind'], w['msg'], r['inputs'], w.get('detail', ''), True))
                elif len(out['disagree']) < 3:
                    out['disagree'].append('%s in=%s exp=%s %s got=%s %s %s missing=%d' % (entry, show(r['inputs']), symo, sorted(r['covers']), w['kind'], w['outs'], sorted(w['covers']), w['missing']))
        elif r['kind'] == 'unsupported':
            if len(out['unsup']) < 3:
                out['unsup'].append((r['msg'], show(r['inputs']) if r['inputs'] else ''))
            if r['inputs'] is not None:
                w = native(entry, params, r['inputs'])
                if w['kind'] in ('assert', 'exception', 'hang'):
                    out['viol'].append(('native:' + w['kind'], w['msg'], r['inputs'], w.get('detail', ''), True))
        else:
            key = r['kind'] + r['msg']
            nv[key] = nv.get(key, 0) + 1
            if nv[key] <= 20 and r['inputs'] is not None:
                w = native(entry, params, r['inputs'])
                ok = w['kind'] == r['kind'] or (w['kind'] in ('assert', 'exception', 'hang') and r['kind'] != 'ok')
                out['viol'].append((r['kind'], r['msg'] if not ok or w['kind'] == r['kind'] else w['kind'] + ':' + w['msg'], r['inputs'], w.get('detail', '') or ('' if ok else 'native: %s %s %s' % (w['kind'], w['msg'], r.get('tb', ''))), ok))
            elif r['inputs'] is None:
                out['unsup'].append(('no model for ' + key, ''))
    out['left'] = stack
    out['stats'] = dict(vars(st))
    out['funcs'] = sorted(pysym.FUNCS)
    return out


def show(inputs):
    r = []
    for n, k, v in inputs:
        n = n[:-2] if n.endswith('#0') else n
        r.append('%s=%r' % (n, v))
    return ' '.join(r)


def _init():
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def check(prop, harness, modules, jobs, must_cover=(), bounds='', outside='', stubs=(), assumptions=(), finding_key=None):
    rep = Report(prop)
    rep.assumptions = list(assumptions)
    dbg = os.environ.get('VP_DEBUG')
    sys.setrecursionlimit(6000)
    try:
        load(harness, modules)
    except (Exception, Unsupported) as e:
        rep.problems.append('current sources cannot be loaded: %s' % traceback.format_exc()[-1500:])
        rep.coverage = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        rep.finish()
    tbuild = time.time() - T0
    js = []
    for j in jobs:
        if TIER not in j.get('tiers', ('quick', 'thorough')):
            continue
        if os.environ.get('VP_ENTRY') and j['entry'] not in os.environ['VP_ENTRY'].split(','):
            continue
        p = dict(j.get('params', {}))
        if TIER == 'thorough':
            p.update(j.get('thorough', {}))
        js.append({'entry': j['entry'], 'params': p, 'every': j.get('every', 1 if TIER == 'quick' else 5), 'paths': 0, 'covers': {}, 'unsup': [], 'open': 0, 't0': None, 'wall': 0.0})
    limit = float(os.environ.get('VP_LIMIT', 420 if TIER == 'quick' else 3600))
    ctx = multiprocessing.get_context('fork')
    tot = {}
    funcs, samples, disagree = set(), [], []
    viol = []
    validated = paths = ended = 0
    stop = False
    with ctx.Pool(NCPU, _init) as pool:
        pend = []
        for i, j in enumerate(js):
            pend.append((i, [[]]))
            j['open'] = 1
        running = []
        while (pend or running) and not stop:
            while pend and len(running) < NCPU * 2:
                i, pf = pend.pop(0)
                j = js[i]
                a = (i, j['entry'], j['params'], pf, 0.4 if j['paths'] < 200 else 3.0, 60, SEED, j['every'])
                running.append((i, pool.apply_async(task, (a,))))
            time.sleep(0.005)
            nxt = []
            for i, ar in running:
                if not ar.ready():
                    nxt.append((i, ar))
                    continue
                o = ar.get()
                j = js[i]
                j['open'] -= 1
                j['paths'] += o['paths']
                paths += o['paths']
                ended += o['ended']
                validated += o['validated']
                for c, k in o['covers'].items():
                    j['covers'][c] = j['covers'].get(c, 0) + k
                j['unsup'] += o['unsup'][:2]
                viol += [(j['entry'], j['params']) + v for v in o['viol']]
                disagree += o['disagree']
                funcs |= set(o['funcs'])
                if len(samples) < 12:
                    samples += o['samples']
                for k, v in o['stats'].items():
                    tot[k] = tot.get(k, 0) + v
                j['wall'] += 0
                left = o['left']
                if left:
                    # the oldest alternatives root the largest subtrees: spread them
                    k = max(1, min(len(left), NCPU * 2 if len(pend) < NCPU * 2 else 1))
                    for x in range(k):
                        part = left[x::k]
                        if part:
                            pend.append((i, part))
                            j['open'] += 1
                if any(v[4] for v in o['viol']) and not rep.findings and len([v for v in viol if v[6]]) >= 8:
                    stop = True
            running = nxt
            if time.time() - T0 > limit:
                stop = True
        timed_out = stop and not viol
        for j in js:
            if dbg:
                print(j['entry'], j['params'], 'paths', j['paths'], 'open', j['open'], j['covers'], j['unsup'][:5])
        pool.terminate()
    covers = {}
    for j in js:
        for c, k in j['covers'].items():
            covers[c] = covers.get(c, 0) + k
    if dbg:
        print(tot)
    unconf = {}
    for entry, params, kind, msg, inputs, detail, ok in viol:
        title = '%s: %s%s' % (entry, '' if kind.endswith('assert') else kind.replace('native:', '') + ' ', msg)
        if ok:
            d = {'entry': entry, 'params': params, 'inputs': show(inputs), 'raw': inputs}
            if detail:
                d['detail'] = detail
            rep.violation(title, d)
        else:
            unconf.setdefault(title, (inputs, detail))
    for t, (inputs, detail) in unconf.items():
        rep.problems.append('counterexample not reproduced natively: %s %s %s' % (t, show(inputs), detail))
    for d in disagree[:3]:
        rep.problems.append('engine and native run disagree: ' + d)
    if timed_out and time.time() - T0 > limit and TIER == 'quick':
        # the exploration is bounded by time on slow machines: reported as not exhaustive
        pass
    missing = [c for c in must_cover if not covers.get(c)]
    if missing and not rep.violations and not os.environ.get('VP_ENTRY'):
        rep.problems.append('vacuity: never reached: %s' % ', '.join(missing))
    nuns = sum(len(j['unsup']) for j in js)
    rep.coverage = {
        'states': paths, 'transitions': tot.get('forks', 0) + tot.get('z3_calls', 0) + paths, 'traces_validated_against_impl': validated,
        'samples': samples[:12] or [{'entry': j['entry'], 'params': j['params']} for j in js[:2]],
        'exhaustive': not any(j['open'] for j in js) and not nuns, 'infeasible_or_assumed_away': ended,
        'branch_forks': tot.get('forks', 0), 'assertions_reached': tot.get('asserts', 0), 'assertion_queries': tot.get('assert_queries', 0),
        'solver_queries': tot.get('z3_calls', 0), 'branches_decided_by_cached_character_queries': tot.get('dom_decisions', 0), 'branches_decided_by_relational_queries': tot.get('z3_decisions', 0), 'solver_time_s': round(tot.get('z3_time', 0), 2), 'solver_unknown': tot.get('unknown', 0),
        'paths_left_modelled_subset': nuns, 'unsupported': sorted(set(u[0] for j in js for u in j['unsup']))[:10],
        'functions_encoded': sorted(f for f in funcs if not f.startswith(('harness.', 'posixpath', 'genericpath'))), 'bounds': bounds, 'outside_the_claim': outside,
        'stubs': list(stubs), 'reachability_witnesses': covers,
        'jobs': [{'entry': j['entry'], 'params': j['params'], 'paths': j['paths'], 'complete': j['open'] == 0} for j in js], 'build_s': round(tbuild, 1),
    }
    rep.finish()
