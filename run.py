#!/opt/veriftools/pyvenv/bin/python
"""Check one property: compile the real code of /repo with the contracts of
/verif/harness, generate and discharge every obligation, replay violations.

  run.py PROPERTY [--tier quick|thorough] [--contract NAME]
"""
import argparse
import glob
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VTPY = '/opt/veriftools/pyvenv/bin/python'
try:
    import z3  # noqa
except ImportError:
    if os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv') and os.path.exists(VTPY):
        os.execv(VTPY, [VTPY] + sys.argv)
    raise
sys.path.insert(0, os.path.join(HERE, 'llvc'))
REPO = os.environ.get('VF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
EVID = os.environ.get('VF_EVIDENCE', os.path.join(HERE, 'evidence'))

KNOWN_SOURCES = set('''antenna.cpp antenna_pcv.cpp antex.cpp bdsnav.cpp bern_utils.cpp galnav.cpp glonav.cpp
gnssobs.cpp gnssobsrv.cpp gpsnav.cpp navcmp.cpp navrnx.cpp nvarstr.cpp obsrnx.cpp satellite.cpp satsys.cpp
sp3c.cpp'''.split())

BASE = ['-std=c++17', '-DDEBUG', '-include', 'string', '-include', 'utility', '-include', 'cerrno',
        '-include', 'cstdlib', '-include', os.path.join(HERE, 'stubs', 'plain_find.h'), '-I' + SRC, '-I' + os.path.join(HERE, 'harness'), '-w', '-fno-access-control']
IRF = ['-D_GLIBCXX_ASSERTIONS', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-emit-llvm', '-c',
       '-DVF_IR']
NATF = ['-O1', '-g', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
        '-fno-sanitize=vptr', '-c', '-DVF_NATIVE']


class Unit:
    """one harness file"""

    def __init__(s, path):
        s.path = path
        s.name = os.path.splitext(os.path.basename(path))[0]
        s.text = open(path).read()
        s.d = {}
        for m in re.finditer(r'^// (\w+): *(.*)$', s.text, re.M):
            s.d.setdefault(m.group(1), []).append(m.group(2).strip())
        s.props = ' '.join(s.d.get('property', [])).split()
        s.sources = ' '.join(s.d.get('sources', [])).split()
        s.flags = ' '.join(s.d.get('flags', [])).replace('@', HERE).split()
        s.extra = [os.path.join(HERE, x) for x in ' '.join(s.d.get('extra', [])).split()]
        s.model = [os.path.join(HERE, x) for x in ' '.join(s.d.get('model', [])).split()]  # verified module only
        s.stubs = {}
        for x in s.d.get('stub', []):
            k, v = x.split('=')
            s.stubs[k.strip()] = v.strip()
        s.opts = {}
        for x in s.d.get('option', []):
            k, v = x.split('=')
            s.opts[k.strip()] = int(v)
        s.fixups = [x.split('=>') for x in s.d.get('fixup', [])]
        # contracts with their labels
        s.contracts = {}
        parts = re.split(r'^CONTRACT\((\w+)\)', s.text, flags=re.M)
        # labels of helper functions count for the contracts that call them
        helpers = {}
        for m in re.finditer(r'^(?:template[^\n]*?[>\n]\s*)?static (?:inline )?\w+ (\w+)\(.*?^}', s.text, re.M | re.S):
            t = m.group(0)
            l = [x for x in t.split('\n') if ' ' + m.group(1) in x][0]
            helpers[m.group(1)] = l if re.search(r'}\s*$', l) else t.split('\nCONTRACT(')[0]
        for i in range(1, len(parts), 2):
            body = re.split(r'^}', parts[i + 1], flags=re.M)[0]
            if re.match(r'[^\n]*}\s*$', parts[i + 1].split('\n')[0]):
                body = parts[i + 1].split('\n')[0]
            seen = set()
            again = True
            while again:
                again = False
                for h, tx in helpers.items():
                    if h not in seen and re.search(r'\b%s\s*[<(]' % h, body):
                        seen.add(h)
                        body += tx
                        again = True
            head = parts[i - 1]
            m = re.search(r'((?://[^\n]*\n)+)\s*$', head)
            doc = m.group(1) if m else ''
            prop = s.props[0]
            mm = re.search(r'@property (\w+)', doc)
            if mm:
                prop = mm.group(1)
            labs = re.findall(r'vf_assert(?:_eq|_near)?\s*\((?:[^;"]|\n)*?"([^"]+)"\s*\)\s*;', body)
            labs += ['cover:' + x for x in re.findall(r'vf_cover\s*\(\s*"([^"]+)"\s*\)', body)]
            st = dict(s.stubs)
            for x in re.findall(r'@stub (\S+)=(\S+)', doc):
                st[x[0]] = x[1]
            op = dict(s.opts)
            for x in re.findall(r'@option (\w+)=(\d+)', doc):
                op[x[0]] = int(x[1])
            s.contracts[parts[i]] = dict(prop=prop, labels=sorted(set(labs)), doc=doc.replace('// ', '').strip(),
                                         stubs=st, opts=op, nonative='@nonative' in doc, confirm='@confirm' in doc)


    def assumed(s):
        f = ' '.join(s.d.get('flags', []))
        r = []
        if '@/stubs/eigen' in f:
            r.append('stubs/eigen (Eigen)')
        elif '@/stubs' in f:
            r.append('stubs/ggdatetime (ggdatetime)')
        return r


def sh(cmd, timeout=600):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                          errors='replace')


class BuildError(Exception):
    pass


def source_list(u, tmp):
    d = src_dir(u, tmp)
    out = [os.path.join(d, x) for x in u.sources]
    for p in sorted(glob.glob(d + '/*.cpp')):
        if os.path.basename(p) not in KNOWN_SOURCES:
            out.append(p)
    return out


def src_dir(u, tmp):
    """the source directory; a rewritten copy when the harness asks for mechanical
    rewriting of constructs clang rejects (stated in DESIGN.md)"""
    if not u.fixups:
        return SRC
    d = os.path.join(tmp, 'fx_' + u.name)
    if not os.path.isdir(d):
        os.makedirs(d)
        for p in glob.glob(SRC + '/*.[ch]pp'):
            n = open(p, errors='replace').read()
            for a, b in u.fixups:
                n = n.replace(a.strip(), b.strip())
            open(os.path.join(d, os.path.basename(p)), 'w').write('#line 1 "%s"\n' % p + n)
    return d


def base_flags(u, tmp):
    return ['-I' + src_dir(u, tmp) if x == '-I' + SRC else x for x in BASE]


def compile_many(jobs):
    """jobs: list of command lines; returns list of (rc, out)"""
    ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace') for c in jobs]
    return [(p.communicate()[0], p.returncode) for p in ps]


def build_ir(u, tmp):
    srcs = [u.path] + source_list(u, tmp) + u.extra + u.model + [os.path.join(HERE, 'stubs', x) for x in ('rbtree.cpp', 'libc.cpp')]
    jobs, objs = [], []
    for i, p in enumerate(srcs):
        o = os.path.join(tmp, '%s_%d.bc' % (u.name, i))
        objs.append(o)
        jobs.append(['clang++'] + base_flags(u, tmp) + u.flags + IRF + (['-fno-builtin'] if p.endswith('/stubs/libc.cpp') else []) + [p, '-o', o])
    res = compile_many(jobs)
    keep = []
    for p, o, (out, rc) in zip(srcs, objs, res):
        if rc != 0:
            if os.path.basename(p) not in KNOWN_SOURCES and os.path.dirname(p) == src_dir(u, tmp):
                continue
            raise BuildError('cannot compile %s:\n%s' % (p, out[:3000]))
        keep.append(o)
    bc = os.path.join(tmp, u.name + '.bc')
    ll = os.path.join(tmp, u.name + '.ll')
    r = sh(['llvm-link'] + keep + ['-o', bc])
    if r.returncode:
        raise BuildError('llvm-link: ' + r.stdout[:2000])
    r = sh(['opt', '-S', '-passes=mem2reg', bc, '-o', ll])
    if r.returncode:
        raise BuildError('opt: ' + r.stdout[:2000])
    return ll


def build_native(u, tmp):
    exe = os.path.join(tmp, u.name + '.exe')
    if os.path.exists(exe):
        return exe
    srcs = [u.path] + source_list(u, tmp) + u.extra + [os.path.join(HERE, 'native', 'vf_native.cpp')]
    jobs, objs = [], []
    for i, p in enumerate(srcs):
        o = os.path.join(tmp, '%s_n%d.o' % (u.name, i))
        objs.append(o)
        jobs.append(['clang++'] + base_flags(u, tmp) + u.flags + NATF + [p, '-o', o])
    keep = []
    for p, o, (out, rc) in zip(srcs, objs, compile_many(jobs)):
        if rc != 0:
            if os.path.basename(p) not in KNOWN_SOURCES and os.path.dirname(p) == src_dir(u, tmp):
                continue
            raise BuildError('cannot compile %s natively:\n%s' % (p, out[:3000]))
        keep.append(o)
    r = sh(['clang++', '-fsanitize=address,undefined', '-rdynamic', '-o', exe] + keep + ['-ldl'])
    if r.returncode:
        raise BuildError('native link: ' + r.stdout[:2000])
    return exe


NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=3:allocator_may_return_null=1',
            UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=3')


SEARCH_END = None


def native(exe, args, timeout):
    if SEARCH_END is not None:
        left = SEARCH_END - time.time()
        timeout = max(3, min(timeout, left))
        if args[0] == 'search':
            args = args[:]
            args[3] = str(int(max(1, min(int(args[3]), left / 4))))
    try:
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                           timeout=timeout, env=NENV)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, 'TIMEOUT (the real code does not terminate within %d s on this input)' % timeout


# ----------------------------------------------------------------- worker
def worker(ll, u, cname, seconds, conn):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    sys.setrecursionlimit(20000)
    c = u.contracts[cname]
    t0 = time.time()
    r = dict(contract=cname, harness=u.name, status='error', why='', obligs=[], violations=[], undecided=[])
    try:
        import engine
        import ir
        import mem
        eng = None
        m = ir.Module(open(ll).read())
        opts = dict(c['opts'])
        eng = engine.Engine(m, opts)
        eng.stubs = c['stubs']
        eng.deadline = time.time() + opts.get('timeout', seconds)
        try:
            eng.run_ctors()
            eng.run_contract('vc_' + cname)
            r['status'] = 'done'
        except mem.Unsupported as e:
            r['status'] = 'unsupported'
            r['why'] = str(e)[:500]
        except engine.Timeout:
            r['status'] = 'unsupported'
            r['why'] = 'time limit'
        except (ir.IRError, KeyError, IndexError, TypeError, AttributeError, AssertionError, RecursionError, MemoryError,
                ValueError, ZeroDivisionError, NotImplementedError, OverflowError) as e:
            r['status'] = 'unsupported'
            r['why'] = 'verifier limitation: %s: %s' % (type(e).__name__, str(e)[:300])
            r['trace'] = traceback.format_exc()[-1500:]
        fillres(r, eng)
        if r['status'] == 'done':
            for l in c['labels']:
                if l not in eng.covered and not (l.startswith('cover:') and l[6:] in eng.covered):
                    r['obligs'].append(dict(kind='vacuity', label=l, where=cname, vcs=1, solver=0, time=0,
                                            status='violated' if not eng.violations else 'masked', detail='reachable'))
                    if not eng.violations:
                        r['violations'].append(dict(kind='vacuity', label=l, where=cname, stack=[], inputs=[],
                                                    detail='postcondition "%s" is never reached: the contract is vacuous '
                                                    'for this code' % l))
    except BaseException as e:  # noqa
        r['status'] = 'unsupported'
        r['why'] = 'verifier failure: %s' % (str(e)[:300] or type(e).__name__)
        r['trace'] = traceback.format_exc()[-1500:]
    r['wall'] = time.time() - t0
    conn.send(r)
    conn.close()


def fillres(r, eng):
    if eng is None:
        return
    r['obligs'] = [dict(kind=o.kind, label=o.label, where=o.where, vcs=o.vcs, solver=o.solver, time=round(o.time, 3),
                        status=o.status, detail=o.detail) for o in eng.obligs.values()]
    r['violations'] = list(eng.violations)
    r['undecided'] = [[list(map(str, k)), w] for k, w in eng.undecided]
    r['funcs'] = sorted(eng.used_funcs)
    r['builtins'] = sorted(eng.builtins_used)
    r['stubs'] = sorted(eng.stubs_used)
    r['assumes'] = sorted(eng.assumes)
    r['loops'] = {'%s:%s' % k: v for k, v in eng.loop_notes.items()}
    r['paths'] = eng.npaths
    r['trivial'] = eng.trivial
    r['solver_calls'] = eng.solver_calls
    r['solver_time'] = round(eng.solver_time, 3)
    r['steps'] = eng.nsteps
    r['backends'] = dict(eng.backends)


def run_jobs(jobs, seconds, limit, end):
    """jobs: (ll, unit, contract); proofs stop at time `end`"""
    res = []
    running = []
    queue = list(jobs)
    while queue or running:
        while queue and len(running) < limit:
            ll, u, c = queue.pop(0)
            left = end - time.time()
            if left < 5:
                res.append((u, dict(contract=c, harness=u.name, status='unsupported', why='time limit of the whole check',
                                    obligs=[], violations=[], undecided=[], wall=0)))
                continue
            a, b = mp.Pipe(False)
            p = mp.Process(target=worker, args=(ll, u, c, min(seconds, left), b))
            p.start()
            b.close()
            running.append((p, a, u, c, min(end + 30, time.time() + max(seconds, u.contracts[c]['opts'].get('timeout', 0)) + 60)))
        for x in list(running):
            p, a, u, c, dl = x
            got = None
            if a.poll(0.02):
                try:
                    got = a.recv()
                except EOFError:
                    got = dict(contract=c, harness=u.name, status='unsupported', why='verifier process died', obligs=[],
                               violations=[], undecided=[], wall=0)
            elif time.time() > dl:
                got = dict(contract=c, harness=u.name, status='unsupported', why='time limit (killed)', obligs=[],
                           violations=[], undecided=[], wall=0)
            if got is not None:
                p.kill()
                p.join()
                running.remove(x)
                res.append((u, got))
    return res


def demangle(names):
    if not names:
        return []
    r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split('\n')


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) contract=(\w+) (.*)', l.strip())
            if m:
                out.append(m.groups())
    return out


def write_inputs(path, v, r, res):
    with open(path, 'w') as f:
        f.write('# property=%s contract=%s harness=%s\n' % (res['prop'], r['contract'], r['harness']))
        f.write('# obligation: %s %s\n# at: %s\n# detail: %s\n' % (v['kind'], v.get('label') or '', v['where'], v['detail']))
        f.write('# call stack: %s\n' % ' <- '.join(reversed(demangle(v.get('stack', [])))))
        f.write('# replay: native build of the harness, "replay %s <this file>" (run.py --replay <this file>)\n' % r['contract'])
        for k, n, x in v.get('inputs', []):
            f.write('%s %s %s\n' % (k, n, x if x != '' else '-'))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--replay', metavar='FILE', help='run the inputs of a replay file on the real code')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--contract')
    ap.add_argument('--seconds', type=int, default=0)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--keep', action='store_true')
    args = ap.parse_args()
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = args.property
    t0 = time.time()
    if args.replay:
        return replay(args.replay)
    if not pid:
        ap.error('a property or --replay FILE is needed')
    units = [Unit(p) for p in sorted(glob.glob(HERE + '/harness/*.cpp'))]
    units = [u for u in units if u.props and any(c['prop'] == pid for c in u.contracts.values())]
    if not units:
        print('no contracts for', pid)
        return 2
    outdir = os.path.join(HERE, 'out', pid)
    os.makedirs(outdir, exist_ok=True)
    for f in glob.glob(outdir + '/*'):
        os.remove(f)
    tmp = tempfile.mkdtemp(prefix='vf_')
    try:
        return check(pid, units, args, seed, outdir, tmp, t0)
    except BuildError as e:
        print('ERROR: ' + str(e))
        return 2
    finally:
        if not args.keep:
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            print('kept', tmp)


def check(pid, units, args, seed, outdir, tmp, t0):
    thorough = args.tier == 'thorough'
    seconds = args.seconds or (3000 if thorough else 400)
    # the whole quick check answers within 15 minutes: proofs first, then replays and searches
    end = time.time() + (1e6 if thorough else 500)
    global SEARCH_END
    SEARCH_END = time.time() + (1e6 if thorough else 780)
    jobs, missing = [], []
    for u in units:
        try:
            ll = build_ir(u, tmp)
        except BuildError as e:
            # (a stand-in may lack an operation that the library has)
            ll, unbuilt = None, str(e)
            print('  NOTE %s' % unbuilt[:800])
        for c, d in u.contracts.items():
            if d['prop'] == pid and (not args.contract or re.fullmatch(args.contract, c)):
                if ll is None:
                    missing.append((u, dict(contract=c, harness=u.name, obligs=[], violations=[], undecided=[],
                                            status='unbuilt', why='the code does not compile against the stand-ins')))
                    continue
                if thorough:
                    d['opts'].setdefault('vc_timeout', 300000)
                jobs.append((ll, u, c))
    jobs.sort(key=lambda j: -j[1].contracts[j[2]]['opts'].get('cost', 0))
    results = run_jobs(jobs, seconds, args.j, end) + missing
    results.sort(key=lambda x: (x[0].name, x[1]['contract']))
    known = known_findings()
    nviol = 0
    lines = []
    bounded = []
    errors = []
    search = dict(runs=0, asserts=0)
    tot = dict(obligations=0, discharged=0, vcs=0, solver_vcs=0)
    funcs, builtins, stubs, assumes = set(), set(), set(), set()
    backends = {}
    per = []
    for u, r in results:
        c = u.contracts[r['contract']]
        r['prop'] = pid
        isknown = r['contract'].startswith('known_')
        nob = len(r['obligs'])
        dis = sum(1 for o in r['obligs'] if o['status'] == 'discharged')
        if not isknown and r['status'] == 'done':
            tot['obligations'] += nob
            tot['discharged'] += dis
            tot['vcs'] += sum(o['vcs'] for o in r['obligs'])
            tot['solver_vcs'] += sum(o['solver'] for o in r['obligs'])
        funcs |= set(r.get('funcs', []))
        builtins |= set(r.get('builtins', []))
        stubs |= set(r.get('stubs', []))
        assumes |= set(r.get('assumes', []))
        for k, v in r.get('backends', {}).items():
            backends[k] = backends.get(k, 0) + v
        bl = [k for k, v in r.get('loops', {}).items() if v.startswith('bounded')]
        per.append(dict(contract=r['contract'], harness=r['harness'], status=r['status'], why=r.get('why', ''),
                        obligations=nob, discharged=dis, paths=r.get('paths', 0), trivial_accesses=r.get('trivial', 0),
                        solver_calls=r.get('solver_calls', 0), solver_time_s=r.get('solver_time', 0),
                        wall_s=round(r.get('wall', 0), 2), loops=r.get('loops', {}), bounded_loops=bl,
                        states=c['doc'][:300],
                        named_obligations=[('%s %s: %s' % (o['kind'], o['label'] or o['where'], o['status']))
                                           for o in r['obligs']][:120]))
        if args.v:
            print('%-28s %-11s obl %d/%d vcs %d paths %d solver %d (%.1fs) wall %.1fs %s %s' % (
                r['contract'], r['status'], dis, nob, sum(o['vcs'] for o in r['obligs']), r.get('paths', 0),
                r.get('solver_calls', 0), r.get('solver_time', 0), r.get('wall', 0), r.get('why', ''),
                r.get('loops') or ''))
            if r.get('trace'):
                print(r['trace'])
        for k in bl:
            bounded.append('%s: loop in %s unrolled to a bound' % (r['contract'], demangle([k.rsplit(':', 1)[0]])[0]))
        viols = r['violations']
        if isknown:
            ent = [k for k in known if k[0] == pid and k[1] == r['contract']]
            if viols or r['status'] != 'done':
                if ent:
                    lines.append('KNOWN-FINDING: property=%s %s' % (pid, ent[0][2]))
                    continue
            else:
                continue
        if viols:
            rp, confirmed = confirm(u, r, viols, tmp, outdir, seed, pid)
            if not confirmed and c['confirm'] and r['status'] == 'done':
                # formulas over sin, cos, ...: the verifier only knows part of their algebra,
                # so a refutation counts once the real code fails on an input
                why = 'not provable with the algebra known to the verifier: ' + ', '.join(
                    '%s %s' % (v['kind'], v.get('label') or v['where']) for v in viols[:4])
                bounded.append('%s: %s; bounded random testing instead' % (r['contract'], why))
                print('  NOTE %s: %s; no failing input found' % (r['contract'], why))
                tot['obligations'] -= nob
                tot['discharged'] -= dis
                continue
            nviol += 1
            lines.append('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if confirmed else ' no-failing-input-found'))
            for v in viols[:4]:
                print('  failed obligation [%s] %s at %s in contract %s: %s' % (
                    v['kind'], v.get('label') or '', v['where'], r['contract'], v['detail']))
            continue
        if r['status'] != 'done' or r['undecided']:
            # outside the verifier's reach: bounded stand-in on the real code
            why = r['why'] if r['status'] != 'done' else 'the solver gave up on %s' % ', '.join(
                list(dict.fromkeys(' '.join(k) for k, w in r['undecided']))[:5])
            bounded.append('%s: verifier could not finish (%s); bounded random testing instead' % (r['contract'], why))
            print('  NOTE %s: not proved (%s); bounded stand-in: random search' % (r['contract'], why))
            if c['nonative']:
                bounded.append('%s: NOT CHECKED (%s)' % (r['contract'], why))
                continue
            exe = build_native(u, tmp)
            f = os.path.join(outdir, r['contract'] + '.search.txt')
            rc, o = native(exe, ['search', r['contract'], str(seed), '20', f], 120)
            if rc not in (0, 2):
                if rc == 124:
                    print('  NOTE %s: random search did not finish' % r['contract'])
                    continue
                for k in list(dict.fromkeys(tuple(k) for k, w in r['undecided']))[:4]:
                    print('  failed obligation [%s] %s in contract %s' % (k[0], k[1], r['contract']))
                nviol += 1
                open(f, 'a').write('# property=%s contract=%s harness=%s\n# native output:\n# %s\n' % (
                    pid, r['contract'], r['harness'], o[-1500:].replace('\n', '\n# ')))
                lines.append('VIOLATION property=%s replay=%s' % (pid, f))
            elif rc == 2:
                errors.append('%s: %s' % (r['contract'], o[-200:]))
            m = re.search(r'SEARCH runs=(\d+) rejected=\d+ asserts=(\d+)', o)
            if m:
                search['runs'] += int(m.group(1))
                search['asserts'] += int(m.group(2))
        elif thorough and not c['nonative']:
            # cross-check of the verifier: the contracts must also hold natively
            exe = build_native(u, tmp)
            f = os.path.join(outdir, r['contract'] + '.search.txt')
            rc, o = native(exe, ['search', r['contract'], str(seed), '15', f], 120)
            m = re.search(r'SEARCH runs=(\d+) rejected=\d+ asserts=(\d+)', o)
            if m:
                search['runs'] += int(m.group(1))
                search['asserts'] += int(m.group(2))
            if rc not in (0, 2, 124):
                nviol += 1
                open(f, 'a').write('# property=%s contract=%s harness=%s\n# %s\n' % (
                    pid, r['contract'], r['harness'], o[-1500:].replace('\n', '\n# ')))
                lines.append('VIOLATION property=%s replay=%s' % (pid, f))
    allf = demangle(sorted(funcs))
    real = sorted(set(x for x in allf if 'ngpt::' in x and not x.startswith(('std::', 'void std::', 'bool std::', '__gnu')))
                  - set(x for x in allf if x.startswith('vc_')))
    libf = len(allf) - len(real)
    ev = dict(property=pid, tier=args.tier, seed=seed, level='proof',
              coverage=dict(obligations=tot['obligations'], discharged=tot['discharged'],
                            verification_conditions=tot['vcs'], solver_discharged_conditions=tot['solver_vcs'],
                            checker_cmd='python3-vt run.py %s --tier %s' % (pid, args.tier),
                            backend='z3 %s (bit-vectors, arrays, uninterpreted functions, reals)' % z3v(),
                            other_backends_discharged=backends,
                            trusted_base=TRUST + sorted(set('executable model of library code: ' + m for u in units for k in ('model', 'extra') for m in u.d.get(k, [])))
                            + sorted(set('assumed contract of a library that is not verified: ' + m for u in units for m in u.assumed())) + sorted('library contract: ' + x for x in demangle(sorted(
                                b for b in builtins if not b.startswith(('vf_', 'llvm.lifetime', 'llvm.dbg'))))),
                            functions_under_contract=real, library_functions_verified_inline=libf,
                            stubbed_callees=demangle(sorted(stubs)),
                            contracts=per, bounded=bounded,
                            stated_bounds=[b for u in units for b in u.d.get('bound', [])], native_search=search,
                            solver_time_s=round(sum(p['solver_time_s'] for p in per), 2)),
              assumptions=ASSUME + sorted(assumes), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    for e in errors:
        print('ERROR:', e)
    print('%s: %d contracts, %d/%d obligations discharged (%d verification conditions), %d violations, %d bounded, %.1f s' % (
        pid, len(results), tot['discharged'], tot['obligations'], tot['vcs'], nviol, len(bounded), time.time() - t0))
    if nviol:
        return 1
    if errors:
        return 2
    return 0


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


TRUST = ['clang 18 front end at -O0 and mem2reg (C++ to LLVM IR)', 'the verifier /verif/llvc (IR semantics, memory model)',
         'z3', 'stubs/rbtree.cpp: functional model of the libstdc++ red-black tree primitives (unbalanced tree)']
ASSUME = ['floating-point arithmetic is treated as real arithmetic; integers are exact machine integers (bit-vectors)',
          'heap allocation succeeds (std::bad_alloc is not modelled)',
          'output written to iostreams and stdio is not part of the observable state',
          'x86-64 data layout, char is signed']


def replay(path):
    """run the inputs of a replay file against /repo's current code"""
    m = re.search(r'property=(\w+) contract=(\w+) harness=(\w+)', open(path).read())
    if not m:
        print('ERROR: %s names no contract' % path)
        return 2
    u = [u for u in (Unit(p) for p in sorted(glob.glob(HERE + '/harness/*.cpp'))) if u.name == m.group(3)]
    if not u or m.group(2) not in u[0].contracts:
        print('ERROR: no contract %s in harness %s' % (m.group(2), m.group(3)))
        return 2
    tmp = tempfile.mkdtemp(prefix='vf_')
    try:
        rc, o = native(build_native(u[0], tmp), ['replay', m.group(2), path], 60)
    except BuildError as e:
        print('ERROR: ' + str(e))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(o[-3000:])
    if rc not in (0, 2):
        print('VIOLATION property=%s replay=%s' % (m.group(1), path))
        return 1
    print('the contract %s holds on these inputs' % m.group(2) if rc == 0 else 'these inputs do not meet the precondition of ' + m.group(2))
    return 0


def confirm(u, r, viols, tmp, outdir, seed, pid):
    """replay the verifier's counterexample on the real code"""
    c = u.contracts[r['contract']]
    base = os.path.join(outdir, r['contract'])
    first = None
    vs = viols
    exe = None
    if not c['nonative']:
        try:
            exe = build_native(u, tmp)
        except BuildError as e:
            print('  native build failed:', str(e)[:500])
    for i, v in enumerate(vs):
        f = '%s.%d.txt' % (base, i)
        write_inputs(f, v, r, r)
        if first is None:
            first = f
        if exe and v.get('inputs') is not None and v['kind'] != 'vacuity':
            rc, o = native(exe, ['replay', r['contract'], f], 20)
            if rc not in (0, 2):
                open(f, 'a').write('# native replay of these inputs on the real code fails:\n# ' + o[-1500:].replace('\n', '\n# ') + '\n')
                return f, True
    if exe:
        f = base + '.search.txt'
        rc, o = native(exe, ['search', r['contract'], str(seed), '25', f], 120)
        if rc not in (0, 2, 124):
            open(f, 'a').write('# property=%s contract=%s harness=%s\n# failed obligation: %s %s at %s: %s\n# %s\n' % (
                pid, r['contract'], r['harness'], vs[0]['kind'], vs[0].get('label') or '', vs[0]['where'], vs[0]['detail'],
                o[-1500:].replace('\n', '\n# ')))
            return f, True
    with open(first, 'a') as g:
        g.write('# the verifier rejects this obligation; no failing input was found natively\n')
        for v in vs:
            g.write('# %s %s at %s: %s\n' % (v['kind'], v.get('label') or '', v['where'], v['detail']))
    return first, False


if __name__ == '__main__':
    sys.exit(main())
