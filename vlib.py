"""Orchestration only: builds the driver from /repo's working tree, runs TLC to generate sessions, replays them in the
real library, and has TLC validate the recorded sessions. All judgement about results is in spec/*.tla."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JOBS = 8
CXX = 'g++'
FLAGS = ['-std=c++17', '-O1', '-w']


class CheckError(Exception):
    pass


# ---------------------------------------------------------------- building

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:32]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_java():
    src = os.path.join(VERIF, 'java', 'RealIv.java')
    out = os.path.join(CACHE, 'java-' + sha(open(src, 'rb').read()))
    if not os.path.exists(os.path.join(out, 'RealIv.class')):
        tmp = tempfile.mkdtemp(dir=ensure(CACHE))
        r = run(['javac', '-cp', JARS, '-d', tmp, src])
        if r.returncode:
            raise CheckError('javac failed: ' + r.stdout)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp)
    return out


def ensure(d):
    os.makedirs(d, exist_ok=True)
    return d


def build_driver():
    """Compiles /repo/src/*.cpp and the driver; objects are cached by the preprocessed content they depend on."""
    srcdir = os.path.join(REPO, 'src')
    heads = []
    for d in ('include', 'src'):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            heads += [os.path.join(root, f) for f in files if f.endswith(('.h', '.hpp', '.tpp', '.inl'))]
    hkey = sha(*[x for h in sorted(heads) for x in (h, open(h, 'rb').read())], *FLAGS)
    inc = ['-I' + os.path.join(REPO, d) for d in ('include', 'include/tsym', 'src')]
    objdir = ensure(os.path.join(CACHE, 'obj'))
    jobs = []
    for f in sorted(os.listdir(srcdir)):
        if f.endswith(('.cpp', '.cc', '.cxx')):
            p = os.path.join(srcdir, f)
            jobs.append((p, os.path.join(objdir, sha(hkey, p, open(p, 'rb').read()) + '.o'), []))
    drv = os.path.join(VERIF, 'harness', 'tsymdrv.cpp')
    drvbytes = open(drv, 'rb').read()
    jobs.append((drv, os.path.join(objdir, sha(hkey, drvbytes, 'drv') + '.o'), []))

    def compile_one(job):
        src, obj, extra = job
        if os.path.exists(obj):
            return None
        tmp = obj + '.%d.tmp' % os.getpid()
        r = run([CXX] + FLAGS + extra + inc + ['-c', src, '-o', tmp])
        if r.returncode:
            return (src, r.stdout)
        os.rename(tmp, obj)
        return None

    with cf.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    internals = True
    if errs and all(e[0] == drv for e in errs):
        internals = False
        jobs[-1] = (drv, os.path.join(objdir, sha(hkey, drvbytes, 'drv-nointernals') + '.o'), ['-DNO_INTERNALS'])
        e = compile_one(jobs[-1])
        errs = [e] if e else []
    if errs:
        raise CheckError('compilation failed: %s\n%s' % errs[0])
    exe = os.path.join(objdir, sha(*[j[1] for j in jobs]) + '.exe')
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        r = run([CXX, '-o', tmp] + [j[1] for j in jobs])
        if r.returncode and internals:
            jobs[-1] = (drv, os.path.join(objdir, sha(hkey, drvbytes, 'drv-nointernals') + '.o'), ['-DNO_INTERNALS'])
            internals = False
            e = compile_one(jobs[-1])
            if e:
                raise CheckError('compilation failed: %s\n%s' % e)
            exe = os.path.join(objdir, sha(*[j[1] for j in jobs]) + '.exe')
            tmp = exe + '.%d.tmp' % os.getpid()
            r = run([CXX, '-o', tmp] + [j[1] for j in jobs])
        if r.returncode:
            raise CheckError('linking failed: ' + r.stdout[-2000:])
        os.rename(tmp, exe)
    return exe, internals


def prune_cache(limit=800 << 20):
    d = os.path.join(CACHE, 'obj')
    if not os.path.isdir(d):
        return
    fs = sorted((os.path.getmtime(p), os.path.getsize(p), p) for p in (os.path.join(d, f) for f in os.listdir(d)))
    total = sum(f[1] for f in fs)
    for _, size, p in fs:
        if total <= limit:
            break
        os.unlink(p)
        total -= size


# ---------------------------------------------------------------- TLC

def tlc(work, module, config, env=None, workers=JOBS, args=(), heap='6g', timeout=800, gc='Parallel'):
    """Runs TLC in a private directory; returns (stdout, stats)."""
    java = build_java()
    md = tempfile.mkdtemp(prefix='tlc', dir=work)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+Use%sGC' % gc, '-Xmx' + heap, '-Xss64m', '-DTLA-Library=' + SPEC, '-cp', java + ':' + JARS, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', md, '-nowarning', '-noGenerateSpecTE', '-config', os.path.join(SPEC, config)] + list(args) + [os.path.join(SPEC, module + '.tla')]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=md, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out on ' + module)
    shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
    stats = dict(transitions=int(m[-1][0]), states=int(m[-1][1])) if m else dict(transitions=0, states=0)
    return r.returncode, r.stdout, stats


def json_lines(out):
    for l in out.splitlines():
        if l.startswith('"{') and l.endswith('}"'):
            yield json.loads(json.loads(l))


def generate(work, module, config, env, workers=1, args=(), timeout=300):
    rc, out, st = tlc(work, module, config, env, workers=workers, args=args, timeout=timeout)
    sess = list(json_lines(out))
    if rc not in (0,) and not (module.startswith('Gen') and '-simulate' in args and sess):
        raise CheckError('TLC failed on %s: %s' % (module, '\n'.join(l for l in out.splitlines() if not l.startswith(('Loading', 'Pars', 'Sem', 'Lint', '"{')))[-3000:]))
    return sess, st


# ---------------------------------------------------------------- sessions -> programs

NREG = dict(frac=2, divide=2, gcd=2, pdivide=2, ldivide=2, poly=0, sign=0, eq=0, todouble=0, toint=0, query=0, has=0, complexity=0, simpcx=0, frozen=0, clear=0,
            maxprime=0, solve=0, inv=0, print=0, stream=0)
INTS = dict(rebuild=2, op=1, maxprime=1)          # trailing integer arguments
LEAD = dict(det=4, solve=4, inv=4)                # leading integer arguments


def compile_session(sess):
    """Terms and logical registers -> straight-line program with physical registers."""
    lines, n = [], 0
    memo = {}

    def term(t):
        nonlocal n
        key = json.dumps(t)
        if key in memo:
            return memo[key]
        args = [term(u) if isinstance(u, list) else u for u in t[1:]]
        lines.append(' '.join([t[0]] + [str(u) for u in args]))
        memo[key] = n
        n += 1
        return n - 1

    regs = [term(t) for t in sess.get('load', [])]
    for call in sess.get('do', []):
        op, rest = call[0], call[1:]
        if op == 'load':
            regs.append(term(rest[0]))
            continue
        lead = LEAD.get(op, 0)
        trail = INTS.get(op, 0)
        if op in ('ptok', 'parse', 'vstr') or op in ('int', 'rat', 'sym', 'psym', 'big', 'dbl'):
            args = rest
        else:
            args = list(rest[:lead]) + [regs[i - 1] for i in rest[lead:len(rest) - trail]] + list(rest[len(rest) - trail:])
        lines.append(' '.join([op] + [str(u) for u in args]))
        k = NREG.get(op, 1)
        for _ in range(k):
            regs.append(n)
            n += 1
    return lines


def write_programs(path, progs):
    with open(path, 'w') as f:
        for i, lines in progs:
            f.write('P %s\n' % i)
            for l in lines:
                f.write(l + '\n')


def replay(work, exe, progs, batch=200, cpu=30, limit=400, par=JOBS):
    """Runs the programs in the real library, several drivers in parallel; returns the recorded sessions."""
    chunks = [progs[i::par] for i in range(par)]

    def one(k):
        if not chunks[k]:
            return []
        i, o = os.path.join(work, 'in%d' % k), os.path.join(work, 'out%d' % k)
        write_programs(i, chunks[k])
        r = subprocess.run([exe, i, o, str(batch), str(cpu), str(limit)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode:
            raise CheckError('driver failed with %d' % r.returncode)
        return [l for l in open(o, encoding='latin-1') if l.strip()]

    with cf.ThreadPoolExecutor(par) as ex:
        outs = list(ex.map(one, range(par)))
    res = {}
    for ls in outs:
        for l in ls:
            m = re.match(r'\{"id":"([^"]*)"', l)
            res[m.group(1)] = l
    return [res[str(i)] for i, _ in progs if str(i) in res]


def flag(line, history=False, canon=False, value=True, ops=()):
    """What TLC is to examine in a session; the contracts of ops only, if there are any."""
    return '{"h":%d,"c":%d,"v":%d,"ops":%s,' % (history, canon, value, json.dumps(sorted(ops))) + line[1:]


def validate(work, lines, timeout=800, par=JOBS):
    """TLC trace validation of recorded (flagged) sessions, in several TLC processes. Returns (violations, stats, strength)."""
    viol, tot, strength = [], dict(states=0, transitions=0), dict(exact=0, real=0, open=0, none=0)
    if not lines:
        return viol, tot, strength
    par = max(1, min(par, sum(map(len, lines)) // 150000 + 1))
    load, groups = [0] * par, [[] for _ in range(par)]
    for l in sorted(lines, key=len, reverse=True):      # even out the sizes
        k = load.index(min(load))
        groups[k].append(l)
        load[k] += len(l)
    build_java()

    def one(k):
        g = groups[k]
        if not g:
            return None
        p = os.path.join(work, 'trace%d.ndjson' % k)
        with open(p, 'w') as f:
            f.writelines(l if l.endswith('\n') else l + '\n' for l in g)
        rc, out, st = tlc(work, 'TsymTrace', 'TsymTrace.cfg', dict(TRACE=p), workers=1, heap='3g', timeout=timeout, gc='Serial')
        os.unlink(p)
        js = list(json_lines(out))
        if rc != 0 or sum(1 for j in js if 'done' in j) != len(g):
            raise CheckError('trace validation incomplete: %s' % '\n'.join(l for l in out.splitlines() if not l.startswith(('Loading', 'Pars', 'Sem', 'Lint', '"{')))[-3000:])
        return js, st

    with cf.ThreadPoolExecutor(par) as ex:
        for r in ex.map(one, range(par)):
            if r is None:
                continue
            for k in tot:
                tot[k] += r[1][k]
            for j in r[0]:
                if 'bad' in j:
                    viol.append(j)
                else:
                    for k in strength:
                        strength[k] += j['stat'][k]
    return viol, tot, strength


def text(t):
    k = t['k']
    if k == 'sym':
        return t['s'] + ("'" if t['p'] else '')
    if k == 'num':
        f = lambda l: str(l[0]) + ''.join('%04d' % v for v in l[1:])
        return ('-' if t['g'] < 0 else '') + f(t['n']) + ('' if t['d'] == [1] else '/' + f(t['d']))
    if k == 'dbl':
        import struct
        return repr(struct.unpack('>d', struct.pack('>HHHH', *t['b']))[0]) + 'd'
    if k == 'cst':
        return t['s']
    if k == 'fct':
        return t['s'] + '(' + ', '.join(map(text, t['o'])) + ')'
    if k in ('sum', 'prd', 'pow'):
        return '(' + {'sum': ' + ', 'prd': '*', 'pow': '^'}[k].join(map(text, t['o'])) + ')'
    return k.upper()


def regs_of(ev):
    """registers (trees) before each event"""
    regs, out = [], []
    for e in ev:
        out.append(list(regs))
        if e['op'] == 'restart':
            regs = []
        elif 'r' in e:
            regs.append(e['r'])
    return out


def describe(session_line, at):
    s = json.loads(session_line)
    e = s['ev'][at - 1]
    regs = regs_of(s['ev'])[at - 1]
    args = [text(regs[i - 1]) if 0 < i <= len(regs) else '?' for i in e['a']]
    d = '%s(%s%s)' % (e['op'], ', '.join(args), ''.join(', %s' % x for x in e['x']))
    if 'w' in e or (e['op'] in ('crash', 'parse') and 's' in e):
        d = '%s "%s"' % (e['op'], e.get('s'))
    if 'r' in e:
        d += ' = ' + text(e['r'])
    rest = {k: v for k, v in e.items() if k not in ('op', 'a', 'x', 'r', 's', 'w', 'u', 'rs', 'trees', 'syms')}
    if 'rs' in e:
        d += ' = [' + ', '.join(map(text, e['rs'])) + ']'
    if rest:
        d += ' ' + json.dumps(rest)
    return d
