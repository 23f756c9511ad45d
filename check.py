#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [quick|thorough]: decide one property for /repo's current tree."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/vp')
sys.dont_write_bytecode = True
T0 = time.time()
import z3
import extract, ir
from sched import run_jobs
from table import *

PAR = os.cpu_count() or 8
MODS = {}


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ known findings

def known():
    out = []
    for l in open(HERE + '/known-findings.txt'):
        m = re.match(r'KNOWN-FINDING: property=(\w+) (.*) \| (case|lower) (.*)$', l.strip())
        if m:
            out.append(m.groups())
    return out


def known_lower(ver):
    """{code point: tolerated result} in one Unicode version."""
    out = {}
    for p, what, kind, d in known():
        if kind == 'lower':
            vs, rs, add = d.split()
            a, b = map(int, vs.split('-'))
            if a <= ver <= b:
                for r in rs.split(','):
                    x, y = [int(q, 16) for q in r.split('-')]
                    for c in range(x, y + 1):
                        out[c] = c + int(add[1:], 16)
    return out


# ------------------------------------------------------------------ the concrete harness

class Hunt:
    """Builds the real code with the oracle, in the background."""

    def __init__(self, work, san=False, ver=16):
        self.dir = os.path.join(work, 'hunt%s%d' % ('s' if san else '', ver))
        os.makedirs(self.dir)
        self.bin = self.dir + '/hunt'
        self.ver = ver
        fl = ['-std=c++11', '-O1', '-w', '-I' + extract.REPO + '/interface', '-I' + extract.REPO + '/source', '-I' + HERE + '/src']
        if san:
            fl += ['-g', '-fsanitize=address,undefined', '-fsanitize-undefined-trap-on-error', '-fno-omit-frame-pointer']
        srcs = extract.sources() + extract.bits(ver) + [HERE + '/src/hunt.cxx']
        cmds = []
        objs = []
        for k, s in enumerate(srcs):
            o = '%s/%d.o' % (self.dir, k)
            objs.append(o)
            cmds.append('g++ %s -c %s -o %s & P="$P $!"' % (' '.join(fl), s, o))
        # where an internal function has another name now, the harness does without those
        hx = len(srcs) - 1
        sh = 'P=""\n' + '\n'.join(cmds[:hx]) + '\n( %s || %s ) & P="$P $!"\n' % (cmds[hx].split(' & ')[0], cmds[hx].split(' & ')[0].replace(' -w ', ' -w -DNO_INTERNALS ')) + \
            'for p in $P; do wait $p || exit 1; done\ng++ %s %s -o %s -pthread\n' % (' '.join(fl), ' '.join(objs), self.bin)
        self.proc = subprocess.Popen(['bash', '-c', sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.err = None
        self.ucd = self.dir + '/ucd.txt'
        with open(self.ucd, 'w') as f:
            f.write(open(HERE + '/data/ucd%d.txt' % ver).read())
            for c, d in known_lower(ver).items():
                f.write('K %x %x\n' % (c, d))

    def ready(self):
        if self.proc is not None:
            out, _ = self.proc.communicate()
            if self.proc.returncode:
                self.err = out[-2000:]
            self.proc = None
        return self.err is None

    def run(self, args, secs, safety=False):
        env = dict(os.environ, HUNT_UCD=self.ucd, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0')
        if safety:
            env['HUNT_SAFETY'] = '1'
        try:
            r = subprocess.run([self.bin] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs, env=env, errors='replace')
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            return -1, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')

    def search(self, mode, secs, seed, names, par=1):
        """(found line or None, cases, distinct)"""
        env = dict(os.environ, HUNT_UCD=self.ucd, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1')
        ps = []
        for k in range(par):
            a = [self.bin, 'search', mode, str(secs), str(seed + 1000 * k)] + names if mode != 'history' else [self.bin, 'history', str(secs), str(seed + 1000 * k)]
            ps.append(subprocess.Popen(a, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, errors='replace'))
        found, n, d = None, 0, 0
        t = time.time()
        for p in ps:
            try:
                o, _ = p.communicate(timeout=max(1, secs * 2 + 60 - (time.time() - t)))
            except subprocess.TimeoutExpired:
                p.kill()
                o, _ = p.communicate()
            m = re.search(r'^FOUND (.*)$', o, re.M)
            if m and not found:
                found = m.group(1)
            m = re.search(r'^RAN (\d+) (\d+)$', o, re.M)
            if m:
                n += int(m.group(1))
                d += int(m.group(2))
        return found, n, d

    def cases(self, lines, secs=60, safety=False, names=()):
        seeds = ['%d %s' % l[1:] for l in lines if isinstance(l, tuple)]
        lines = [l for l in lines if not isinstance(l, tuple)]
        if lines:
            r = self.cases1(lines, secs, safety)
            if r or not seeds:
                return r
        f = self.dir + '/seeds%d' % len(os.listdir(self.dir))
        open(f, 'w').write('\n'.join(seeds) + '\n')
        rc, o = self.run(['seeds', f] + list(names), secs, safety)
        m = re.search(r'^FOUND (.*)$', o, re.M)
        return m.group(1) if m else None

    def cases1(self, lines, secs=60, safety=False):
        f = self.dir + '/cases%d' % len(os.listdir(self.dir))
        open(f, 'w').write('\n'.join(lines) + '\n')
        rc, o = self.run(['cases', f], secs, safety)
        m = re.search(r'^FOUND (.*)$', o, re.M)
        return m.group(1) if m else None


# ------------------------------------------------------------------ goals

def module(ver):
    if ver not in MODS:
        MODS[ver] = ir.parse_module(open(WORK + '/all%d.ll' % ver).read(), 'llvm-cxxfilt-18')
    return MODS[ver]


def run_goal(job):
    g, extra = job
    return g.run(module(g.ver), extra)


def classify(r, kinds=None):
    """proved / failed / open; of the obligations of the given kinds only."""
    if isinstance(r, tuple):
        return 'open'
    bad = [o for o in r.failed if kinds is None or o.kind in kinds]
    if bad and any((o.info or {}).get('status') == 'sat' for o in bad):
        return 'failed'
    if r.ok:
        return 'proved'
    # a failed postcondition is used nowhere: the rest stands without it
    if kinds is not None and r.reason is None and r.obls and not r.partial and all(o.kind in ('post', 'lemma') for o in r.failed):
        return 'proved'
    return 'open'


def lines_of(g, r, p):
    """The verifier's counterexamples as cases for the harness; ('seed', w, arg) if the goal is about a
    function the property does not name: something to try on those it does."""
    out = []

    def add(l):
        if not isinstance(l, tuple) and p.entries and l.split()[0] not in p.entries:
            w, a = width_of(l.split()[0]), (l.split() + [''])[1]
            l = ('seed', w, a) if w and a[:1] == 'b' else None
        if l and l not in out:
            out.append(l)
    for o in r.failed:
        for l in (o.info or {}).get('lines') or []:
            add(l)
        a = (o.info or {}).get('args')
        if a and g.entry:
            a = [re.sub(r'\s', '', x) for x in a]
            add(' '.join([g.entry] + a))
            if p.xlines:
                for l in p.xlines(g.entry, a):
                    add(l)
    return out


def all_entries(p, hunt):
    if not p.entries and hunt.ready():
        p.entries = [l.split()[0] for l in hunt.run(['list'], 20)[1].split('\n') if l.startswith('e_')]


def main():
    global WORK
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    p = PROPS[pid]
    WORK = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    try:
        return decide(pid, p, tier, seed)
    finally:
        shutil.rmtree(WORK, ignore_errors=True)


def decide(pid, p, tier, seed):
    thorough = tier == 'thorough'
    os.makedirs(HERE + '/evidence', exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof'}
    hunt = Hunt(WORK)
    notes = []
    own = goals_of(p.own)
    vers = sorted({g.ver for g in own} | {16}, reverse=True)
    try:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as tp:
            list(tp.map(lambda v: extract.extract(WORK, v), vers))
        mod = module(16)
        extracted = None
    except Exception as e:
        extracted = repr(e)[-2000:]
        log('extraction failed', extracted)
    results = {}
    allgoals = []
    found, fver = None, 16
    if extracted is None:
        prov = providers(mod)
        names = set()
        also = {}
        scale = 4 if thorough else 1

        def uses(g):
            r = results[g.name]
            return set() if isinstance(r, tuple) else {d for d, how in r.stats.get('contracts_used', {}).items() if how == 'contract'}

        def settle(todo, until):
            """Run goals, then those that prove the contracts they rest on, and so on."""
            while todo:
                for g in todo:
                    if g.name not in names:
                        names.add(g.name)
                        g.budget *= scale
                        allgoals.append(g)
                todo.sort(key=lambda g: -g.budget)
                log('%d goals' % len(todo))
                res = run_jobs([(g, {'also_inline': also[g.name]} if g.name in also else {}) for g in todo], run_goal, PAR, lambda j: j[0].budget * 1.5 + 30, until)
                used = set()
                for k, g in enumerate(todo):
                    results[g.name] = res.get(k, ('dead', 'not run'))
                    used |= uses(g)
                todo = []
                for d in sorted(used):
                    for g in prov.get(d, []):
                        if g.name not in names and g not in todo:
                            todo.append(g)
                    if d not in prov:
                        notes.append('no goal proves the contract of ' + d)
        settle(list(own), T0 + (1800 if thorough else 420))
        if hunt.ready():
            all_entries(p, hunt)
            lines = []
            for g in allgoals:
                if g.ver == 16 and classify(results[g.name]) == 'failed':
                    lines += [l for l in lines_of(g, results[g.name], p) if l not in lines]
            if lines:
                found = hunt.cases(lines[:400], 60, p.mode == 'safety', p.entries)
        for rnd in range(3 if not found else 0):
            # a function whose contract did not hold up is taken as it is by its callers
            broken = {d for d in prov if any(g.name in results and classify(results[g.name]) != 'proved' for g in prov[d])}
            redo = []
            for g in allgoals:
                b = uses(g) & broken
                if b and not g.fn:
                    also[g.name] = also.get(g.name, set()) | b
                    redo.append(g)
            if not redo:
                break
            log('%d goals again, with %s inlined' % (len(redo), ', '.join(sorted(broken))))
            settle(redo, T0 + (2400 if thorough else 520))
        if p.sibling and not found:
            want = {p.sibling(g.name) for g in own if classify(results[g.name], p.kinds) == 'failed'}
            more = [g for g in goals_of(ALL) if g.name in want and g.name not in names] if want else []
            if more:
                broken = {d for d in prov if any(g.name in results and classify(results[g.name]) != 'proved' for g in prov[d])}
                for g in more:
                    also[g.name] = set(broken)
                settle(more, T0 + (2400 if thorough else 560))
        cycle = find_cycle(allgoals, results, prov, mod)
    else:
        cycle = None
    ownset = {g.name for g in own}
    bad, opened, badcone = [], [], []
    for g in allgoals:
        r = results[g.name]
        c = classify(r, p.kinds if g.name in ownset else None)
        if c == 'failed':
            (bad if g.name in ownset else badcone).append(g)
        elif c == 'open':
            opened.append(g)
            log('open:', g.name, r[1] if isinstance(r, tuple) else (r.reason, [(o.name, o.info) for o in r.failed][:2]))
    if p.sibling:
        # a failure that the property's other half shares is not this property's
        badn = {g.name for g in allgoals if classify(results[g.name]) != 'proved'}
        for g in list(bad):
            if p.sibling(g.name) in badn or (g.opts.get('sib') or '') in badn:
                bad.remove(g)
                badcone.append(g)
    if cycle:
        notes.append('contracts rest on each other in a circle: ' + cycle)
    for g in bad + badcone:
        for o in results[g.name].failed[:4]:
            log('failed: %s: %s [%s] %s' % (g.name, o.name, o.kind, {k: v for k, v in (o.info or {}).items() if k != 'bufs'}))
    # concrete side
    nrun = ndist = 0
    trouble = bool(bad or badcone or opened or cycle or extracted)
    short = 5 if not thorough else 120
    long_ = 60 if not thorough else 300
    end = T0 + (720 if not thorough else 5400)      # the answer is due then, whatever is still open
    safety = p.mode == 'safety'
    hunts = {16: hunt}
    all_entries(p, hunt)
    badv = {}
    bounded_ok, bounded_bad = {}, set()
    for g in bad + badcone:
        badv.setdefault(g.ver, []).append(g)
    openv = {g.ver for g in opened}
    if not hunt.ready():
        notes.append('the concrete harness did not build: ' + hunt.err[-300:])
        log(hunt.err)
    for v in sorted(set(badv) | openv | {16}, reverse=True):
        if found or (v != 16 and end - time.time() < 60):
            break
        if v not in hunts:
            hunts[v] = Hunt(WORK, ver=v)
        h = hunts[v]
        fver = v
        if not h.ready():
            continue
        gs = badv.get(v, [])
        lines = []
        for g in gs:
            for l in lines_of(g, results[g.name], p):
                if l not in lines:
                    lines.append(l)
        if lines:
            found = h.cases(lines[:400], 60, safety, p.entries)
        og = [g for g in opened if g.ver == v and g.entry]
        if not found and (gs or og):
            # exact counterexamples: the same goals with the source length fixed, every loop unrolled
            jobs = [(g, {'bound': b}) for g in gs[:10] + og[:10] for b in (g.bounds or [])]
            jobs.sort(key=lambda j: j[1]['bound'])
            if jobs:
                log('%d bounded runs' % len(jobs))
                res = run_jobs(jobs, run_bounded, PAR, lambda j: 60, min(end, time.time() + (600 if thorough else 120)))
                bl = []
                for k, (g, x) in enumerate(jobs):
                    r = res.get(k)
                    if r is not None and not isinstance(r, tuple):
                        if r.ok:
                            bounded_ok.setdefault(g.name, set()).add(x['bound'])
                        elif r.failed:
                            bounded_bad.add(g.name)
                        bl += [l for l in lines_of(g, r, p) if l not in lines and l not in bl]
                if bl:
                    log('%d counterexamples to replay' % len(bl))
                    found = h.cases(bl[:600], 60, safety, p.entries)
        if not found:
            hard = bool(gs) or v in openv or bool(cycle) or bool(extracted)
            found, n, d = h.search(p.mode, max(short, min(long_, int(end - time.time()) // 2)) if hard else short, seed, p.entries if v == 16 or not p.ventries else p.ventries, PAR if hard or thorough else 4)
            nrun += n
            ndist += d
    if not found and thorough and p.ventries:
        for v in VERS:
            if v not in hunts:
                h = Hunt(WORK, ver=v)
                if h.ready():
                    found, n, d = h.search(p.mode, 20, seed, p.ventries, 1)
                    nrun += n
                    ndist += d
                    fver = v
                    if found:
                        break
    if not found and (trouble or thorough) and end - time.time() > 20:
        hs = Hunt(WORK, san=True)
        if hs.ready():
            fver = 16
            lines = []
            for g in bad + badcone:
                if g.ver == 16:
                    lines += [l for l in lines_of(g, results[g.name], p) if l not in lines]
            if lines:
                found = hs.cases(lines[:400], 60, safety, p.entries)
        if hs.err is None and not found:
            found, n, d = hs.search(p.mode, max(10, min(long_, int(end - time.time()))), seed, p.entries, PAR)
            nrun += n
    for g in list(bad) if not found else ():
        # Every countermodel rests on something the invariants or axioms leave open, the same goal holds with
        # every loop unrolled for each small size, and nothing concrete turned up: not decided, no violation.
        if len(bounded_ok.get(g.name, ())) >= min(2, len(g.bounds or ())) > 0 and g.name not in bounded_bad \
                and all((o.info or {}).get('status') != 'sat' or (o.info or {}).get('rests_on') for o in results[g.name].failed):
            bad.remove(g)
            opened.append(g)
            log('open: %s: proved for the sizes %s only; no invariant for a loop variable' % (g.name, sorted(bounded_ok[g.name])))
    kf = []
    for q, what, kind, d in known():
        if q != pid:
            continue
        if kind == 'case' and hunt.err is None:
            case, got = d.split(' = ')
            rc, o = hunt.run(['show'] + case.split(), 20)
            o = o.split('\n')
            if rc == 0 and o[0] == got and o[1] != got:
                print('KNOWN-FINDING: property=%s %s (%s)' % (pid, what, case))
                kf.append(what)
        elif kind == 'lower':
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
            kf.append(what)
    # evidence
    nob = sum(len(r.obls) for r in results.values() if not isinstance(r, tuple))
    nok = sum(sum(1 for o in r.obls if o.ok) for r in results.values() if not isinstance(r, tuple))
    proved = [g for g in allgoals if classify(results[g.name], p.kinds if g.name in ownset else None) == 'proved']
    funcs, lib, inl, invs = set(), set(), set(), {}
    solver = queries = 0
    kinds = {}
    for g in allgoals:
        r = results[g.name]
        if isinstance(r, tuple):
            continue
        if extracted is None and g.entry:
            funcs |= direct(module(g.ver), g.entry) if g.ver in MODS else set()
        for d, how in r.stats.get('contracts_used', {}).items():
            (lib if how == 'library' else funcs).add(d)
        inl |= set(r.stats.get('inlined', []))
        solver += r.stats.get('solver_s', 0)
        queries += r.stats.get('queries', 0)
        for o in r.obls:
            kinds[o.kind] = kinds.get(o.kind, 0) + 1
    violation = bool(bad) or bool(found) or (bool(cycle) and bool(found))
    ev['coverage'] = {
        'obligations': nob, 'discharged': nok, 'checker_cmd': 'python3-vt /verif/check.py %s %s' % (pid, tier),
        'trusted_base': TRUSTED + ['contract assumed of the C++ library: ' + x for x in sorted(lib)],
        'back_end': 'z3 ' + z3.get_version_string(), 'solver_s': round(solver, 1), 'solver_queries': queries,
        'obligations_by_kind': kinds,
        'goals': len(allgoals), 'goals_proved': len(proved), 'own_goals': len(own),
        'functions_under_contract': sorted(funcs), 'functions_inlined': sorted(inl),
        'bounded_stand_in': [{'goal': g.name, 'why': (results[g.name][1] if isinstance(results[g.name], tuple) else results[g.name].reason or 'no invariant, or no answer of the solver')[:300],
                              'bound': 'discharged with every loop unrolled for the sizes %s; beyond that concrete runs only' % sorted(bounded_ok[g.name])
                              if g.name in bounded_ok and g.name not in bounded_bad else 'concrete runs only, see concrete_runs'} for g in opened],
        'failed_goals': [g.name for g in bad], 'failed_goals_of_callees': [g.name for g in badcone],
        'concrete_runs': nrun, 'concrete_distinct': ndist,
        'samples': [{'goal': g.name, 'obligations': len(results[g.name].obls), 's': round(results[g.name].secs, 2), 'strategy': str(getattr(results[g.name], 'strategy', ''))} for g in proved[:400]],
        'known_findings': kf, 'notes': notes,
    }
    if extracted:
        ev['coverage']['extraction'] = extracted
    ev['assumptions'] = ASSUME
    ev['violations'] = int(violation)
    ev['wall_s'] = round(time.time() - T0, 2)
    json.dump(ev, open(HERE + '/evidence/%s.json' % pid, 'w'), indent=1)
    log('%d goals, %d proved, %d open, %d failed; %d/%d obligations; %d concrete runs' % (len(allgoals), len(proved), len(opened), len(bad), nok, nob, nrun))
    if violation:
        rp = HERE + '/evidence/%s.replay.txt' % pid
        with open(rp, 'w') as f:
            f.write('property: %s\n' % pid)
            if found:
                c, _, why = found.partition(' | ')
                f.write('unicode version: %d\ncase: %s\nwhy: %s\nreplay: VER=%d bash %s/replay.sh %s\n' % (fver, c, why, fver, HERE, c))
            for g in bad + badcone:
                r = results[g.name]
                f.write('failed goal: %s\n' % g.name)
                for o in r.failed:
                    f.write('  obligation: %s [%s]\n    %s\n' % (o.name, o.kind, json.dumps(o.info, default=str)))
        if found:
            log('failing input (Unicode %d):' % fver, found)
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if found else ' no-failing-input-found'))
        return 1
    return 0


def run_bounded(job):
    g, extra = job
    g.budget = 50
    e = dict(extra)
    e.update({'strategies': [{}], 'unroll': 1000})
    return g.run(module(g.ver), e)


def find_cycle(goals, results, prov, mod):
    """Contracts must not rest on each other in a circle (recursion)."""
    edges = {}
    for g in goals:
        r = results[g.name]
        if isinstance(r, tuple) or not g.entry or g.ver != 16:
            continue
        us = {d for d, how in r.stats.get('contracts_used', {}).items() if how == 'contract'}
        for a in direct(mod, g.entry):
            edges.setdefault(a, set()).update(us)
    state = {}

    def go(a, path):
        state[a] = 1
        for b in edges.get(a, ()):
            if state.get(b) == 1:
                return path + [a, b]
            if b not in state:
                c = go(b, path + [a])
                if c:
                    return c
        state[a] = 2
        return None
    for a in list(edges):
        if a not in state:
            c = go(a, [])
            if c:
                return ' -> '.join(c)
    return None


TRUSTED = ['clang 18 front end (C++ to LLVM IR at -O0) and its sroa, early-cse and simplifycfg passes', 'the condition generator in /verif/vp',
           'z3', 'contracts of the C++ standard library members listed below']
ASSUME = ['strings are shorter than 2^31 - 64 elements', 'memory allocation does not fail (exceptions are compiled out)',
          'x86-64 Linux, wchar_t of 32 bits, char signed', 'machine arithmetic is modelled exactly (bit vectors), not as mathematical integers',
          'a source string is not changed while a call reads it']

if __name__ == '__main__':
    rc = 0
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
