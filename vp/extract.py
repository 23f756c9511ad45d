"""Extraction of the code that is verified: clang compiles /repo's sources (as they are) to LLVM IR,
llvm-link joins them, and two standard passes bring locals into registers.  Nothing is edited."""
import os, re, subprocess, sys, tempfile, shutil, concurrent.futures, hashlib

REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LL = '/usr/lib/llvm-18/bin/'
FLAGS = ('-std=c++11 -O0 -w -Xclang -disable-O0-optnone -fno-exceptions -fno-threadsafe-statics -gline-tables-only '
         '-fno-discard-value-names -S -emit-llvm').split()
VERSIONS = [7, 8, 9, 10, 11, 12, 13, 14, 15, 16]


class BuildError(Exception):
    pass


def inc():
    return ['-I' + REPO + '/interface', '-I' + REPO + '/source']


def sources():
    s = REPO + '/source'
    return sorted(os.path.join(s, f) for f in os.listdir(s) if f.endswith('.cxx'))


def bits(ver):
    d = REPO + '/source/bits%d' % ver
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cxx'))


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(' '.join(cmd[:3]) + '\n' + r.stdout[-3000:])


def compile_ir(files, out, work):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        outs = []
        fs = []
        for k, f in enumerate(files):
            o = os.path.join(work, '%d_%s.ll' % (k, os.path.basename(f)))
            outs.append(o)
            fs.append(ex.submit(run, [LL + 'clang++'] + FLAGS + inc() + [f, '-o', o]))
        for f in fs:
            f.result()
    j = os.path.join(work, 'joined.ll')
    run([LL + 'llvm-link', '-S'] + outs + ['-o', j])
    run([LL + 'opt', '-S', '-passes=function(sroa,early-cse,simplifycfg)', j, '-o', out])


def entries(work):
    """The entry points; those whose function is not there (an internal one may be renamed) are left out."""
    lines = open(HERE + '/src/entry.cxx').read().split('\n')
    out = os.path.join(work, 'entry.cxx')
    for _ in range(6):
        open(out, 'w').write('\n'.join(lines))
        r = subprocess.run([LL + 'clang++', '-fsyntax-only', '-std=c++11', '-w', '-ferror-limit=0'] + inc() + [out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return out
        bad = {int(x) for x in re.findall(r'^%s:(\d+):\d+: (?:fatal )?error' % re.escape(out), r.stdout, re.M)}
        if not bad:
            break
        for k in bad:
            lines[k - 1] = ''
    return HERE + '/src/entry.cxx'


def extract(work, ver=16, only=None):
    """All of the library (with the tables of one Unicode version) and the entry points."""
    out = os.path.join(work, 'all%d.ll' % ver)
    os.makedirs(work, exist_ok=True)
    w = os.path.join(work, 'w%d' % ver)
    os.makedirs(w, exist_ok=True)
    files = sources() + bits(ver) + [entries(w)] if only is None else only
    compile_ir(files, out, w)
    shutil.rmtree(w)
    return out
