"""Type-checked program -> LLVM IR for the current /repo tree.

clang 18 is the front end (the repository's own g++ flags: -std=c++11, release).
The repository has two spellings g++ accepts and clang rejects; they are
rewritten in a scratch copy, driven by clang's own diagnostics:
  * `X::operator T*()` named through a base that clang will not look up
  * an ordered comparison of a pointer with 0
Nothing is executed; the scratch copy is removed before returning.
"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from ir import Module

REPO = os.environ.get('MG_REPO', '/repo')
GCC = '/usr/lib/gcc/x86_64-linux-gnu/10'


class BuildError(Exception):
    pass


CORE = ['mg/core/bitstream.cpp', 'mg/core/file.cpp', 'mg/core/thread.cpp', 'mg/core/uvbase.cpp',
        'mg/core/nx/ctime.cpp', 'mg/core/nx/util.cpp', 'mg/media/wincrc.cpp', 'b64/src/cencode.cpp',
        'b64/src/cdecode.cpp']


def flags(src):
    f = ['-std=c++11', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-femit-all-decls', '-w',
         '-fdebug-prefix-map=%s=%s/src' % (src, REPO), '-I' + src, '-I' + src + '/mg/core', '-I' + src + '/b64/include',
         '-ferror-limit=0', '-fno-caret-diagnostics', '-fno-color-diagnostics']
    if os.path.isdir(GCC):
        f.insert(0, '--gcc-install-dir=' + GCC)
    return f


ERR = re.compile(r'^(\S+?):(\d+):(\d+): (?:fatal )?error: (.*)$', re.M)


def _rewrite(src, path, errs):
    """apply the two known rewrites at the reported positions; True when something changed"""
    lines = open(path, encoding='latin-1').read().split('\n')
    done = False
    for ln, col, msg in sorted(set(errs), reverse=True):
        s = lines[ln - 1]
        if 'ordered comparison between pointer and zero' in msg:
            # the reported column is the operator
            m = re.compile(r'[<>]=?').search(s, max(0, col - 2))
            if m:
                op = '==' if '=' in m.group(0) and m.group(0)[0] == '<' and False else '!='
                lines[ln - 1] = s[:m.start()] + op + s[m.end():]
                done = True
        elif "no member named 'operator" in msg:
            m = re.search(r'(?:[A-Za-z_:]+(?:<[^<>]*>)?\s*::\s*)+operator\b', s)
            if m:
                lines[ln - 1] = s[:m.start()] + 'this->operator' + s[m.end():]
                done = True
    if done:
        open(path, 'w', encoding='latin-1').write('\n'.join(lines))
    return done


def compile_ir(units, driver=None, extra=(), post=('mem2reg',), keep=None):
    """units: paths relative to /repo/src; driver: C++ text.  Returns (Module, info)"""
    tmp = tempfile.mkdtemp(prefix='mgsa.')
    try:
        src = tmp + '/src'
        os.mkdir(src)
        for h in os.listdir(os.path.join(REPO, 'src')):
            if h.endswith('.h'):
                shutil.copy(os.path.join(REPO, 'src', h), src)
        for d in ('mg', 'b64'):
            shutil.copytree(os.path.join(REPO, 'src', d), src + '/' + d, symlinks=True)
        jobs = []
        for u in units:
            p = src + '/' + u
            if not os.path.exists(p):
                raise BuildError('source unit vanished: ' + u)
            jobs.append(p)
        if driver is not None:
            p = tmp + '/driver.cpp'
            open(p, 'w').write(driver)
            jobs.append(p)
        fl = flags(src) + list(extra)

        def cc(p):
            out = tmp + '/' + re.sub(r'\W', '_', p[len(tmp):]) + '.bc'
            r = subprocess.run(['clang++'] + fl + ['-c', '-emit-llvm', p, '-o', out], capture_output=True, text=True)
            return p, out, r

        outs = {}
        todo = jobs
        for rnd in range(12):
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(cc, todo))
            errs = {}
            failed = []
            for p, out, r in res:
                if r.returncode == 0:
                    outs[p] = out
                else:
                    failed.append((p, r.stderr))
                    for m in ERR.finditer(r.stderr):
                        f = m.group(1)
                        f = f.replace(REPO + '/src', src, 1) if f.startswith(REPO + '/src') else f
                        errs.setdefault(f, []).append((int(m.group(2)), int(m.group(3)), m.group(4)))
            if not failed:
                break
            ch = False
            for f, l in errs.items():
                if f.startswith(src):
                    ch |= _rewrite(src, f, l)
            if not ch:
                raise BuildError('does not compile: %s\n%s' % (failed[0][0], failed[0][1][:3000]))
            todo = [p for p, _ in failed]
        else:
            raise BuildError('front end rewrites do not converge')
        allbc = tmp + '/all.bc'
        r = subprocess.run(['llvm-link-18'] + [outs[p] for p in jobs] + ['-o', allbc], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('llvm-link: ' + r.stderr[:2000])
        r = subprocess.run(['opt-18', '-S', '-passes=' + ','.join(post), allbc, '-o', tmp + '/all.ll'],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError('opt: ' + r.stderr[:2000])
        text = open(tmp + '/all.ll').read()
        if keep:
            open(keep, 'w').write(text)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    m = Module(text)
    m.units = list(units)
    return m


if __name__ == '__main__':
    import time
    t = time.time()
    m = compile_ir(CORE, open(sys.argv[1]).read() if len(sys.argv) > 1 else '#include <mgcore.h>\n', keep='/tmp/all.ll')
    print(len(m.defined_names()), time.time() - t)


def selftest():
    """the tools the checks need are there"""
    for t in ("clang++", "llvm-link-18", "opt-18"):
        subprocess.run([t, '--version'], check=True, stdout=subprocess.DEVNULL)
