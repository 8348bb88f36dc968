"""Builds the harness and the server from /repo's working tree (never inside /repo)."""
import hashlib, os, subprocess, sys, shutil, threading, time
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = ['g++', '-O0', '-std=c++20', '-mavx2', '-DNDEBUG', '-w', '-fPIC', '-I' + REPO + '/parser', '-I' + REPO]

class BuildError(Exception): pass

def _files():
    out = []
    for d in ('parser', 'nclangsrv'):
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                if f.endswith(('.cpp', '.h', '.hpp')): out.append(os.path.join(r, f))
    return sorted(out)

def _cc(src, obj, extra=()):
    r = subprocess.run(CXX + list(extra) + ['-c', src, '-o', obj], capture_output=True, text=True)
    if r.returncode: raise BuildError('%s: %s' % (src, r.stderr[-3000:]))

ASAN = ('-fsanitize=address', '-fno-omit-frame-pointer', '-O1')
asan = lambda o: os.path.basename(o).startswith(('a', 'vl.'))
DONE = []; LOCK = threading.Lock()
def build():
    """-> dict(vh=path of the harness, vl=that of the flat interface, srv=path of the server, conf beside it)"""
    with LOCK:
        if not DONE: DONE.append(_build())
    return DONE[0]

def _build():
    files = _files()
    h = hashlib.sha256(' '.join(CXX).encode() + open(os.path.abspath(__file__), 'rb').read())
    for f in files + [os.path.join(VERIF, 'harness', x) for x in ('vh.cpp', 'vl.cpp')]:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    base = os.path.join(VERIF, '.build'); os.makedirs(base, exist_ok=True)
    d = os.path.join(base, h.hexdigest()[:16])
    res = dict(vh=d + '/vh', vl=d + '/vl', srv=d + '/nclangsrv', dir=d)
    if not os.path.exists(d + '/ok'):
        t = d + '.%d' % os.getpid(); os.makedirs(t)
        lib = [f for f in files if f.endswith('.cpp') and '/parser/' in f and not f.endswith('dllmain.cpp')]
        srv = [f for f in files if f.endswith('.cpp') and '/nclangsrv/' in f]
        jobs = [(f, '%s/%d.o' % (t, i)) for i, f in enumerate(lib + srv)]
        for x in ('vh', 'vl'): jobs.append((os.path.join(VERIF, 'harness', x + '.cpp'), '%s/%s.o' % (t, x)))
        # the flat interface is also replayed under the address sanitizer
        wrap = [f for f in lib if 'Wrapper' in os.path.basename(f)]
        jobs += [(f, '%s/a%d.o' % (t, i)) for i, f in enumerate(wrap)]
        key = lambda j: 0 if 'Grammar' in j[0] else 1 if ('ValueCalc' in j[0] or 'vh.cpp' in j[0] or 'vl.cpp' in j[0] or 'JsonMess' in j[0]) else 2
        jobs.sort(key=key)
        with ThreadPoolExecutor(10) as ex:
            for x in [ex.submit(_cc, s, o, ('-I' + REPO + '/nclangsrv',) + (ASAN if asan(o) else ())) for s, o in jobs]: x.result()
        o = {s: x for s, x in jobs if not asan(x)}; A = [x for s, x in jobs if asan(x)]; L = [o[f] for f in lib]; S = [o[f] for f in srv]
        # the harness takes what it needs from the server as from a library, whatever files that is in
        subprocess.run(['ar', 'rcs', t + '/srv.a'] + S, check=True, capture_output=True)
        for out, objs in ((t + '/nclangsrv', L + S), (t + '/vh', [t + '/vh.o', t + '/srv.a'] + L), (t + '/vl', A + [o[f] for f in lib if f not in wrap])):
            r = subprocess.run(['g++', '-o', out] + objs + ['-lboost_program_options', '-lpthread'] + (list(ASAN) if out.endswith('/vl') else []), capture_output=True, text=True)
            if r.returncode: raise BuildError(r.stderr[-3000:])
        os.unlink(t + '/srv.a')
        for f in os.listdir(t):
            if f.endswith('.o'): os.unlink(os.path.join(t, f))
        os.symlink(os.path.join(REPO, 'conf'), t + '/conf')
        open(t + '/ok', 'w').close()
        for old in sorted((os.path.join(base, x) for x in os.listdir(base)), key=os.path.getmtime)[:-12]:
            if old != t: shutil.rmtree(old, ignore_errors=True)
        try: os.rename(t, d)
        except OSError: shutil.rmtree(t)
    return res

if __name__ == '__main__':
    t = time.time(); print(build(), round(time.time() - t, 1))
