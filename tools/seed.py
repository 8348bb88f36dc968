#!/usr/bin/env python3
"""Makes a planted bug: seed(id, property, [(file, old, new)], needs, breaks, demo source). Works on a scratch copy."""
import os, subprocess, json, shutil, sys, stat
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
W = '/tmp/seedtree'
ROOT = '25a567f'
LIB = r'''import subprocess, json, os, sys, tempfile
class Server:
    """the built language server of the tree in the current directory"""
    def __init__(s, settings=None, args=('--calculate-path=1',)):
        a = ['vscode-client/out/nclangsrv'] + list(args)
        if settings is not None:
            s.dir = tempfile.mkdtemp(); p = s.dir + '/nc_settings.json'
            open(p, 'w').write(settings if isinstance(settings, str) else json.dumps(settings)); a.append('--ncsetting-path=' + p)
        s.p = subprocess.Popen(a, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL); s.n = 0
        s.req('initialize', {'capabilities': {}})
    def send(s, m):
        b = (m if isinstance(m, str) else json.dumps(m)).encode()
        s.raw(b'Content-Length: %d\r\n\r\n' % len(b) + b)
    def raw(s, b): s.p.stdin.write(b); s.p.stdin.flush()
    def recv(s):
        h = b''
        while not h.endswith(b'\r\n\r\n'):
            c = s.p.stdout.read(1)
            if not c: raise SystemExit('FAIL: the server ended')
            h += c
        return json.loads(s.p.stdout.read(int([x for x in h.split(b'\r\n') if x.lower().startswith(b'content-length')][0].split(b':')[1])))
    def note(s, m, p): s.send({'jsonrpc': '2.0', 'method': m, 'params': p})
    def req(s, m, p):
        s.n += 1; s.send({'jsonrpc': '2.0', 'id': s.n, 'method': m, 'params': p}); return s.recv()
    def open(s, text, uri='file:///a.nc'):
        s.note('textDocument/didOpen', {'textDocument': {'uri': uri, 'languageId': 'nc', 'version': 1, 'text': text}})
        return s.recv()['params']['diagnostics']
    def change(s, text, uri='file:///a.nc'):
        s.note('textDocument/didChange', {'textDocument': {'uri': uri, 'version': 2}, 'contentChanges': [{'text': text}]})
        return s.recv()['params']['diagnostics']
    def lenses(s, uri='file:///a.nc'):
        """[(line, title)]"""
        out = []
        for l in s.req('textDocument/codeLens', {'textDocument': {'uri': uri}})['result'] or []:
            if not l.get('command'): l = s.req('codeLens/resolve', l)['result']
            out.append((l['range']['start']['line'], l['command']['title']))
        return out
    def hover(s, line, ch, uri='file:///a.nc'):
        return s.req('textDocument/hover', {'textDocument': {'uri': uri}, 'position': {'line': line, 'character': ch}})['result']
def settings(driver='fanuc_mill', tool='mill_3axis', kind='mill', kin={}, dflt={}, points={}, zero={}):
    d = json.loads("{\"machine_tool\": \"mill_3axis\", \"machine_tool_type\": \"mill\", \"driver\": \"fanuc_mill\", \"machine_points_data\": {\"tool_exchange_point\": {\"X\": 0.0, \"Y\": 0.0, \"Z\": 500.0}, \"machine_base_point\": {\"X\": 0.0, \"Y\": 0.0, \"Z\": 500.0, \"I\": 0.0, \"J\": 0.0, \"K\": 0.0}}, \"kinematics\": {\"cartesian_system_axis\": {\"X\": {\"range_min\": -500.0, \"range_max\": 500.0}, \"Y\": {\"range_min\": -500.0, \"range_max\": 500.0}, \"Z\": {\"range_min\": 0.0, \"range_max\": 1000.0}}, \"max_working_feed\": 20000, \"max_fast_feed\": 20000, \"maximum_spindle_speed\": 10000, \"numer_of_items_in_the_warehouse\": 30, \"tool_exchange_time\": 6, \"pallet_exchange_time\": 1, \"tool_measurement_time\": 3, \"diameter_programming_2x\": false, \"auto_measure_after_tool_selection\": false, \"pallet_exchange_code\": \"\", \"pallet_exchange_code_value\": \"\", \"tool_measurement_code\": \"\", \"tool_measurement_code_value\": \"\"}, \"cnc_default_values\": {\"default_motion\": \"rapid_traverse\", \"default_work_plane\": \"XY\", \"default_driver_units\": \"millimeter\", \"default_programming\": \"absolute\", \"default_feed_mode\": \"feed_per_minute\", \"default_rotation_direction\": \"right\", \"drill_cycle_z_value\": \"absolute\", \"drill_cycle_return_value\": \"beginning\", \"default_rotation\": 1000, \"rapid_traverse_cancel_cycle\": false, \"linear_interpolation_cancel_cycle\": false, \"circular_interpolation_cw_cancel_cycle\": false, \"circular_interpolation_ccw_cancel_cycle\": false, \"cycle_cancel_starts_rapid_traverse\": false, \"operator_turns_on_rotation\": false, \"tool_number_executes_exchange\": false, \"auto_rapid_traverse_after_tool_exchange\": false}, \"zero_point\": {\"X\": 0.0, \"Y\": 0.0, \"Z\": 0.0}}")
    d['driver'] = driver; d['machine_tool'] = tool; d['machine_tool_type'] = kind
    d['kinematics'].update(kin); d['cnc_default_values'].update(dflt); d['machine_points_data'].update(points); d['zero_point'].update(zero)
    return d
def field(title, name):
    for x in title.split('|'):
        if name in x: return x.split('=')[1].strip()
def client(commands):
    """the library of the tree, driven by client.cpp through its C interface; the answers, one per command"""
    here = os.path.dirname(os.path.abspath(__file__))
    with tempfile.TemporaryDirectory() as d:
        out = os.path.abspath('vscode-client/out')
        r = subprocess.run(['g++', '-O0', '-w', '-std=c++20', '-mavx2', '-DNDEBUG', '-Iparser', '-I.', os.path.join(here, 'client.cpp'), out + '/libparser.so', '-Wl,-rpath,' + out, '-o', d + '/c'], stderr=subprocess.PIPE)
        if r.returncode: print(r.stderr.decode()[-2000:]); raise SystemExit('FAIL: no client')
        json.dump(settings(), open(d + '/default.json', 'w'))
        r = subprocess.run([d + '/c', 'conf'], input='\n'.join(c.replace('DEFAULT', d + '/default.json') for c in commands) + '\n', stdout=subprocess.PIPE, text=True)
        return r.stdout.split('\n')[:-1]
def extension(events, user={}):
    """the extension of the tree with the stand-ins of client.js for the editor; what it does and shows for each event"""
    here = os.path.dirname(os.path.abspath(__file__)); ts = '/opt/veriftools/node/node_modules/typescript'
    with tempfile.TemporaryDirectory() as d:
        subprocess.run(['node', '-e', "const ts=require(process.argv[1]),fs=require('fs');fs.writeFileSync(process.argv[3],ts.transpileModule(fs.readFileSync(process.argv[2],'utf8'),{compilerOptions:{module:'commonjs',target:'es2020'}}).outputText)", ts, 'vscode-client/src/extension.ts', d + '/extension.js'], check=True)
        t = json.dumps(dict(ext='/opt/ncproj', files=[d + '/m/mill.ncsetting'], events=events)).replace('@W', d)
        r = subprocess.run(['node', os.path.join(here, 'client.js'), d + '/extension.js', 'package.json', d], input=t + '\n', stdout=subprocess.PIPE, text=True)
        return json.loads(r.stdout.replace(d, '@W'))
def check(what, got, want):
    if got != want: print('FAIL: %s is %r, should be %r' % (what, got, want)); sys.exit(1)
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def seed(id, prop, edits, needs, breaks, demo, check=True, lib=False):
    if not os.path.isdir(W): sh('git -C /repo worktree prune; cp -a /repo ' + W)
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo && git -C %s reset -q --hard %s' % (W, W, W, sh('git -C /repo rev-parse HEAD').stdout.strip()))
    for f, a, b in edits:
        p = W + '/' + f; s = open(p, encoding='utf-8-sig', newline='').read(); bom = open(p, 'rb').read(3) == b'\xef\xbb\xbf'
        if '\r\n' in s: a = a.replace('\n', '\r\n'); b = b.replace('\n', '\r\n')
        assert s.count(a) == 1, (id, f, s.count(a), a)
        s = s.replace(a, b)
        open(p, 'wb').write((b'\xef\xbb\xbf' if bom else b'') + s.encode())
    d = V + '/seeded/' + id; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w', newline='').write(subprocess.run(['git', '-C', W, 'diff', '--binary'], capture_output=True).stdout.decode('utf-8'))
    open(d + '/srv.py', 'w').write(LIB); open(d + '/demo.py', 'w').write('from srv import *\n' + demo)
    if lib == 'ext': shutil.copy(V + '/harness/client.js', d + '/client.js')
    elif lib: shutil.copy(V + '/harness/vl.cpp', d + '/client.cpp')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: the property holds here\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    diff = open(d + '/patch.diff', newline='').read(); f = ''
    for l in diff.split('\n'):
        if l.startswith('--- a/'): f = l[6:].strip()
        elif l.startswith('-') and l[1:].strip():
            old = subprocess.run(['git', '-C', '/repo', 'show', ROOT + ':' + f], capture_output=True).stdout.decode('utf-8', 'replace')
            if l[1:].strip() not in [x.strip() for x in old.split('\n')]: print(id, 'BAD: not a line of the original repository:', l)
    sh('git -C %s checkout -q -- .' % W)
    if check: return confirm(id)
def confirm(id):
    """in the scratch copy, bound over /repo by path rewriting of the build scripts"""
    d = V + '/seeded/' + id
    B = open('/opt/vp/build.sh').read().replace('cd /repo', 'cd ' + W); T = open('/opt/vp/test.sh').read().replace('/repo', W).replace('/opt/vp/build.sh', '/tmp/sb.sh')
    open('/tmp/sb.sh', 'w').write(B); open('/tmp/st.sh', 'w').write(T)
    if not os.path.exists(W + '/_build/.mine'): sh('rm -rf %s/_build && mkdir %s/_build && touch %s/_build/.mine' % (W, W, W))
    r = sh('git -C %s checkout -q -- . && git -C %s apply %s/patch.diff' % (W, W, os.path.abspath(d))); assert r.returncode == 0, r.stderr
    r = sh('bash /tmp/sb.sh'); assert r.returncode == 0, r.stdout[-2000:]
    r = sh('bash /tmp/st.sh /tmp/so.json'); o = json.load(open('/tmp/so.json')); base = json.load(open('/opt/vp/BASELINE.json'))
    def names(x): return set(x) if isinstance(x, list) else set(k for k, v in x.items() if v in ('pass', 'passed', True))
    passed = names(o.get('passed', o)); want = names(base.get('passed', base.get('stable', base.get('tests', []))))
    bad = want - passed
    a = sh('bash %s/demo.sh' % os.path.abspath(d), cwd=W)
    sh('git -C %s checkout -q -- .' % W); sh('bash /tmp/sb.sh')
    b = sh('bash %s/demo.sh' % os.path.abspath(d), cwd=W)
    ok = not bad and len(want) > 0 and a.returncode != 0 and b.returncode == 0
    print(id, 'OK' if ok else 'BAD', 'tests lost:', list(bad)[:3], len(want), 'with:', a.returncode, (a.stdout + a.stderr)[-200:].strip(), 'without:', b.returncode, (b.stdout + b.stderr)[-300:].strip())
    return ok
