"""Runs the language server with a sequence of messages and takes its output apart."""
import json, os, subprocess, time, re
from concurrent.futures import ThreadPoolExecutor
import build, run

class Broken(Exception): pass

def frame(body, head=None):
    b = body if isinstance(body, bytes) else (body if isinstance(body, str) else json.dumps(body)).encode('utf-8', 'surrogateescape')
    return (head or b'Content-Length: %d\r\n\r\n') % len(b) + b

def split(out):
    """strict: frames of exactly one length field and a JSON object each"""
    res = []; p = 0
    while p < len(out):
        m = re.compile(rb'Content-Length: (\d+)\r\n\r\n').match(out, p)
        if not m: raise Broken('no header where a message begins: %r' % out[p:p + 60])
        n = int(m.group(1)); b = out[m.end():m.end() + n]
        if len(b) < n: raise Broken('a message shorter than announced: %r' % b[-60:])
        try: v = json.loads(b.decode('utf-8', 'surrogateescape'))
        except ValueError as e: raise Broken('a message that is no JSON: %s %r' % (e, b[:80]))
        if not isinstance(v, dict) or v.get('jsonrpc') != '2.0': raise Broken('a message that is no JSON-RPC: %r' % b[:80])
        res.append(v); p = m.end() + n
    return res

COUNT = [0]
def args(settings=None, calc=True, macros=None):
    """the options in turn in their forms; a log changes no answer"""
    n = COUNT[0] = COUNT[0] + 1
    a = ['--calculate-path=%s' % ('1' if calc else '0')] if n % 3 else ['--calculate-path', 'true' if calc else 'false']
    if settings: a += ['--ncsetting-path=' + settings] if n % 2 else ['-n', settings]
    if macros: a += ['--macro-desc-path=' + macros] if n % 2 else ['-m', macros]
    if n % 7 == 3: a += ['--log-path', '%s/log%d' % (run.work(), n)]
    if n % 5 == 1: a += ['--single-line-output', 'true']
    return a

HUNG = []      # servers which did not come to an end; after a few of them nothing waits any longer
def patience(timeout): return timeout if len(HUNG) < 4 else 5 if len(HUNG) < 40 else .1
def serve(stream, a, timeout=100):
    """-> (messages, None) or (messages, what went wrong)"""
    b = build.build(); timeout = patience(timeout)
    try: p = subprocess.run([b['srv']] + a, input=stream, capture_output=True, timeout=timeout, env=run.ENV)
    except subprocess.TimeoutExpired as e:
        HUNG.append(a)
        try: m = split(e.stdout or b'')
        except Broken: m = []
        return m, 'the server does not come to an end'
    try: m = split(p.stdout)
    except Broken as e: return [], str(e)
    if p.returncode != 0: return m, 'the server ends with %s %s' % (p.returncode, p.stderr.decode('utf-8', 'replace')[-200:])
    return m, None

def many(jobs, procs=8):
    """jobs: [(stream, args)]"""
    with ThreadPoolExecutor(procs) as ex: return list(ex.map(lambda j: serve(*j), jobs))

# ----------------------------------------------------------------- messages
def msg(method, params=None, id=None):
    m = {'jsonrpc': '2.0', 'method': method}
    if id is not None: m['id'] = id
    if params is not None: m['params'] = params
    return m
def initialize(i): return msg('initialize', {'processId': None, 'capabilities': {}}, i)
def opened(uri, text, v=1): return msg('textDocument/didOpen', {'textDocument': {'uri': uri, 'languageId': 'nc', 'version': v, 'text': text}})
def changed(uri, texts, v=2): return msg('textDocument/didChange', {'textDocument': {'uri': uri, 'version': v}, 'contentChanges': [{'text': t} for t in texts]})
def closed(uri): return msg('textDocument/didClose', {'textDocument': {'uri': uri}})
def hover(uri, line, ch, i): return msg('textDocument/hover', {'textDocument': {'uri': uri}, 'position': {'line': line, 'character': ch}}, i)
def lens(uri, i): return msg('textDocument/codeLens', {'textDocument': {'uri': uri}}, i)
def lensres(line, i): return msg('codeLens/resolve', {'range': {'start': {'line': line, 'character': 0}, 'end': {'line': line, 'character': 0}}}, i)
def completion(uri, i): return msg('textDocument/completion', {'textDocument': {'uri': uri}, 'position': {'line': 0, 'character': 0}}, i)
def cresolve(label, i): return msg('completionItem/resolve', {'label': label, 'kind': 15, 'insertTextFormat': 2, 'data': 1}, i)
def shutdown(i): return msg('shutdown', None, i)
def exit_(): return msg('exit')
