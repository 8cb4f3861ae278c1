#!/usr/bin/env python3
"""Runs every check on variants of /repo made in scratch copies under /tmp.

usage: selftest/run.py [-j N] [-g GROUP,GROUP...] FILE... [name-substring...]   (-g: only these groups of analyses)

A case file calls  same(name, edits...)  for an edit that keeps the behaviour (every check must stay quiet) and
bug(name, 'M02 R01', edits...)  for one that does not (one of those properties must be violated; 'X' means nothing
in reach is expected to see it). An edit is (file, old, new), old occurring once. No check reads this directory."""
import os
import queue
import shutil
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ROOT = '/tmp/selftest.%d' % os.getpid()
cases = []
GROUPS = []


def same(name, *edits):
    cases.append((name, None, edits))


def bug(name, props, *edits):
    cases.append((name, props.split(), edits))


def worker(i, q, out, lock):
    w = '%s/w%d' % (ROOT, i)
    v = w + '/verif'
    os.makedirs(v, exist_ok=True)
    for n in ('sa', 'driver', 'tools', 'known-findings.txt', 'properties.jsonl'):
        subprocess.run(['cp', '-a', VERIF + '/' + n, v + '/' + n])     # a copy: /verif may be edited meanwhile
    shutil.copy(VERIF + '/check.py', v + '/check.py')
    shutil.copy(HERE + '/probe.py', v + '/probe.py')
    if not os.path.exists(v + '/.cache'):
        subprocess.run(['cp', '-a', VERIF + '/.cache', v + '/.cache'])
    while True:
        try:
            name, props, edits = q.get_nowait()
        except queue.Empty:
            return
        repo = w + '/repo'
        shutil.rmtree(repo, ignore_errors=True)
        os.makedirs(repo)
        subprocess.run('git -C /repo archive HEAD | tar x -C %s; cp /repo/Cargo.lock %s 2>/dev/null; cp -a /repo/.git %s/.git' % (repo, repo, repo), shell=True)
        msg = ''
        for f, a, b in edits:
            p = repo + '/' + f
            t = open(p).read() if os.path.exists(p) else ''
            if t.count(a) != 1 and not (a == '' and not t):
                msg = 'EDIT %d matches of %r' % (t.count(a), a[:60])
                break
            open(p, 'w').write(t.replace(a, b) if a else b)
        if msg:
            res = 'BROKEN ' + msg
        else:
            r = subprocess.run(['python3', v + '/probe.py', v] + GROUPS, env=dict(os.environ, VERIF_REPO=repo), text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            viol = sorted(set(l.split('property=')[1].split()[0] for l in r.stdout.split('\n') if l.startswith('VIOLATION')))
            det = '\n'.join('      ' + l[:260] for l in r.stdout.split('\n') if l.startswith('  ') or 'error' in l)
            if 'failed:' in r.stdout and ('error[' in r.stdout or 'error:' in r.stdout):
                res = 'BROKEN does not compile\n' + r.stdout[-1800:]
            elif 'Traceback' in r.stdout:
                res = 'FAIL crash\n' + r.stdout[-1500:]
            elif props is None:
                res = 'ok quiet' if not viol else 'FALSE-ALARM %s\n%s' % (' '.join(viol), det)
            elif props == ['X']:
                res = 'ok (beyond reach) %s' % ' '.join(viol)
            else:
                hit = [p for p in props if p in viol]
                res = ('ok caught by %s' % ' '.join(viol) + ('\n' + det if os.environ.get('V') else '')) if hit else 'MISSED (violated: %s)\n%s' % (' '.join(viol), det)
        with lock:
            out.append((name, res))
            print('%-6s %s: %s' % ('bug' if props else 'same', name, res), flush=True)


def main():
    args = sys.argv[1:]
    n = 3
    if args and args[0] == '-j':
        n = int(args[1])
        args = args[2:]
    if args and args[0] == '-g':
        GROUPS.extend(args[1].split(','))
        args = args[2:]
    dest = None
    if args and args[0] == '--apply':      # only apply the (first) case named to a copy of /repo
        dest = args[1]
        args = args[2:]
    files = [a for a in args if a.endswith('.py')]
    names = [a for a in args if not a.endswith('.py')]
    for f in files:
        exec(compile(open(f).read(), f, 'exec'), {'same': same, 'bug': bug})
    todo = [c for c in cases if not names or any(x in c[0] for x in names)]
    if dest:
        for f, a, b in todo[0][2]:
            t = open(dest + '/' + f).read()
            assert t.count(a) == 1, (f, t.count(a), a)
            open(dest + '/' + f, 'w').write(t.replace(a, b))
        return
    q = queue.Queue()
    for c in todo:
        q.put(c)
    out = []
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(i, q, out, lock)) for i in range(min(n, len(todo)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    shutil.rmtree(ROOT)
    good = sum(1 for _, r in out if r.startswith('ok'))
    print('%d of %d as expected' % (good, len(out)))


main()
