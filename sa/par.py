"""Independent analyses on several cores. Workers are forked, so they see everything built so far;
only plain data comes back (terms are interned per process)."""
import multiprocessing
import os
import sys
import traceback

WORKERS = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
_fn = None


def _call(x):
    try:
        return True, _fn(x)
    except Exception:
        return False, traceback.format_exc()


def pmap(fn, items):
    global _fn
    items = list(items)
    if not items:
        return []
    _fn = fn
    if WORKERS == 1 or len(items) == 1:
        rs = [_call(x) for x in items]
    else:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(WORKERS, len(items)), maxtasksperchild=1) as p:
            rs = p.map(_call, items, chunksize=1)
    for ok, r in rs:
        if not ok:
            raise RuntimeError(r)
    return [r for _, r in rs]
