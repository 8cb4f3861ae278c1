# Several rearrangements of the other batteries at once, chosen at random (COMBO_SEED, COMBO_N, COMBO_SIZE), with COMBO_BUGS=1 on top of a bug of theirs.
import os as _os, random as _random, glob as _glob
_here = '/verif/selftest'
_all, _bugs = [], []
for _f in sorted(_glob.glob(_here + '/*.py')):
    if _os.path.basename(_f) in ('run.py', 'probe.py', 'combo.py'):
        continue
    exec(compile(open(_f).read(), _f, 'exec'), {'same': lambda n, *e: _all.append((n, e)), 'bug': lambda n, p, *e: _bugs.append((n, p, e))})
_r = _random.Random(int(_os.environ.get('COMBO_SEED', '1')))
for _n in range(int(_os.environ.get('COMBO_N', '30'))):
    _ts, _es, _names = {}, [], []
    _bug = _r.choice(_bugs) if _os.environ.get('COMBO_BUGS') else None
    for _name, _e in ([(_bug[0], _bug[2])] if _bug else []) + _r.sample(_all, 40):
        if len(_names) >= int(_os.environ.get('COMBO_SIZE', '6')):
            break
        _new, _ok = dict(_ts), True
        for _p, _a, _b in _e:
            _t = _new.setdefault(_p, open('/repo/' + _p).read() if _os.path.exists('/repo/' + _p) else '')
            if not _a or _t.count(_a) != 1:
                _ok = False
                break
            _new[_p] = _t.replace(_a, _b)
        if not _ok and _bug and _name == _bug[0]:
            _bug = None
        if _ok:
            _ts, _es, _names = _new, _es + list(_e), _names + [_name]
    if _bug:
        bug('combo%d:' % _n + '+'.join(_names), _bug[1], *_es)
    elif not _os.environ.get('COMBO_BUGS'):
        same('combo%d:' % _n + '+'.join(_names), *_es)
