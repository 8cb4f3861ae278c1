"""What the opaque library functions do, as far as the rules need it. A function that is not
listed here has an unknown result and leaves unknown values behind every `&mut` it gets."""
from .terms import *
from .core import Body, Call, mkapp as _mk
from . import core

T = {}


def model(*names):
    def d(f):
        for n in names:
            T[n] = f
        return f
    return d


def lookup(an, st, c):
    f = T.get(c.name)
    if f is None:
        f = T.get(c.callee['pretty'])
    if f is None and 'vec_deque' in c.name:
        n = c.name
        for a, b in DEQUE:
            n = n.replace(a, b)
        f = T.get(n)
    if f is not None:
        return f(an, st, c)
    return generic(an, st, c)


# a deque is a sequence like any other
DEQUE = (('alloc::collections::vec_deque::into_iter::', 'alloc::vec::into_iter::'), ('alloc::collections::vec_deque::iter::', 'core::slice::iter::'),
         ('alloc::collections::vec_deque::iter_mut::', 'core::slice::iter::'), ('alloc::collections::vec_deque::drain::', 'alloc::vec::drain::'),
         ('alloc::collections::vec_deque::VecDeque::push_back', 'alloc::vec::Vec::push'),
         ('alloc::collections::vec_deque::VecDeque::pop_back', 'alloc::vec::Vec::pop'),
         ('alloc::collections::vec_deque::VecDeque::front', '[T]::first'), ('alloc::collections::vec_deque::VecDeque::back', '[T]::last'),
         ('alloc::collections::vec_deque::VecDeque', 'alloc::vec::Vec'))


def one(st, v):
    return [(st, v)]


# ---- identity on content: conversions between owned and borrowed text and bytes

IDENT = '''
<alloc::string::String as core::convert::From>::from
<alloc::string::String as core::clone::Clone>::clone
<alloc::string::String as core::ops::deref::Deref>::deref
<alloc::string::String as core::convert::AsRef>::as_ref
<alloc::string::String as core::borrow::Borrow>::borrow
<alloc::vec::Vec as core::ops::deref::Deref>::deref
<alloc::vec::Vec as core::clone::Clone>::clone
<alloc::vec::Vec as core::convert::AsRef>::as_ref
<alloc::vec::Vec as core::convert::From>::from
<bytes::bytes_mut::BytesMut as core::clone::Clone>::clone
<bytes::bytes_mut::BytesMut as core::convert::AsRef>::as_ref
<bytes::bytes_mut::BytesMut as core::convert::From>::from
<bytes::bytes_mut::BytesMut as core::ops::deref::Deref>::deref
<bytes::bytes_mut::BytesMut as core::borrow::Borrow>::borrow
<bytes::bytes::Bytes as core::ops::deref::Deref>::deref
<bytes::bytes::Bytes as core::convert::From>::from
<bytes::bytes::Bytes as core::clone::Clone>::clone
bytes::bytes::Bytes::copy_from_slice
bytes::bytes_mut::BytesMut::freeze
bytes::buf::buf_impl::Buf::chunk
<bytes::bytes_mut::BytesMut as bytes::buf::buf_impl::Buf>::chunk
alloc::string::String::as_str
alloc::string::String::as_bytes
alloc::string::String::into_bytes
alloc::string::String::into_boxed_str
alloc::vec::Vec::as_slice
alloc::vec::Vec::into_boxed_slice
alloc::slice::{impl#0}::to_vec
[T]::to_vec
[T]::into_vec
str::as_bytes
str::to_string
str::to_owned
str::into_string
<str as alloc::borrow::ToOwned>::to_owned
<str as alloc::string::ToString>::to_string
<alloc::string::String as alloc::string::ToString>::to_string
<alloc::borrow::Cow as core::ops::deref::Deref>::deref
<tokio::sync::mpsc::bounded::Sender as core::clone::Clone>::clone
<tokio::sync::mpsc::unbounded::UnboundedSender as core::clone::Clone>::clone
<tokio::sync::broadcast::Sender as core::clone::Clone>::clone
<alloc::sync::Arc as core::clone::Clone>::clone
<alloc::sync::Arc as core::ops::deref::Deref>::deref
<alloc::boxed::Box as core::ops::deref::Deref>::deref
<u16 as core::clone::Clone>::clone
<u8 as core::clone::Clone>::clone
<u64 as core::clone::Clone>::clone
<usize as core::clone::Clone>::clone
<bool as core::clone::Clone>::clone
core::hint::must_use
alloc::borrow::Cow::into_owned
<T as alloc::borrow::ToOwned>::to_owned
<[T] as alloc::borrow::ToOwned>::to_owned
'''.split('\n')


def ident(an, st, c):
    t = an.content(st, c.args[0])
    if t.k == 'agg' and t.a[0] == 'array' and 'bytes::' in c.name:
        t = as_bytes(an, st, t)
    return one(st, t)


IDENTS = {n.strip() for n in IDENT if n.strip()}
for n in IDENT:
    if n.strip():
        T[n.strip()] = ident


TEXTY = ('alloc::string::String', 'str', 'bytes::bytes_mut::BytesMut', 'alloc::vec::Vec', 'bytes::bytes::Bytes')


def arg_def(an, c, i):
    """Definition path of the (dereferenced) type of an argument."""
    ty = c.argty(i)
    if ty is None:
        return ''
    t = an.f.types[an.f.strip_ref(ty)]
    return t.get('def') or t['s']


@model('<T as alloc::string::ToString>::to_string')
def to_string(an, st, c):
    t = an.content(st, c.args[0])
    d = arg_def(an, c, 0)
    if d in TEXTY or t.k == 'str':
        return one(st, t)
    return one(st, app('display', t))


@model('core::convert::From::from', 'core::convert::Into::into', '<T as core::convert::Into>::into')
def from_(an, st, c):
    # an opaque conversion: text to text is the identity
    s = an.f.tys(an.f.strip_ref(c.argty(0))) if c.argty(0) is not None else ''
    r = an.f.types[c.retty()]
    rd = r.get('def') or r['s']
    if (rd in TEXTY or rd.startswith('alloc::boxed')) and arg_def(an, c, 0) in TEXTY + ('[u8]',):
        return one(st, an.content(st, c.args[0]))
    if rd == arg_def(an, c, 0):
        return one(st, c.args[0])
    rng = an.f.int_range(c.retty())
    if rng and c.argty(0) is not None and (an.f.int_range(c.argty(0)) or an.f.tys(c.argty(0)) == 'bool'):
        return one(st, c.args[0])          # lossless by construction
    return one(st, app('from', STR(rd), an.content(st, c.args[0])))


# ---- memory

@model('alloc::boxed::Box::new', 'alloc::boxed::Box::pin', 'alloc::sync::Arc::new', 'alloc::rc::Rc::new')
def box_new(an, st, c):
    x = c.args[0]
    if x.k in ('zst', 'fn', 'int', 'str'):
        return one(st, x)
    h = an.fresh(st, c.site, 'box')
    st.env[('H', h)] = x
    r = ref(('H', h))
    if c.name.endswith('::pin'):
        return one(st, agg('core::pin::Pin', None, (r,)))
    return one(st, r)


@model('alloc::boxed::Box::new_uninit')
def box_uninit(an, st, c):
    h = an.fresh(st, c.site, 'box')
    return one(st, ref(('H', h)))


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def box_vec(an, st, c):
    v = an.content(st, c.args[0])
    n = 0
    while n < 4 and v.k == 'agg' and len(v.a[2]) == 1 and v.a[0] != 'array':
        v = v.a[2][0]
        n += 1
    if v.k == 'upd':
        x = v
        while x.k == 'upd':
            x = x.a[1][0][1]
        while x.k == 'agg' and x.a[0] != 'array' and len(x.a[2]) == 1:
            x = x.a[2][0]
        v = x
    return one(st, v)


@model('core::mem::replace')
def mem_replace(an, st, c):
    old = an.content(st, c.args[0])
    an.setref(st, c.args[0], c.args[1])
    return one(st, old)


@model('core::mem::take')
def mem_take(an, st, c):
    old = an.content(st, c.args[0])
    ty = c.retty()
    d = an.f.types[ty].get('def') or ''
    if d in TEXTY:
        new = emptied(old)
    elif d == OPT:
        new = NONE
    elif d.endswith('HashMap'):
        new = app('emptymap')
    else:
        new = app('default', STR(an.f.tys(ty)))
    an.setref(st, c.args[0], new)
    return one(st, old)


@model('core::mem::swap')
def mem_swap(an, st, c):
    x, y = an.content(st, c.args[0]), an.content(st, c.args[1])
    an.setref(st, c.args[0], y)
    an.setref(st, c.args[1], x)
    return one(st, UNIT)


@model('core::mem::drop', 'core::mem::forget')
def mem_drop(an, st, c):
    if an.emit(st, 'drop', c.site, c.args, info=c) is False:
        return []
    return one(st, UNIT)


# ---- comparisons

def _eq(an, st, c):
    return mkapp('eq', an.content(st, c.args[0]), an.content(st, c.args[1]))


@model('<alloc::string::String as core::cmp::PartialEq>::eq', '<str as core::cmp::PartialEq>::eq',
       '<bytes::bytes_mut::BytesMut as core::cmp::PartialEq>::eq', '<alloc::vec::Vec as core::cmp::PartialEq>::eq',
       '[T]::eq')
def eq(an, st, c):
    r = _eq(an, st, c)
    RNG.setdefault(r, (0, 1))
    return one(st, r)


@model('<alloc::string::String as core::cmp::PartialEq>::ne', '<str as core::cmp::PartialEq>::ne')
def ne(an, st, c):
    return one(st, mkapp('not', _eq(an, st, c)))


@model('tokio::sync::mpsc::bounded::Sender::same_channel')
def same_channel(an, st, c):
    r = mkapp('same_channel', an.content(st, c.args[0]), an.content(st, c.args[1]))
    return one(st, r)


def boolop(op):
    def f(an, st, c):
        xs = [an.content(st, a) for a in c.args]
        if op == 'contains' and xs[1].k in ('agg', 'fn') and not (xs[1].k == 'agg' and xs[1].a[0] == 'array'):
            return search_in(an, st, c, app('chars', xs[0]), 'any')
        if op == 'starts_with' and xs[1].k in ('str', 'int'):
            PREFIXES.setdefault(xs[0], set()).add(xs[1])
        if op == 'contains':
            PATTERNS.setdefault(xs[0], set()).add(xs[1])
        r = mkapp(op, *xs)
        RNG.setdefault(r, (0, 1))
        return one(st, r)
    return f


for n, o in [('str::contains', 'contains'), ('str::starts_with', 'starts_with'), ('str::ends_with', 'ends_with'),
             ('[T]::contains', 'member'), ('[T]::starts_with', 'starts_with'), ('[T]::ends_with', 'ends_with'),
             ('str::is_char_boundary', 'boundary'), ('str::eq_ignore_ascii_case', 'eqi')]:
    T[n] = boolop(o)


@model('core::cmp::Ord::min', 'core::cmp::min', 'core::cmp::Ord::max', 'core::cmp::max')
def minmax(an, st, c):
    x, y = c.args
    d = sub(x, y)
    mn = 'min' in c.name
    out = []
    a = st.copy()
    if a.assume(mkapp('ge0', d), True):
        out.append((a, y if mn else x))
    b = st
    if b.assume(mkapp('ge0', d), False):
        out.append((b, x if mn else y))
    return out


# ---- checked arithmetic

def _checked(an, st, c, v, wrap=lambda v: SOME(v), none=NONE):
    s = c.name.split('::')[0]
    r = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2 ** 32 - 1), 'u64': (0, 2 ** 64 - 1), 'usize': (0, 2 ** 64 - 1)}.get(s)
    if r is None:
        return None
    ok = mkapp('and2', mkapp('ge0', addc(v, -r[0])), mkapp('ge0', add(INT(r[1]), v, -1)))
    out = []
    a = st.copy()
    if a.assume(ok, True):
        out.append((a, wrap(v)))
    b = st
    if b.assume(ok, False):
        out.append((b, none))
    return out


TOP = {'u8': 255, 'u16': 65535, 'u32': 2 ** 32 - 1, 'u64': 2 ** 64 - 1, 'usize': 2 ** 64 - 1}
for s in TOP:
    T[s + '::checked_sub'] = lambda an, st, c: _checked(an, st, c, sub(c.args[0], c.args[1]))
    T[s + '::checked_add'] = lambda an, st, c: _checked(an, st, c, add(c.args[0], c.args[1]))
    T[s + '::checked_mul'] = lambda an, st, c: _checked(an, st, c, mul(c.args[0], c.args[1]))
    T[s + '::saturating_add'] = lambda an, st, c: _checked(an, st, c, add(c.args[0], c.args[1]), lambda v: v, INT(TOP[c.name.split('::')[0]]))
    T[s + '::saturating_mul'] = lambda an, st, c: _checked(an, st, c, mul(c.args[0], c.args[1]), lambda v: v, INT(TOP[c.name.split('::')[0]]))
    T[s + '::saturating_sub'] = lambda an, st, c: _checked(an, st, c, sub(c.args[0], c.args[1]), lambda v: v, INT(0))

    def _wrapping(op):
        def f(an, st, c):
            b = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}[c.name.split('::')[0]]
            return one(st, an.fit(st, op(c.args[0], c.args[1]), (0, 2 ** b - 1)))
        return f
    T[s + '::wrapping_sub'] = _wrapping(sub)
    T[s + '::wrapping_add'] = _wrapping(add)
    T[s + '::wrapping_mul'] = _wrapping(mul)

    def _ovf(op):
        def f(an, st, c):
            b = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}[c.name.split('::')[0]]
            v = op(c.args[0], c.args[1])
            ok = mkapp('and2', mkapp('ge0', v), mkapp('ge0', add(INT(2 ** b - 1), v, -1)))
            over = st.copy()
            out = []
            if st.assume(ok, True):
                out.append((st, TUP(v, FALSE)))
            if over.assume(ok, False):
                out.append((over, TUP(an.fit(over, v, (0, 2 ** b - 1)), TRUE)))
            return out
        return f
    def _pow(an, st, c):
        a, n = c.args[:2]
        top = 2 ** {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}[c.name.split('::')[0]]
        if a.k == 'int' and n.k == 'int' and 0 <= n.a[0] <= 64 and a.a[0] ** n.a[0] < top:
            return one(st, INT(a.a[0] ** n.a[0]))
        return None
    T[s + '::pow'] = _pow

    def _swap(n):
        def f(an, st, c):
            x, r = c.args[0], INT(0)
            for i in range(n):
                r = add(r, mulc(mkapp('mod', mkapp('div', x, INT(256 ** i)), INT(256)), 256 ** (n - 1 - i)))
            return one(st, r)
        return f
    T[s + '::swap_bytes'] = _swap({'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'usize': 8}[s])
    T[s + '::overflowing_sub'] = _ovf(sub)
    T[s + '::overflowing_add'] = _ovf(add)

    def _to_be(n):
        def f(an, st, c):
            x = c.args[0]
            bs = [mkapp('mod', mkapp('div', x, INT(256 ** (n - 1 - i))), INT(256)) for i in range(n)]
            return one(st, agg('array', None, bs))
        return f

    def _from_be(n, le=False):
        def f(an, st, c):
            x = an.content(st, c.args[0])
            r = INT(0)
            for i in range(n):
                r = add(r, mulc(_byte(an, st, x, INT(i)), 256 ** (i if le else n - 1 - i)))
            return one(st, r)
        return f
    nb = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'usize': 8}[s]
    T[s + '::to_be_bytes'] = _to_be(nb)
    T[s + '::from_be_bytes'] = _from_be(nb)
    T[s + '::from_le_bytes'] = _from_be(nb, True)


@model('core::intrinsics::integer_max')
def integer_max(an, st, c):
    t = c.callee['targs'][0]
    return one(st, INT(an.f.int_range(t)[1]))


@model('core::intrinsics::discriminant_value')
def discriminant_value(an, st, c):
    t = an.content(st, c.args[0])
    d = discr_of(t)
    if d.k == 'app' and d not in RNG:
        r = an.f.enum_range(c.callee['targs'][0])
        RNG[d] = r if r and 0 <= r[0] and r[1] <= 255 else (0, 255)
    return one(st, d)


# ---- sequences

def seqlen(an, st, c):
    n = mkapp('len', an.content(st, c.args[0]))
    if n.k == 'lin' and st.bounds(n)[1] > ISIZE_MAX:
        # nothing in memory is longer
        st.ineq = st.ineq | {add(INT(ISIZE_MAX), n, -1)}
    return one(st, n)


ISIZE_MAX = 2 ** 63 - 1


for n in ('alloc::vec::Vec::len', 'alloc::string::String::len', 'str::len', '[T]::len', 'bytes::bytes_mut::BytesMut::len',
          'bytes::bytes::Bytes::len', 'bytes::buf::buf_impl::Buf::remaining',
          '<bytes::bytes_mut::BytesMut as bytes::buf::buf_impl::Buf>::remaining', 'std::collections::hash::map::HashMap::len'):
    T[n] = seqlen


def seqempty(an, st, c):
    return one(st, mkapp('eq0', mkapp('len', an.content(st, c.args[0]))))


for n in ('alloc::vec::Vec::is_empty', 'alloc::string::String::is_empty', 'str::is_empty', '[T]::is_empty',
          'bytes::bytes_mut::BytesMut::is_empty', 'std::collections::hash::map::HashMap::is_empty'):
    T[n] = seqempty
T['bytes::buf::buf_impl::Buf::has_remaining'] = lambda an, st, c: one(
    st, mkapp('not', mkapp('eq0', mkapp('len', an.content(st, c.args[0])))))


def seqnew(an, st, c):
    return one(st, EMPTYSEQ)


for n in ('alloc::vec::Vec::new', 'alloc::string::String::new', 'bytes::bytes_mut::BytesMut::new',
          '<alloc::vec::Vec as core::default::Default>::default', '<alloc::string::String as core::default::Default>::default',
          '<bytes::bytes_mut::BytesMut as core::default::Default>::default'):
    T[n] = seqnew


@model('alloc::vec::Vec::with_capacity', 'alloc::string::String::with_capacity', 'bytes::bytes_mut::BytesMut::with_capacity')
def with_capacity(an, st, c):
    if an.emit(st, 'alloc', c.site, (c.args[0],), info=c) is False:
        return []
    return one(st, EMPTYSEQ)


@model('bytes::bytes_mut::BytesMut::zeroed', 'alloc::vec::from_elem')
def zeroed(an, st, c):
    n = c.args[-1]
    if an.emit(st, 'alloc', c.site, (n,), info=c) is False:
        return []
    return one(st, app('zeros', n))


@model('alloc::vec::Vec::reserve', 'alloc::string::String::reserve', 'bytes::bytes_mut::BytesMut::reserve')
def reserve(an, st, c):
    if an.emit(st, 'alloc', c.site, (c.args[1],), info=c) is False:
        return []
    return one(st, UNIT)


@model('bytes::bytes_mut::BytesMut::capacity', 'alloc::vec::Vec::capacity', 'alloc::string::String::capacity')
def capacity(an, st, c):
    r = an.fresh(st, c.site, 'cap')
    RNG[r] = (0, 2 ** 63 - 1)
    st.add_ge0(sub(r, mkapp('len', an.content(st, c.args[0]))))
    return one(st, r)


def mutate(an, st, c, kind, new, args=(), res=UNIT):
    """A modification of a container through its first argument, as an event."""
    if an.emit(st, kind, c.site, (c.args[0], an.content(st, c.args[0])) + tuple(args), res, info=c) is False:
        return []
    if not callable(new):
        an.setref(st, c.args[0], new)
    else:
        new()
    return one(st, res)


def as_value(st, v, x):
    """A constant byte that is known to be the value of the next enumerator of a list."""
    if not (x.k == 'app' and x.a[0] == 'u8b' and x.a[1].k == 'int'):
        return x
    last = v.a[-1] if v.k == 'app' and v.a[0] == 'cat' else v
    base, j = (last.a[1], last.a[3]) if last.k == 'app' and last.a[0] == 'slice' else (last, INT(0))
    for d in list(st.dom):
        if d.k == 'app' and d.a[0] == 'discr' and d.a[1].k == 'app' and d.a[1].a[0] == 'elem' and d.a[1].a[1].k == 'sym':
            S, k = d.a[1].a[1:]
            if (base is sym('values', S) and (j is k or st.eq0(sub(j, k)) is True) or k is INT(0)) and st.domain(d) == 1 << x.a[1].a[0]:
                return app('u8b', d)
    return x


@model('alloc::vec::Vec::push', 'alloc::string::String::push')
def push(an, st, c):
    v = an.content(st, c.args[0])
    ty = c.argty(0)
    if ty is not None and an.f.tys(an.f.strip_ref(ty)).split('<')[-1].startswith('u8'):
        return mutate(an, st, c, 'vec.push', mkapp('cat', v, as_value(st, v, app('u8b', c.args[1]))), (c.args[1],))
    return mutate(an, st, c, 'vec.push', app('push', v, c.args[1]), (c.args[1],))


@model('alloc::vec::Vec::insert')
def vinsert(an, st, c):
    v = an.content(st, c.args[0])
    return mutate(an, st, c, 'vec.insert', app('vecins', v, c.args[1], c.args[2]), (c.args[2],))


@model('alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove')
def vremove(an, st, c):
    v = an.content(st, c.args[0])
    bad = st.copy()
    if bad.assume(mkapp('ge0', sub(c.args[1], mkapp('len', v))), True):
        an.emit(bad, 'panic', c.site, (STR('remove'),), info=c)
    if not st.assume(mkapp('ge0', addc(sub(mkapp('len', v), c.args[1]), -1)), True):
        return []
    x = mkapp('elem', v, c.args[1])
    return mutate(an, st, c, 'vec.remove', app('vecdel', v, c.args[1]), (c.args[1], x), x)


@model('alloc::vec::Vec::pop', 'alloc::collections::vec_deque::VecDeque::pop_front')
def vpop(an, st, c):
    v = an.content(st, c.args[0])
    r = app('last', v)
    if c.name.endswith('front'):
        return mutate(an, st, c, 'vec.pop', app('popfront', v), (), app('front', v))
    return mutate(an, st, c, 'vec.pop', app('pop', v), (), r)


@model('alloc::vec::Vec::clear', 'alloc::string::String::clear', 'bytes::bytes_mut::BytesMut::clear')
def vclear(an, st, c):
    return mutate(an, st, c, 'vec.clear', EMPTYSEQ)


@model('alloc::vec::Vec::truncate', 'bytes::bytes_mut::BytesMut::truncate', 'alloc::string::String::truncate')
def vtruncate(an, st, c):
    v = an.content(st, c.args[0])
    n = c.args[1]
    out = []
    a = st.copy()
    if a.assume(mkapp('ge0', sub(n, mkapp('len', v))), True):
        out.append((a, UNIT))
    if st.assume(mkapp('ge0', sub(n, mkapp('len', v))), False):
        out += mutate(an, st, c, 'vec.truncate', mkapp('slice', v, INT(0), n), (n,))
    return out


@model('alloc::vec::Vec::append')
def vappend(an, st, c):
    v, w = an.content(st, c.args[0]), an.content(st, c.args[1])
    r = mutate(an, st, c, 'vec.append', mkapp('cat', v, w), (w,))
    for s, _ in r:
        an.setref(s, c.args[1], EMPTYSEQ)
    return r


@model('alloc::string::String::push_str', 'alloc::vec::Vec::extend_from_slice', '<alloc::string::String as core::ops::arith::AddAssign>::add_assign')
def vextend(an, st, c):
    v, w = an.content(st, c.args[0]), an.content(st, c.args[1])
    return mutate(an, st, c, 'vec.append', mkapp('cat', v, w), (w,))


@model('[T]::concat', '[T]::join', '[T]::connect')
def concat(an, st, c):
    v = an.content(st, c.args[0])
    xs = list(v.a[2]) if v.k == 'agg' and v.a[0] == 'array' else list(v.a[1:]) if v.k == 'app' and v.a[0] == 'array' else None
    if xs is None:
        return None
    xs = [an.content(st, x) for x in xs]
    if len(c.args) > 1:
        sep = an.content(st, c.args[1])
        xs = [y for n, x in enumerate(xs) for y in ((sep, x) if n else (x,))]
    return one(st, mkapp('cat', *xs) if xs else EMPTYSEQ)


@model('alloc::string::String::replace_range')
def replace_range(an, st, c):
    v, i, w = an.content(st, c.args[0]), c.args[1], an.content(st, c.args[2])
    d = i.a[0].split('::')[-1] if i.k == 'agg' else ''
    if d not in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull'):
        return None
    n = mkapp('len', v)
    lo = i.a[2][0] if d in ('Range', 'RangeFrom') else INT(0)
    hi = i.a[2][1] if d == 'Range' else i.a[2][0] if d == 'RangeTo' else n
    ok = mkapp('and2', mkapp('ge0', sub(hi, lo)), mkapp('ge0', sub(n, hi)))
    bad = st.copy()
    if not (boundary(st, v, lo) and boundary(st, v, hi)) or bad.assume(ok, False):
        an.emit(bad, 'panic', c.site, (STR('replace_range'),), info=c)
    if not st.assume(ok, True):
        return []
    return mutate(an, st, c, 'vec.append', mkapp('cat', mkapp('slice', v, INT(0), lo), w, mkapp('slice', v, hi, n)), (w,))


def boundary(st, v, i):
    """Known to lie between two characters of the text."""
    if i is INT(0) or i is mkapp('len', v):
        return True
    if st.truth(mkapp('boundary', v, i)) is True or ASCII.get(v):
        return True
    base, off = (i, 0)
    if i.k == 'lin':
        for m in (1, 2, 3):
            b = addc(i, -m)
            if b.k != 'lin':
                base, off = b, m
    if base.k == 'app' and base.a[0] in ('restart', 'reend') and off == 0:
        return base.a[1].a[2] is v
    if base.k == 'fld' and base.a[0].k == 'app' and base.a[0].a[0] in ('find', 'rfind') and base.a[0].a[1] is v:
        p = base.a[0].a[2]
        return off == 0 or off == 1 and (p.k == 'int' and p.a[0] < 128 or p.k == 'str' and len(p.a[0]) == 1 and p.a[0] < '\x80')
    if i.k == 'int':
        return any(st.truth(mkapp('starts_with', v, p)) is True for p in PREFIXES.get(v, ()) if plen(p) == i.a[0])
    return False


ASCII = {}
PREFIXES = {}        # text -> prefixes it was asked for
PATTERNS = {}        # text -> what was looked for in it


def plen(p):
    return len(p.a[0].encode()) if p.k == 'str' else len(chr(p.a[0]).encode()) if p.k == 'int' else None


@model('<alloc::string::String as core::ops::arith::Add>::add')
def sadd(an, st, c):
    return one(st, mkapp('cat', an.content(st, c.args[0]), an.content(st, c.args[1])))


@model('alloc::vec::Vec::first', '[T]::first')
def vfirst(an, st, c):
    return idx_opt(an, st, c, INT(0))


@model('[T]::last')
def vlast(an, st, c):
    v = an.content(st, c.args[0])
    return idx_opt(an, st, c, addc(mkapp('len', v), -1))


def idx_opt(an, st, c, i):
    v = an.content(st, c.args[0])
    out = []
    a = st.copy()
    ok = mkapp('and2', mkapp('ge0', i), mkapp('ge0', addc(sub(mkapp('len', v), i), -1)))
    if a.assume(ok, True):
        for b in an.each_entry(a, v, i):
            n = b.value(i) if v.k == 'agg' else None
            x = mkapp('elem', v, i if n is None else INT(n))
            if an.emit(b, 'index', c.site, (v, i, x), info=c) is not False:
                out.append((b, SOME(x)))
    if st.assume(ok, False):
        out.append((st, NONE))
    return out


@model('[T]::get')
def sget(an, st, c):
    if c.args[1].k == 'agg' or not _num(c.args[1]):
        return None
    return idx_opt(an, st, c, c.args[1])


def _num(t):
    return core.numeric(t)


@model('<alloc::vec::Vec as core::ops::index::Index>::index', '<[T] as core::ops::index::Index>::index',
       '<str as core::ops::index::Index>::index', '<alloc::string::String as core::ops::index::Index>::index',
       '<bytes::bytes_mut::BytesMut as core::ops::index::Index>::index', '[T]::index', '<[T; N] as core::ops::index::Index>::index')
def index(an, st, c):
    v = an.content(st, c.args[0])
    i = c.args[1]
    n = mkapp('len', v)
    if i.k == 'agg':
        d = i.a[0].split('::')[-1]
        lo, hi = INT(0), n
        if d in ('Range', 'RangeFrom'):
            lo = i.a[2][0]
        if d == 'Range':
            hi = i.a[2][1]
        if d == 'RangeTo':
            hi = i.a[2][0]
        if d not in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull'):
            return None
        ok = mkapp('and2', mkapp('ge0', sub(hi, lo)), mkapp('ge0', sub(n, hi)))
        r = mkapp('slice', v, lo, hi)
        if n is not hi or lo is not INT(0):
            ty = an.f.tys(an.f.strip_ref(c.argty(0))) if c.argty(0) is not None else ''
            if ty in ('str', 'std::string::String') and not (boundary(st, v, lo) and boundary(st, v, hi)):
                an.emit(st.copy(), 'panic', c.site, (STR('not between two characters'),), info=c)
    else:
        if not _num(i):
            return None
        ok = mkapp('and2', mkapp('ge0', i), mkapp('ge0', addc(sub(n, i), -1)))
        ty = an.f.tys(an.f.strip_ref(c.argty(0)))
        r = _byte(an, st, v, i) if 'u8' in ty or 'Bytes' in ty else mkapp('elem', v, i)
    bad = st.copy()
    if bad.assume(ok, False):
        an.emit(bad, 'panic', c.site, (STR('index'),), info=c)
    if not st.assume(ok, True):
        return []
    if i.k != 'agg' and an.emit(st, 'index', c.site, (v, i, r), info=c) is False:
        return []
    return one(st, r)


@model('<[T] as core::ops::index::IndexMut>::index_mut', '<alloc::vec::Vec as core::ops::index::IndexMut>::index_mut',
       '<bytes::bytes_mut::BytesMut as core::ops::index::IndexMut>::index_mut')
def index_mut(an, st, c):
    r, i = c.args[0], c.args[1]
    if r.k != 'ref':
        return None
    while True:
        t = an.read(st, *r.a)
        if t is None or t.k != 'ref':
            break
        r = t
    v = an.content(st, r)
    n = mkapp('len', v)
    if i.k == 'agg':
        d = i.a[0].split('::')[-1]
        if d not in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull'):
            return None
        lo = i.a[2][0] if d in ('Range', 'RangeFrom') else INT(0)
        hi = i.a[2][1] if d == 'Range' else i.a[2][0] if d == 'RangeTo' else n
        ok = mkapp('and2', mkapp('ge0', sub(hi, lo)), mkapp('ge0', sub(n, hi)))
        p = ('sub', lo, hi)
    elif _num(i):
        ok = mkapp('and2', mkapp('ge0', i), mkapp('ge0', addc(sub(n, i), -1)))
        p = ('ix', i)
    else:
        return None
    bad = st.copy()
    if bad.assume(ok, False):
        an.emit(bad, 'panic', c.site, (STR('index'),), info=c)
    if not st.assume(ok, True):
        return []
    return one(st, ref(r.a[0], r.a[1] + (p,)))


@model('[T]::copy_from_slice', '[T]::clone_from_slice')
def copy_from_slice(an, st, c):
    r, x = c.args[0], as_bytes(an, st, c.args[1])
    if r.k != 'ref':
        return None
    n, k = mkapp('len', an.content(st, r)), mkapp('len', x)
    ok = mkapp('eq0', sub(n, k))
    bad = st.copy()
    if bad.assume(ok, False):
        an.emit(bad, 'panic', c.site, (STR('copy_from_slice'),), info=c)
    if not st.assume(ok, True):
        return []
    an.setref(st, r, x)
    return one(st, UNIT)


@model('<bytes::bytes_mut::BytesMut as core::ops::deref::DerefMut>::deref_mut', '<bytes::bytes_mut::BytesMut as core::convert::AsMut>::as_mut')
def bytes_deref_mut(an, st, c):
    return one(st, c.args[0])


@model('bytes::bytes_mut::BytesMut::resize', 'alloc::vec::Vec::resize')
def vresize(an, st, c):
    v, n = an.content(st, c.args[0]), c.args[1]
    if an.emit(st, 'alloc', c.site, (n,), info=c) is False:
        return []
    out = []
    a = st.copy()
    d = sub(n, mkapp('len', v))
    if a.assume(mkapp('ge0', d), True):
        f = EMPTYSEQ if a.ge0(sub(INT(0), d)) else app('fill', c.args[2], d)
        out += mutate(an, a, c, 'vec.append', mkapp('cat', v, f), (f,))
    if st.assume(mkapp('ge0', d), False):
        out += mutate(an, st, c, 'vec.truncate', mkapp('slice', v, INT(0), n), (n,))
    return out


# ---- iterators over sequences

def mkiter(src):
    return agg('iter', None, (src, INT(0)))


def seq_iter(an, st, c):
    return one(st, mkiter(an.content(st, c.args[0])))


for n in ('[T]::iter', '<alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter',
          "<&'a std::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
          "<&'a [T] as core::iter::traits::collect::IntoIterator>::into_iter",
          '[T]::into_iter', 'alloc::vec::Vec::drain'):
    T[n] = seq_iter


def derived_iter(op):
    def f(an, st, c):
        t = app(op, *[an.content(st, a) for a in c.args])
        if op in ('split', 'rsplit'):
            RNG[mkapp('len', t)] = (1, 2 ** 63 - 1)     # an empty text has one empty part
        if op == 'splitn' and t.a[2].k == 'int' and t.a[2].a[0] > 0:
            RNG[mkapp('len', t)] = (1, t.a[2].a[0])
        return one(st, mkiter(t))
    return f


for n, o in [('str::lines', 'lines'), ('str::split', 'split'), ('str::chars', 'chars'), ('str::bytes', 'bytesof'),
             ('str::splitn', 'splitn'), ('str::split_terminator', 'split_terminator'), ('str::rsplit', 'rsplit'),
             ('str::split_whitespace', 'split_whitespace'), ('str::char_indices', 'char_indices'),
             ('str::split_inclusive', 'split_inclusive')]:
    T[n] = derived_iter(o)


def is_iter(an, st, r):
    t = an.content(st, r)
    return t.k == 'agg' and t.a[0] == 'iter'


def iter_next(an, st, c, item=None):
    it = an.content(st, c.args[0])
    if not (it.k == 'agg' and it.a[0] == 'iter'):
        return None
    src, i = it.a[2]
    n = mkapp('len', src)
    out = []
    a = st.copy()
    if a.assume(mkapp('ge0', addc(sub(n, i), -1)), True):
        x = item(a, src, i) if item else mkapp('elem', src, i)
        an.setref(a, c.args[0], agg('iter', None, (src, addc(i, 1))))
        if an.emit(a, 'next', c.site, (src, i, x), info=c) is not False:
            out.append((a, SOME(x)))
    if st.assume(mkapp('ge0', addc(sub(n, i), -1)), False):
        if an.emit(st, 'next-end', c.site, (src, i), info=c) is not False:
            out.append((st, NONE))
    return out


for n in ('<alloc::vec::into_iter::IntoIter as core::iter::traits::iterator::Iterator>::next',
          '<core::slice::iter::Iter as core::iter::traits::iterator::Iterator>::next',
          '<core::str::iter::Lines as core::iter::traits::iterator::Iterator>::next',
          '<core::str::iter::Split as core::iter::traits::iterator::Iterator>::next',
          '<core::str::iter::SplitN as core::iter::traits::iterator::Iterator>::next',
          '<core::str::iter::Chars as core::iter::traits::iterator::Iterator>::next',
          '<core::str::iter::Bytes as core::iter::traits::iterator::Iterator>::next',
          '<std::collections::hash::map::Keys as core::iter::traits::iterator::Iterator>::next',
          '<std::collections::hash::map::Values as core::iter::traits::iterator::Iterator>::next',
          '<alloc::vec::drain::Drain as core::iter::traits::iterator::Iterator>::next',
          '<core::array::iter::IntoIter as core::iter::traits::iterator::Iterator>::next'):
    T[n] = iter_next


@model('core::iter::traits::iterator::Iterator::next')
def any_next(an, st, c):
    return iter_next(an, st, c)


@model('<core::slice::iter::IterMut as core::iter::traits::iterator::Iterator>::next',
       '<std::collections::hash::map::ValuesMut as core::iter::traits::iterator::Iterator>::next')
def itermut_next(an, st, c):
    return iter_next(an, st, c, lambda s, src, i: ref(('H', app('elemref', src, i))))


@model('core::iter::traits::collect::IntoIterator::into_iter')
def any_into_iter(an, st, c):
    t = an.content(st, c.args[0])
    if t.k == 'agg' and t.a[0] == 'iter':
        return one(st, t)
    d = arg_def(an, c, 0)
    ty = an.f.strip_ref(c.argty(0))
    if d in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque') or (ty is not None and an.f.types[ty]['k'] in ('slice', 'array')):
        return one(st, mkiter(t))
    if d.endswith('::HashMap'):
        return iterate(an, st, c, 'entries')
    return None


def iterate(an, st, c, what):
    """Going through a map."""
    m = an.content(st, c.args[0])
    src = app(what, m, c.args[0])
    if an.emit(st, 'iterate', c.site, (src, m), info=c) is False:
        return []
    return one(st, mkiter(src))


# hash map iteration yields (key, value) pairs; mutable iteration yields references

@model('std::collections::hash::map::HashMap::iter', 'std::collections::hash::map::HashMap::iter_mut',
       "<&'a std::collections::HashMap<K, V, S, A> as core::iter::traits::collect::IntoIterator>::into_iter",
       "<&'a mut std::collections::HashMap<K, V, S, A> as core::iter::traits::collect::IntoIterator>::into_iter",
       "<&'a std::collections::HashMap<K, V, S> as core::iter::traits::collect::IntoIterator>::into_iter",
       "<&'a mut std::collections::HashMap<K, V, S> as core::iter::traits::collect::IntoIterator>::into_iter",
       '<std::collections::hash::map::HashMap as core::iter::traits::collect::IntoIterator>::into_iter')
def map_iter(an, st, c):
    return iterate(an, st, c, 'entries')


def _entry(mut):
    def f(s, src, i):
        k = app('entrykey', src, i)
        v = app('entryval', src, i)
        return TUP(k, ref(('H', v)) if mut else v)
    return f


T['<std::collections::hash::map::Iter as core::iter::traits::iterator::Iterator>::next'] = \
    lambda an, st, c: iter_next(an, st, c, _entry(False))
T['<std::collections::hash::map::IntoIter as core::iter::traits::iterator::Iterator>::next'] = \
    lambda an, st, c: iter_next(an, st, c, _entry(False))
T['<std::collections::hash::map::IterMut as core::iter::traits::iterator::Iterator>::next'] = \
    lambda an, st, c: iter_next(an, st, c, _entry(True))
for n in ('values', 'values_mut', 'into_values'):
    T['std::collections::hash::map::HashMap::' + n] = lambda an, st, c: iterate(an, st, c, 'mapvalues')
for n in ('keys', 'into_keys'):
    T['std::collections::hash::map::HashMap::' + n] = lambda an, st, c: iterate(an, st, c, 'mapkeys')


# consumers of arbitrary iterators: a loop around next

def synth_consume(an, c, kind, what='vec'):
    """A body that runs the iterator of an opaque consumer to its end."""
    cons = c.callee.get('consumes')
    if not cons:
        return None
    ext = kind == 'extend'
    seqty = c.argty(0) if ext else c.retty()
    key = 'synth:%s:%s:%s:%s:%s' % (kind, what, c.callee['name'], c.callee.get('targs'), seqty)
    b = an.f.bodies.get(key)
    if b is not None:
        return b
    sp = ['', 0, 0]
    P = lambda l, *pr: [l, list(pr), None]
    opt_ty = None
    fn = lambda cal: ['c', {'fn': cal, 'ty': 0}]
    push, new = ('synth::push', 'synth::empty') if what == 'vec' else ('synth::pair', 'synth::map')
    pushc = {'name': push, 'pretty': push, 'targs': [], 'method': 'push'}
    it = 2 if ext else 1
    blocks = [
        {'s': [], 't': ['call', fn(cons['into_iter']), [['mv', P(it)]], P(3), 1, sp]},
        {'s': [['=', P(5), ['ref', 'mut', P(3)], sp]], 't': ['call', fn(cons['next']), [['mv', P(5)]], P(4), 2, sp]},
        {'s': [['=', P(6), ['discr', [4, [], None]], sp]], 't': ['switch', ['cp', P(6)], [[0, 4], [1, 3]], None, sp, 0]},
        {'s': [['=', P(7), ['use', ['mv', P(4, ['v', 1, 'Some'], ['f', 0, '0'])]], sp],
               ['=', P(8), ['ref', 'mut', P(1, ['*']) if ext else P(0)], sp]],
         't': ['call', fn(pushc), [['mv', [8, [], seqty]], ['mv', P(7)]], P(9), 1, sp]},
        {'s': [['=', P(0), ['use', ['c', {'zst': True, 'ty': 0}]], sp]] if False else [], 't': ['return']},
    ]
    if not ext:
        seq = {'name': new, 'pretty': new, 'targs': [], 'method': 'empty'}
        blocks.append(blocks[0])
        blocks[0] = {'s': [], 't': ['call', fn(seq), [], P(0), 5, sp]}
    for x in blocks:
        x['cleanup'] = False
    u = an.f.unit_ty()
    body = {'key': key, 'path': key, 'pretty': key, 'kind': 'fn', 'local': False, 'async': False, 'parent': None,
            'span': sp, 'derived': False, 'argc': 2 if ext else 1, 'spread': None, 'upvars': [],
            'locals': [[u, None]] * 10, 'blocks': blocks}
    b = Body(body, an.f)
    an.f.bodies[key] = b
    return b


@model('synth::empty')
def synth_empty(an, st, c):
    return one(st, EMPTYSEQ)


@model('synth::push')
def synth_push(an, st, c):
    v = an.content(st, c.args[0])
    ty = c.argty(0)
    if ty is not None and an.f.tys(an.f.strip_ref(ty)).split('<')[-1].startswith('u8'):
        return mutate(an, st, c, 'vec.push', mkapp('cat', v, as_value(st, v, app('u8b', c.args[1]))), (c.args[1],))
    return mutate(an, st, c, 'vec.push', app('push', v, c.args[1]), (c.args[1],))


@model('synth::map')
def synth_map(an, st, c):
    return one(st, app('emptymap'))


@model('synth::pair')
def synth_pair(an, st, c):
    m, p = an.content(st, c.args[0]), c.args[1]
    k = an.content(st, fld(p, None, 0) if p.k != 'agg' else p.a[2][0])
    v = fld(p, None, 1) if p.k != 'agg' else p.a[2][1]
    return mutate(an, st, c, 'map.insert', app('ins', m, k, v), (k, v), mapget(m, k))


@model('<std::collections::hash::map::HashMap as core::iter::traits::collect::FromIterator>::from_iter')
def map_from_iter(an, st, c):
    b = synth_consume(an, c, 'collect', 'map')
    return None if b is None else [(st, None, lambda s: an.enter(s, c, b, [c.args[0]]))]


@model('<std::collections::hash::map::HashMap as core::iter::traits::collect::Extend>::extend')
def map_extend(an, st, c):
    b = synth_consume(an, c, 'extend', 'map')
    return None if b is None else [(st, None, lambda s: an.enter(s, c, b, list(c.args)))]


COPIES = {'to_string', 'to_owned', 'clone', 'as_str', 'as_ref', 'deref', 'borrow', 'to_vec', 'as_bytes', 'into_owned', 'must_use', 'cloned', 'copied'}


def copies(an, fn):
    """The function (of a call) returns what it is given: text or a handle, owned or borrowed."""
    names = [core.clean(fn[k]) for k in ('rname', 'name', 'rpretty', 'pretty') if fn.get(k)]
    if any(n in IDENTS for n in names):
        return True
    ts = [an.f.types[an.f.strip_ref(i)] for i in fn.get('targs') or [] if isinstance(i, int)]
    texty = ts and all((x.get('def') or x['s']) in TEXTY for x in ts)
    m = fn.get('method') or names[-1].split('::')[-1]
    return bool(m in COPIES and (texty or m == 'clone')) or bool(m in ('from', 'into') and len(ts) == 2 and texty)


def copier(an, f):
    """The closure or function value returns its argument."""
    if f.k == 'fn':
        b = an.f.bodies.get(f.a[0])
        if b is None:
            ty = an.f.tys(f.a[1]) if f.a[1] is not None else ''
            return f.a[0] in IDENTS or (f.a[0].split('::')[-1] in ('to_string', 'to_owned', 'clone', 'from') and ('<str' in ty or 'String' in ty or 'for<' in ty))
    elif f.k == 'agg':
        b = an.f.bodies.get(f.a[0])
    else:
        return False
    if b is None:
        return False
    first = 2 if b.kind == 'closure' else 1
    if b.argc != first:
        return False
    have = {first}
    i = 0
    for _ in range(12):
        bl = b.blocks[i]
        for s in bl['s']:
            if s[0] != '=':
                continue
            rv = s[2]
            src = rv[2] if rv[0] == 'ref' else rv[1][1] if rv[0] == 'use' and rv[1][0] in ('cp', 'mv') else None
            if src is None or s[1][1] or any(e[0] != '*' for e in src[1]):
                return False
            have.discard(s[1][0])
            if src[0] in have:
                have.add(s[1][0])
        t = bl['t']
        if t[0] == 'call' and t[1][0] == 'c' and 'fn' in t[1][1] and t[4] is not None:
            o = t[2][0] if len(t[2]) == 1 else None
            if o is None or o[0] == 'c' or o[1][0] not in have or o[1][1] or not copies(an, t[1][1]['fn']) or t[3][1]:
                return False
            have.add(t[3][0])
            i = t[4]
        elif t[0] in ('goto', 'drop'):
            i = t[1] if t[0] == 'goto' else t[2]
        elif t[0] == 'return':
            return 0 in have
        else:
            return False
    return False


def seq_of(an, st, t):
    """The sequence an iterator value yields, when it is one that exists already."""
    if t.k == 'ref':
        t = an.content(st, t)
    if t.k != 'agg':
        return None
    if t.a[0] == 'iter':
        return t.a[2][0] if t.a[2][1] is INT(0) else None
    d = t.a[0].split('::')[-1]
    if d in ('Cloned', 'Copied') and len(t.a[2]) == 1:
        return seq_of(an, st, t.a[2][0])
    if d == 'Map' and len(t.a[2]) == 2 and copier(an, t.a[2][1]):
        return seq_of(an, st, t.a[2][0])
    return None


@model('<alloc::vec::Vec as core::iter::traits::collect::FromIterator>::from_iter')
def vec_from_iter(an, st, c):
    q = seq_of(an, st, c.args[0])
    if q is not None:
        return one(st, q)
    b = synth_consume(an, c, 'collect')
    if b is None:
        return None
    return [(st, None, lambda s: an.enter(s, c, b, [c.args[0]]))]


@model('<alloc::vec::Vec as core::iter::traits::collect::Extend>::extend')
def vec_extend(an, st, c):
    v = an.content(st, c.args[0])
    q = seq_of(an, st, c.args[1])
    if q is not None:
        return mutate(an, st, c, 'vec.append', mkapp('cat', v, q), (q,))
    b = synth_consume(an, c, 'extend')
    if b is None:
        return None
    return [(st, None, lambda s: an.enter(s, c, b, list(c.args)))]


def _unit(r):
    return None


def captured_mut(body):
    """Captured variables a closure may change (by number)."""
    out = set()

    def look(p):
        if p[0] == 1:
            for e in p[1]:
                if e[0] == 'f':
                    out.add(e[1])
                    return
    for i in body.rpo:
        for s in body.blocks[i]['s']:
            if s[0] != '=':
                continue
            look(s[1])
            rv = s[2]
            if rv[0] == 'ref' and rv[1] == 'mut':
                look(rv[2])
            elif rv[0] == 'use' and rv[1][0] == 'mv':
                look(rv[1][1])
        t = body.blocks[i]['t']
        if t[0] == 'call':
            look(t[3])
            for o in t[2]:
                if o[0] == 'mv':
                    look(o[1])
    return out


def _retain_one(an, fr, st, v):
    info = st.env.pop(_cell(fr, 'retain'), None)
    if info is not None:
        an.emit(st, 'retain:one', an.site(fr.parent, fr.bb), tuple(info.a[2]) + (v,))
    return []


RETAIN = ('retain', None, _retain_one)


@model('alloc::vec::Vec::retain', 'alloc::vec::Vec::retain_mut')
def vec_retain(an, st, c):
    """v.retain(p): every element is asked once; those refused are removed."""
    v = an.content(st, c.args[0])
    body = closure_body(an, c)
    if body is None:
        return None
    out = []
    # no element left
    a = st.copy()
    if an.emit(a, 'retain', c.site, (c.args[0], v), info=c) is not False:
        an.setref(a, c.args[0], app('retained', v, sym('site', *c.site)))
        # whatever the predicate did to what it captured
        f = an.content(a, c.args[1])
        if f.k == 'agg':
            mut = captured_mut(body)
            for n, y in enumerate(f.a[2]):
                if y.k == 'ref' and n in mut:
                    an.setref(a, y, an.fresh(a, c.site, 'captured', INT(n)))
        out.append((a, UNIT))
    x = app('anyelem', v, sym('site', *c.site))

    def go(s):
        s.env[_cell((c.fr.id, c.bb), 'retain')] = TUP(v, x)
        return run_closure(an, s, c, body, c.args[1], [x], RETAIN)
    out.append((st, None, go))
    return out


# searching a sequence: some element satisfies the predicate, or none does. Facts about 'anyelem'
# that hold when the predicate refuses it hold for every element.

def _cell(fr, which):
    return ('G', ('search', fr.parent.id if hasattr(fr, 'parent') else fr[0], fr.bb if hasattr(fr, 'bb') else fr[1], which))


def _search_found(an, fr, st, v):
    return _search_end(an, fr, st, v, 'found')


def _search_none(an, fr, st, v):
    return _search_end(an, fr, st, v, 'none')


def _search_end(an, fr, st, v, which):
    cell = _cell(fr, which)
    info = st.env.pop(cell, None)
    if info is None:
        return []
    src, j, x, it, meth = info.a[2]
    meth = meth.a[0]
    site = an.site(fr.parent, fr.bb)
    want = (which == 'found') != (meth == 'all')
    if not st.assume(v, want):
        return []
    n = mkapp('len', src)
    if it is not UNIT:
        an.setref(st, it, agg('iter', None, (src, addc(j, 1) if which == 'found' else n)))
    if an.emit(st, 'search:' + which, site, (src, j, x)) is False:
        return []
    if meth in ('any', 'all'):
        return [(st, INT(1 if want else 0))]
    if which == 'none':
        return [(st, NONE)]
    return [(st, SOME(x if meth == 'find' else j))]


FOUND = ('found', None, _search_found)
NOTFOUND = ('none', None, _search_none)


def search(meth):
    def f(an, st, c):
        it = an.content(st, c.args[0])
        if not (it.k == 'agg' and it.a[0] == 'iter' and it.a[2][1] is INT(0)):
            return None
        ty = an.f.tys(an.f.strip_ref(c.argty(0)))
        if 'IterMut' in ty or 'Drain' in ty or not (ty.startswith(('std::slice::Iter', 'std::vec::IntoIter', 'std::collections::hash_map::', 'std::str::', 'core::str::'))):
            return None
        item = _entry(False) if 'hash_map::Iter' in ty or 'hash_map::IntoIter' in ty else None
        return search_in(an, st, c, it.a[2][0], meth, item, c.args[0])
    return f


def search_in(an, st, c, src, meth, item=None, it=UNIT):
    body = closure_body(an, c)
    if body is None or captured_mut(body):
        return None
    item = item or (lambda s, q, i: mkapp('elem', q, i))
    out = []
    for which, kind in (('found', FOUND), ('none', NOTFOUND)):
        s = st.copy()
        if which == 'found':
            j = an.fresh(s, c.site, 'at')
            x = item(s, src, j)
            if not s.assume(mkapp('ge0', j), True) or not s.assume(mkapp('ge0', addc(sub(mkapp('len', src), j), -1)), True):
                continue
        else:
            j = app('any', sym('site', *c.site))
            x = item(s, src, j) if item(s, src, INT(0)).k == 'agg' else app('anyelem', src, sym('site', *c.site))
        s.env[_cell((c.fr.id, c.bb), which)] = TUP(src, j, x, it, STR(meth))

        def go(s2, x=x, kind=kind):
            return run_closure(an, s2, c, body, c.args[1], [x], kind)
        out.append((s, None, go))
    return out


for _m in ('position', 'any', 'all', 'find', 'rposition'):
    for _n in ('core::iter::traits::iterator::Iterator::', '<core::slice::iter::Iter as core::iter::traits::iterator::Iterator>::',
               'core::iter::traits::double_ended::DoubleEndedIterator::', 'core::iter::traits::exact_size::ExactSizeIterator::',
               '<alloc::vec::into_iter::IntoIter as core::iter::traits::iterator::Iterator>::'):
        T[_n + _m] = search(_m)


# ---- splitting text

@model('str::split_once')
def split_once(an, st, c):
    s, p = an.content(st, c.args[0]), an.content(st, c.args[1])
    a = st.copy()
    out = []
    has = mkapp('contains', s, p)
    RNG.setdefault(has, (0, 1))
    if a.assume(has, True):
        out.append((a, SOME(TUP(app('before', s, p), app('after', s, p)))))
    if st.assume(has, False):
        out.append((st, NONE))
    return out


@model('str::split_at')
def str_split_at(an, st, c):
    s, i = an.content(st, c.args[0]), c.args[1]
    src, a, b = (s.a[1], s.a[2], s.a[3]) if s.k == 'app' and s.a[0] == 'slice' else (s, INT(0), mkapp('len', s))
    found = i.k == 'fld' and i.a[0].k == 'app' and i.a[0].a[0] in ('find', 'rfind') and i.a[0].a[1] is s
    if not found:
        bad = st.copy()
        if bad.assume(mkapp('ge0', sub(mkapp('len', s), i)), False) or i.k != 'int':
            an.emit(bad, 'panic', c.site, (STR('split_at'),), info=c)
    return one(st, TUP(mkapp('slice', src, a, add(a, i)), mkapp('slice', src, add(a, i), b)))


@model('[T]::split_at', '[T]::split_at_checked', 'str::split_at_checked')
def slice_split_at(an, st, c):
    s, i = an.content(st, c.args[0]), c.args[1]
    ok, n = mkapp('ge0', sub(mkapp('len', s), i)), mkapp('len', s)
    checked = c.name.endswith('checked')
    out = []
    bad = st.copy()
    if bad.assume(ok, False):
        if checked:
            out.append((bad, NONE))
        else:
            an.emit(bad, 'panic', c.site, (STR('split_at'),), info=c)
    if st.assume(ok, True):
        r = TUP(mkapp('slice', s, INT(0), i), mkapp('slice', s, i, n))
        out.append((st, SOME(r) if checked else r))
    return out


@model('[T]::chunks')
def chunks(an, st, c):
    k = c.args[1]
    if k.k != 'int' or k.a[0] <= 0:
        return None
    return one(st, agg('chunks', None, (an.content(st, c.args[0]), k)))


@model('<core::slice::iter::Chunks as core::iter::traits::iterator::Iterator>::next')
def chunks_next(an, st, c):
    t = an.content(st, c.args[0])
    if not (t.k == 'agg' and t.a[0] == 'chunks'):
        return None
    v, k = t.a[2]
    n = mkapp('len', v)
    out = []
    for cut, conds in ((None, ((sub(INT(0), n), True),)), (k, ((sub(n, k), True),)), (n, ((addc(n, -1), True), (sub(n, k), False)))):
        s = st.copy()
        if not all(s.assume(mkapp('ge0', x), w) for x, w in conds):
            continue
        if cut is None:
            out.append((s, NONE))
        else:
            an.setref(s, c.args[0], agg('chunks', None, (mkapp('slice', v, cut, n), k)))
            out.append((s, SOME(mkapp('slice', v, INT(0), cut))))
    return out


@model('core::io::error::Error::kind')
def error_kind(an, st, c):
    r = app('errkind', an.content(st, c.args[0]))
    RNG.setdefault(app('discr', r), (0, 255))
    return one(st, r)


def eq_kinds(neg):
    def f(an, st, c):
        a, b = [discr_of(an.content(st, x)) for x in c.args]
        out = []
        s2 = st.copy()
        for s, w in ((st, True), (s2, False)):
            if s.assume(mkapp('eq0', sub(a, b)), w):
                out.append((s, INT(int(w != neg))))
        return out
    return f


T['<core::io::error::ErrorKind as core::cmp::PartialEq>::eq'] = eq_kinds(False)
T['<core::io::error::ErrorKind as core::cmp::PartialEq>::ne'] = eq_kinds(True)


@model('core::iter::traits::iterator::Iterator::sum')
def iter_sum(an, st, c):
    q = seq_of(an, st, c.args[0])
    if q is None or not (q.k == 'agg' and q.a[0] == 'array'):
        return None
    r = INT(0)
    for x in q.a[2]:
        r = add(r, an.content(st, x))
    rng = an.f.int_range(c.retty())
    if not core.numeric(r) or rng is None:
        return None
    bad = st.copy()
    if bad.assume(mkapp('ge0', addc(sub(r, INT(rng[1])), -1)), True):
        an.emit(bad, 'panic', c.site, (STR('Overflow:Add'),), info=c)
    return one(st, r) if st.add_ge0(sub(INT(rng[1]), r)) else []


@model('str::rsplit_once')
def rsplit_once(an, st, c):
    s, p = an.content(st, c.args[0]), an.content(st, c.args[1])
    a = st.copy()
    out = []
    has = mkapp('contains', s, p)
    RNG.setdefault(has, (0, 1))
    if a.assume(has, True):
        out.append((a, SOME(TUP(app('rbefore', s, p), app('rafter', s, p)))))
    if st.assume(has, False):
        out.append((st, NONE))
    return out


def pureop(op):
    def f(an, st, c):
        if op in ('find', 'rfind'):
            xs = [an.content(st, a) for a in c.args]
            PATTERNS.setdefault(xs[0], set()).add(xs[1])
        return one(st, mkapp(op, *[an.content(st, a) for a in c.args]))
    return f


for n, o in [('str::trim', 'trim'), ('str::trim_end', 'trim_end'), ('str::trim_start', 'trim_start'),
             ('str::to_lowercase', 'lower'), ('str::to_uppercase', 'upper'), ('str::replace', 'replace'),
             ('str::replacen', 'replacen'), ('str::to_ascii_lowercase', 'lower'), ('str::to_ascii_uppercase', 'upper'),
             ('alloc::string::String::from_utf8_lossy', 'lossy'), ('str::repeat', 'repeat'),
             ('alloc::str::{impl#5}::replace', 'replace'), ('str::find', 'find'), ('str::rfind', 'rfind'),
             ('str::strip_prefix', 'strip_prefix'), ('str::strip_suffix', 'strip_suffix'),
             ('core::str::converts::from_utf8_unchecked', 'unchecked'),
             ('alloc::string::String::from_utf8_unchecked', 'unchecked')]:
    T[n] = pureop(o)


@model('core::str::converts::from_utf8', 'alloc::string::String::from_utf8', 'str::from_utf8')
def from_utf8(an, st, c):
    b = an.content(st, c.args[0])
    a = st.copy()
    ok = app('utf8', b)
    RNG.setdefault(ok, (0, 1))
    out = []
    if a.assume(ok, True):
        out.append((a, OK(mkapp('text', b))))
    if st.assume(ok, False):
        out.append((st, ERR(app('utf8error', b))))
    return out


# ---- bytes

def _byte(an, st, v, i):
    if v.k == 'app' and v.a[0] == 'slice':
        v, i = v.a[1], add(v.a[2], i)
    if v.k == 'app' and v.a[0] == 'text':
        v = v.a[1]
        return _byte(an, st, v, i)
    x = mkapp('elem', v, i)
    if x.k == 'app':
        RNG.setdefault(x, (0, 255))
    return x


def take(an, st, c, n, what):
    """Take n bytes off the front; a shorter buffer is a panic."""
    v = an.content(st, c.args[0])
    ok = mkapp('ge0', sub(mkapp('len', v), n))
    bad = st.copy()
    if bad.assume(ok, False):
        an.emit(bad, 'panic', c.site, (STR(what),), info=c)
    if not st.assume(ok, True):
        return None
    return v


def take_int(n, le=False):
    def f(an, st, c):
        v = take(an, st, c, INT(n), 'buffer underrun')
        if v is None:
            return []
        r = INT(0)
        for i in range(n):
            r = add(r, mulc(_byte(an, st, v, INT(i)), 256 ** (i if le else n - 1 - i)))
        return mutate(an, st, c, 'buf.take', mkapp('slice', v, INT(n), mkapp('len', v)), (INT(n),), r)
    return f


for n, k in [('u8', 1), ('u16', 2), ('u32', 4), ('u64', 8)]:
    for p in ('bytes::buf::buf_impl::Buf::get_', '<bytes::bytes_mut::BytesMut as bytes::buf::buf_impl::Buf>::get_'):
        T[p + n] = take_int(k)
        T[p + n + '_le'] = take_int(k, True)


@model('bytes::bytes_mut::BytesMut::split_to', 'bytes::buf::buf_impl::Buf::copy_to_bytes',
       '<bytes::bytes_mut::BytesMut as bytes::buf::buf_impl::Buf>::copy_to_bytes')
def split_to(an, st, c):
    v = take(an, st, c, c.args[1], 'split_to out of bounds')
    if v is None:
        return []
    n = c.args[1]
    return mutate(an, st, c, 'buf.take', mkapp('slice', v, n, mkapp('len', v)), (n,), mkapp('slice', v, INT(0), n))


@model('bytes::buf::buf_impl::Buf::advance', '<bytes::bytes_mut::BytesMut as bytes::buf::buf_impl::Buf>::advance')
def advance(an, st, c):
    v = take(an, st, c, c.args[1], 'advance out of bounds')
    if v is None:
        return []
    return mutate(an, st, c, 'buf.take', mkapp('slice', v, c.args[1], mkapp('len', v)), (c.args[1],))


@model('bytes::bytes_mut::BytesMut::split_off')
def split_off(an, st, c):
    v = take(an, st, c, c.args[1], 'split_off out of bounds')
    if v is None:
        return []
    n = c.args[1]
    return mutate(an, st, c, 'buf.cut', mkapp('slice', v, INT(0), n), (n,), mkapp('slice', v, n, mkapp('len', v)))


@model('bytes::bytes_mut::BytesMut::split')
def bsplit(an, st, c):
    v = an.content(st, c.args[0])
    return mutate(an, st, c, 'buf.take', emptied(v), (mkapp('len', v),), v)


def emptied(v):
    """The empty rest of a buffer, remembering its position."""
    if v.k == 'app' and v.a[0] == 'slice' and v.a[1].k == 'sym':
        return app('slice', v.a[1], v.a[3], v.a[3])
    return EMPTYSEQ


def put(an, st, c, x):
    v = an.content(st, c.args[0])
    if an.hooks is not None:
        x = an.hooks.put(an, st, c, v, as_value(st, v, x))
        if x is None:
            return []
        if isinstance(x, list):
            return [r for s, y in x for r in mutate(an, s, c, 'buf.put', mkapp('cat', v, y), (y,))]
    return mutate(an, st, c, 'buf.put', mkapp('cat', v, x), (x,))


for p in ('bytes::buf::buf_mut::BufMut::put_', '<bytes::bytes_mut::BytesMut as bytes::buf::buf_mut::BufMut>::put_'):
    T[p + 'u8'] = lambda an, st, c: put(an, st, c, app('u8b', c.args[1]))
    T[p + 'u16'] = lambda an, st, c: put(an, st, c, app('u16b', c.args[1]))
    T[p + 'u16_le'] = lambda an, st, c: put(an, st, c, app('u16le', c.args[1]))
    T[p + 'u32'] = lambda an, st, c: put(an, st, c, app('u32b', c.args[1]))
    T[p + 'slice'] = lambda an, st, c: put(an, st, c, as_bytes(an, st, c.args[1]))
T['<bytes::bytes_mut::BytesMut as bytes::buf::buf_mut::BufMut>::put'] = lambda an, st, c: put(an, st, c, as_bytes(an, st, c.args[1]))
T['bytes::buf::buf_mut::BufMut::put'] = T['<bytes::bytes_mut::BytesMut as bytes::buf::buf_mut::BufMut>::put']


T['bytes::bytes_mut::BytesMut::unsplit'] = T['bytes::buf::buf_mut::BufMut::put']


@model('bytes::buf::buf_impl::Buf::take')
def buf_take(an, st, c):
    return one(st, agg('buftake', None, (c.args[0], c.args[1])))


def put_buf(an, st, c):
    t = an.content(st, c.args[1])
    if not (t.k == 'agg' and t.a[0] == 'buftake'):
        return put(an, st, c, as_bytes(an, st, c.args[1]))
    src, n = t.a[2]
    out = []
    ln = mkapp('len', an.content(st, src))
    a = st.copy()
    for s, k in ((a, n), (st, ln)):
        if s.assume(mkapp('ge0', sub(ln, n)), s is a):
            v = an.content(s, src)
            for s2, r in put(an, s, c, mkapp('slice', v, INT(0), k)):
                if src.k == 'ref':
                    an.setref(s2, src, mkapp('slice', v, k, ln))
                out.append((s2, r))
    return out


T['<bytes::bytes_mut::BytesMut as bytes::buf::buf_mut::BufMut>::put'] = put_buf
T['bytes::buf::buf_mut::BufMut::put'] = put_buf


@model('<bytes::bytes_mut::BytesMut as core::iter::traits::collect::Extend>::extend')
def bytes_extend(an, st, c):
    q = seq_of(an, st, c.args[1])
    if q is None and arg_def(an, c, 1).startswith('bytes::bytes'):
        q = an.content(st, c.args[1])
    return None if q is None else put(an, st, c, q)


T['bytes::bytes_mut::BytesMut::extend_from_slice'] = T['<bytes::bytes_mut::BytesMut as bytes::buf::buf_mut::BufMut>::put']


def as_bytes(an, st, t):
    t = an.content(st, t)
    if t.k == 'agg' and t.a[0] == 'array':
        if len(t.a[2]) == 1:
            return app('u8b', t.a[2][0])
        if len(t.a[2]) == 2:
            hi, lo = t.a[2]
            x = None
            if lo.k == 'app' and lo.a[0] == 'mod' and hi is mkapp('mod', mkapp('div', lo.a[1], INT(256)), INT(256)):
                x = lo.a[1]
            elif hi.k == 'app' and hi.a[0] == 'div' and hi.a[2] is INT(256) and lo is mkapp('mod', hi.a[1], INT(256)):
                x = hi.a[1]
            if x is not None:
                return app('u16b', x)
        return mkapp('cat', *[app('u8b', x) for x in t.a[2]])
    return t


# ---- hash maps

def mapget(m, k):
    return mkapp('mapget', m, k)


def key(an, st, t):
    return an.content(st, t)


HM = 'std::collections::hash::map::HashMap::'


@model(HM + 'new', HM + 'with_capacity', '<std::collections::hash::map::HashMap as core::default::Default>::default')
def map_new(an, st, c):
    return one(st, app('emptymap'))


@model(HM + 'get')
def map_get(an, st, c):
    m, k = an.content(st, c.args[0]), key(an, st, c.args[1])
    r = mapget(m, k)
    if an.emit(st, 'map.get', c.site, (c.args[0], m, k), r, info=c) is False:
        return []
    return one(st, r)


@model(HM + 'get_mut')
def map_get_mut(an, st, c):
    m, k = an.content(st, c.args[0]), key(an, st, c.args[1])
    g = mapget(m, k)
    out = []
    d = discr_of(g)
    a = st.copy()
    if a.assume_val(d, 1):
        v = fld(g, 1, 0)
        h = app('mapref', m, k)
        if ('H', h) not in a.env:
            a.env[('H', h)] = v
        if an.emit(a, 'map.getmut', c.site, (c.args[0], m, k), h, info=c) is not False:
            out.append((a, SOME(ref(('H', h)))))
    if st.assume_val(d, 0) and an.emit(st, 'miss', c.site, (c.args[0], m, k), NONE, info=c) is not False:
        out.append((st, NONE))
    return out


@model(HM + 'contains_key')
def map_contains(an, st, c):
    m, k = an.content(st, c.args[0]), key(an, st, c.args[1])
    d = discr_of(mapget(m, k))
    if an.emit(st, 'map.get', c.site, (c.args[0], m, k), mapget(m, k), info=c) is False:
        return []
    if d.k == 'int':
        return one(st, d)
    return one(st, mkapp('not', mkapp('eq0', d)))


@model('<std::collections::hash::map::HashMap as core::ops::index::Index>::index')
def map_index(an, st, c):
    m, k = an.content(st, c.args[0]), key(an, st, c.args[1])
    g = mapget(m, k)
    if an.emit(st, 'map.get', c.site, (c.args[0], m, k), g, info=c) is False:
        return []
    a = st.copy()
    if a.assume_val(discr_of(g), 0):
        an.emit(a, 'panic', c.site, (STR('no such key'),), info=c)
    return one(st, fld(g, 1, 0)) if st.assume_val(discr_of(g), 1) else []


@model(HM + 'insert')
def map_insert(an, st, c):
    m, k = an.content(st, c.args[0]), key(an, st, c.args[1])
    v = c.args[2]
    return mutate(an, st, c, 'map.insert', app('ins', m, k, v), (k, v), mapget(m, k))


@model(HM + 'remove', HM + 'remove_entry')
def map_remove(an, st, c):
    m, k = an.content(st, c.args[0]), key(an, st, c.args[1])
    g = mapget(m, k)
    if c.name.endswith('entry'):
        out = []
        a = st.copy()
        if a.assume_val(discr_of(g), 1):
            out += mutate(an, a, c, 'map.remove', app('del', m, k), (k,), SOME(TUP(k, fld(g, 1, 0))))
        if st.assume_val(discr_of(g), 0):
            out += mutate(an, st, c, 'map.remove', app('del', m, k), (k,), NONE)
        return out
    return mutate(an, st, c, 'map.remove', app('del', m, k), (k,), g)


@model(HM + 'clear', HM + 'drain')
def map_clear(an, st, c):
    m = an.content(st, c.args[0])
    if c.name.endswith('drain'):
        return mutate(an, st, c, 'map.clear', app('emptymap'), (), mkiter(app('entries', m, c.args[0])))
    return mutate(an, st, c, 'map.clear', app('emptymap'))


@model(HM + 'retain')
def map_retain(an, st, c):
    m = an.content(st, c.args[0])
    return mutate(an, st, c, 'map.retain', app('mapretained', m, sym('site', *c.site)))


@model(HM + 'entry')
def map_entry(an, st, c):
    return one(st, agg('mapentry', None, (c.args[0], key(an, st, c.args[1]), an.content(st, c.args[0]))))


def map_ensure(an, st, c, default):
    """entry(k).or_insert(v): a reference to the value under k, which exists afterwards."""
    e = an.content(st, c.args[0])
    if not (e.k == 'agg' and e.a[0] == 'mapentry'):
        return None
    mref, k, m = e.a[2]
    g = mapget(m, k)
    h = app('mapref', mref if mref.k != 'ref' or mref.a[0][0] == 'H' else m, k)
    RNG.setdefault(app('discr', g), (0, 1))
    v = default(st)
    if an.emit(st, 'map.ensure', c.site, (mref, m, k, v), h, info=c) is False:
        return []
    if ('H', h) not in st.env:
        st.env[('H', h)] = app('ensured', g, v)
    an.setref(st, mref, app('ens', m, k))
    return one(st, ref(('H', h)))


E_ = 'std::collections::hash::map::Entry::'
VE_, OE_ = 'std::collections::hash::map::VacantEntry::', 'std::collections::hash::map::OccupiedEntry::'


def entry_of(an, st, c, there):
    """What an entry was made from, in a state in which the key is or is not there."""
    e = an.content(st, c.args[0])
    if not (e.k == 'agg' and e.a[0] == 'mapentry'):
        return None
    mref, k, m = e.a[2]
    return (mref, k, m) if st.assume_val(discr_of(mapget(m, k)), there) else ()


@model(OE_ + 'into_mut', OE_ + 'get_mut', OE_ + 'get', OE_ + 'insert', OE_ + 'remove', OE_ + 'remove_entry')
def occupied(an, st, c):
    e = entry_of(an, st, c, 1)
    if not e:
        return e if e is None else []
    mref, k, m = e
    g = fld(mapget(m, k), 1, 0)
    op = c.name.split('::')[-1]
    c = Call(an, c.fr, c.bb, c.t, c.callee, [mref] + c.args[1:])
    if op == 'get':
        return one(st, g) if an.emit(st, 'map.get', c.site, (mref, m, k), mapget(m, k), info=c) is not False else []
    if op == 'insert':
        return mutate(an, st, c, 'map.insert', app('ins', m, k, c.args[1]), (k, c.args[1]), g)
    if op.startswith('remove'):
        return mutate(an, st, c, 'map.remove', app('del', m, k), (k,), g if op == 'remove' else TUP(k, g))
    h = app('mapref', m, k)
    if ('H', h) not in st.env:
        st.env[('H', h)] = g
    if an.emit(st, 'map.getmut', c.site, (mref, m, k), h, info=c) is False:
        return []
    return one(st, ref(('H', h)))


@model(VE_ + 'insert')
def vacant_insert(an, st, c):
    e = entry_of(an, st, c, 0)
    if not e:
        return e if e is None else []
    return map_ensure(an, st, c, lambda s: c.args[1])


@model(VE_ + 'key', VE_ + 'into_key', OE_ + 'key', E_ + 'key')
def entry_key(an, st, c):
    e = an.content(st, c.args[0])
    return one(st, e.a[2][1]) if e.k == 'agg' and e.a[0] == 'mapentry' else None


T[E_ + 'or_insert'] = lambda an, st, c: map_ensure(an, st, c, lambda s: c.args[1])


def _made(an, fr, st, v):
    """The value for a missing entry has been made."""
    e = st.env.pop(_cell(fr, 'made'), None)
    if e is None:
        return []
    c = Call(an, fr.parent, fr.bb, fr.parent.body.blocks[fr.bb]['t'], {'name': 'made', 'pretty': 'made', 'targs': []}, [e])
    return map_ensure(an, st, c, lambda s: v) or []


MADE = ('made', None, _made)


def closure_body(an, c, n=0):
    cl = (c.callee.get('closures') or [])[n:n + 1]
    if not cl:
        return None
    f = cl[0].get('fn') or {}
    return an.f.bodies.get(cl[0].get('body') or f.get('body') or f.get('rname'))


def run_closure(an, st, c, b, clo, args, kind):
    c2 = Call(an, c.fr, c.bb, c.t, c.callee, c.args)
    if b.kind == 'closure':
        return an.call_closure(st, c2, b, clo, args, kind=kind)
    return an.enter(st, c2, b, args, kind=kind)


def or_insert_with(an, st, c):
    e = an.content(st, c.args[0])
    b = closure_body(an, c)
    if b is None or b.argc > (2 if b.kind == 'closure' else 1):
        return map_ensure(an, st, c, lambda s: app('madeby', c.args[1]))
    return _make(an, st, c, e, b, c.args[1], [])


def or_default(an, st, c):
    e = an.content(st, c.args[0])
    ts = [an.f.tys(i) for i in c.callee.get('targs') or [] if isinstance(i, int)]
    for i in an.f.impls:
        if i['trait'] == 'core::default::Default' and len(ts) > 1 and i['self'] == ts[1]:
            b = an.f.bodies.get(i['items'].get('core::default::Default::default'))
            if b is not None:
                return _make(an, st, c, e, b, None, [])
    t = an.f.types[c.callee['targs'][1]].get('def') if len(ts) > 1 else None
    return map_ensure(an, st, c, lambda s: EMPTYSEQ if t in TEXTY or t == 'alloc::vec::Vec' else app('default', STR('map value')))


def _make(an, st, c, e, b, clo, args):
    if not (e.k == 'agg' and e.a[0] == 'mapentry'):
        return None

    def go(s):
        s.env[_cell((c.fr.id, c.bb), 'made')] = e
        return run_closure(an, s, c, b, clo, args, MADE)
    return [(st, None, go)]


T[E_ + 'or_default'] = or_default
T[E_ + 'or_insert_with'] = or_insert_with


# ---- formatting and logging

@model('core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_lower_hex',
       'core::fmt::rt::Argument::new_upper_hex', 'core::fmt::rt::Argument::new_binary', 'core::fmt::rt::Argument::new_octal',
       'core::fmt::rt::Argument::new_pointer', 'core::fmt::rt::Argument::new_lower_exp')
def fmt_arg(an, st, c):
    k = c.name.rsplit('new_', 1)[1]
    ty = an.f.tys(an.f.strip_ref(c.argty(0))) if c.argty(0) is not None else '?'
    return one(st, app('fmtarg', STR(k), STR(ty), an.content(st, c.args[0])))


@model('core::fmt::Arguments::new', 'core::fmt::Arguments::from_str', 'core::fmt::Arguments::from_str_nonconst')
def fmt_args(an, st, c):
    xs = [an.content(st, a) for a in c.args]
    xs = [app('array', *x.a[2]) if x.k == 'agg' and x.a[0] == 'array' else x for x in xs]
    return one(st, app('fmtargs', *xs))


@model('alloc::fmt::format')
def fmt_format(an, st, c):
    return one(st, formatted(an.content(st, c.args[0])))


TEXTS = {'str', 'std::string::String', 'alloc::string::String', 'std::borrow::Cow<str>', "std::borrow::Cow<'_, str>", 'std::boxed::Box<str>'}


def formatted(t):
    """The text of format arguments: its parts in order (encoding: core::fmt::Arguments)."""
    if t.k == 'app' and t.a[0] == 'as_str':
        t = t.a[1]
    if not (t.k == 'app' and t.a[0] == 'fmtargs'):
        return app('format', t)
    if len(t.a) == 2 and t.a[1].k == 'str':
        return t.a[1]
    tpl, args = t.a[1], t.a[2]
    if tpl.k != 'bytes' or not (args.k == 'app' and args.a[0] == 'array'):
        return app('format', t)
    b = tpl.a[0]
    out = []
    i, n = 0, 0
    try:
        while b[i]:
            c = b[i]
            i += 1
            if c <= 128:
                if c == 128:
                    c = b[i] + 256 * b[i + 1]
                    i += 2
                out.append(STR(b[i:i + c].decode()))
                i += c
                continue
            size = (4 if c & 1 else 0) + (2 if c & 2 else 0) + (2 if c & 4 else 0)
            spec = b[i:i + size]
            i += size
            if c & 8:
                n = b[i] + 256 * b[i + 1]
                i += 2
            a = args.a[1 + n]
            n += 1
            if spec or not (a.k == 'app' and a.a[0] == 'fmtarg') or a.a[1].a[0] != 'display':
                out.append(app('formatted', mk('bytes', bytes(spec)), a))
            elif a.a[2].a[0].lstrip('&') in TEXTS:
                out.append(a.a[3])
            else:
                out.append(app('display', a.a[3]))
    except (IndexError, UnicodeDecodeError):
        return app('format', t)
    return mkapp('cat', *out) if out else STR('')


T['core::fmt::Arguments::as_str'] = lambda an, st, c: one(st, app('as_str', an.content(st, c.args[0])))


@model('<log::Level as core::cmp::PartialOrd>::partial_cmp', '<log::LevelFilter as core::cmp::PartialOrd>::partial_cmp')
def log_level(an, st, c):
    # logging counts as enabled at every level
    return one(st, SOME(agg('core::cmp::Ordering', 0, ())))


@model('log::max_level')
def log_max(an, st, c):
    return one(st, sym('max_level'))


@model('log::__private_api::loc', 'log::__private_api::format_args')
def log_loc(an, st, c):
    return one(st, sym('loc'))


@model('log::__private_api::log', 'log::__private_api::log_impl')
def log_log(an, st, c):
    if an.emit(st, 'log', c.site, c.args, info=c) is False:
        return []
    return one(st, UNIT)


@model('std::io::stdio::_print', 'std::io::stdio::_eprint')
def log_print(an, st, c):
    if an.emit(st, 'print', c.site, c.args, info=c) is False:
        return []
    return one(st, UNIT)


# ---- panics

@model('core::panicking::panic_fmt', 'core::panicking::panic', 'core::result::unwrap_failed::unwrap_failed_inner',
       'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
       'core::panicking::panic_display', 'core::panicking::unreachable_display', 'std::rt::begin_panic',
       'core::panicking::panic_explicit', 'core::panicking::assert_failed', 'core::panicking::panic_nounwind',
       'core::panicking::panic_str_2015', 'core::str::slice_error_fail', 'core::panicking::panic_bounds_check',
       'core::panicking::unimplemented_default_msg', 'core::panicking::todo_default_msg',
       'core::panicking::unreachable_default_msg', 'core::panicking::assert_failed_inner', 'alloc::raw_vec::capacity_overflow', 'core::panicking::panic_const')
def panic(an, st, c):
    an.emit(st, 'panic', c.site, (STR(c.name.split('::')[-1]),), info=c)
    return []


@model('core::str::error::Utf8Error::valid_up_to')
def valid_up_to(an, st, c):
    # an error lies before the end of the text
    e = an.content(st, c.args[0])
    r = app('valid_up_to', e)
    RNG.setdefault(r, (0, 2 ** 62))
    return one(st, r)


@model('std::process::exit', 'std::process::abort')
def p_exit(an, st, c):
    an.emit(st, 'exit', c.site, c.args, info=c)
    return []


for n in ('precondition_check',):
    pass


# ---- channels and tasks

FUTURE_ADTS = ('tokio::io::util::', 'futures_util::', 'tokio::time::sleep::Sleep', 'tokio::task::yield_now',
               'tokio::runtime::task::join::JoinHandle', 'tokio::sync::oneshot::Receiver', 'core::future::ready::Ready',
               'tokio::time::timeout::Timeout', 'futures_core::future')


@model('tokio::net::tcp::stream::TcpStream::into_split', 'tokio::net::tcp::TcpStream::into_split', 'tokio::net::TcpStream::into_split')
def into_split(an, st, c):
    s = an.content(st, c.args[0])
    return one(st, TUP(app('half', s, STR('read')), app('half', s, STR('write'))))


@model('tokio::sync::oneshot::channel')
def oneshot_channel(an, st, c):
    s = an.fresh(st, c.site, 'oneshot')
    return one(st, TUP(app('otx', s), app('orx', s)))


@model('tokio::sync::mpsc::bounded::channel', 'tokio::sync::mpsc::unbounded::unbounded_channel')
def mpsc_channel(an, st, c):
    s = an.fresh(st, c.site, 'mpsc')
    if an.emit(st, 'channel', c.site, c.args, s, info=c) is False:
        return []
    return one(st, TUP(app('tx', s), app('rx', s)))


@model('tokio::sync::broadcast::channel')
def bc_channel(an, st, c):
    s = an.fresh(st, c.site, 'broadcast')
    return one(st, TUP(app('btx', s), app('brx', s, app('btx', s))))


@model('tokio::sync::broadcast::Sender::subscribe')
def bc_subscribe(an, st, c):
    s = an.fresh(st, c.site, 'sub')
    return one(st, app('brx', s, an.content(st, c.args[0])))


@model('tokio::sync::oneshot::Sender::send')
def oneshot_send(an, st, c):
    r = an.fresh(st, c.site, 'osend')
    RNG.setdefault(app('discr', r), (0, 1))
    if an.emit(st, 'reply', c.site, (an.content(st, c.args[0]), c.args[1]), r, info=c) is False:
        return []
    return one(st, r)


@model('tokio::sync::broadcast::Sender::send')
def bc_send(an, st, c):
    r = an.fresh(st, c.site, 'bsend')
    if an.emit(st, 'broadcast', c.site, (an.content(st, c.args[0]), c.args[1]), r, info=c) is False:
        return []
    return one(st, r)


@model('tokio::sync::mpsc::bounded::Sender::try_send', 'tokio::sync::mpsc::unbounded::UnboundedSender::send',
       'tokio::sync::mpsc::bounded::Sender::blocking_send')
def try_send(an, st, c):
    r = an.fresh(st, c.site, 'trysend')
    RNG.setdefault(app('discr', r), (0, 1))
    kind = 'blocking' if 'blocking' in c.name else 'trysend'
    if an.emit(st, kind, c.site, (an.content(st, c.args[0]), c.args[1]), r, info=c) is False:
        return []
    return one(st, r)


@model('tokio::task::spawn::spawn', 'tokio::spawn', 'tokio::task::local::spawn_local', 'tokio::task::blocking::spawn_blocking')
def spawn(an, st, c):
    s = an.fresh(st, c.site, 'task')
    fut = an.content(st, c.args[0])
    if an.emit(st, 'spawn', c.site, (fut,), s, info=c) is False:
        return []
    return one(st, app('task', s))


@model('tokio::macros::support::thread_rng_n')
def rng_n(an, st, c):
    n = c.args[0]
    if n.k == 'int' and 0 < n.a[0] <= 4 and getattr(an.hooks, 'unroll', False):
        out = []
        for i in range(n.a[0]):
            s2 = st.copy()
            if an.emit(s2, 'rng', c.site, (INT(i),), info=c) is not False:
                out.append((s2, INT(i)))
        return out
    s = an.fresh(st, c.site, 'rng')
    if n.k == 'int':
        RNG[s] = (0, max(0, n.a[0] - 1))
    return one(st, s)


@model('tokio::macros::support::poll_budget_available')
def budget(an, st, c):
    return one(st, READY(UNIT))


@model('futures_util::future::join_all::join_all')
def join_all(an, st, c):
    t = an.content(st, c.args[0])
    if t.k == 'agg' and t.a[0] == 'iter':
        t = t.a[2][0]
    return one(st, mk('fut', 'join_all', sym('site', *c.site), (t,)))


@model(*['<%s as core::default::Default>::default' % t for t in 'u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize bool'.split()])
def zero_default(an, st, c):
    return one(st, INT(0))


def is_future(an, ty):
    t = an.f.types[ty]
    if t['k'] == 'coroutine':
        return True
    return t['k'] == 'adt' and any(t['def'].startswith(p) for p in FUTURE_ADTS)


def maybe_done(an, st, c):
    """join!: a future that keeps its output until all are done. The order of polling is immaterial."""
    w = c.name.split('::')[-1]
    if w == 'maybe_done':
        return one(st, app('md', c.args[0]))
    if w == 'default':
        return one(st, UNIT)
    if w == 'num_skip':
        return one(st, INT(0))
    md = an.pinned(st, c.args[0])
    r = c.args[0]
    while r.k == 'agg' and r.a[0] == 'core::pin::Pin':
        r = r.a[2][0]
    while r.k == 'ref' and (an.read(st, *r.a) or UNIT).k == 'ref':
        r = an.read(st, *r.a)
    if md.k != 'app' or md.a[0] not in ('md', 'mdone') or r.k != 'ref':
        return None
    if w == 'take_output' and md.a[0] == 'mdone':
        return one(st, SOME(md.a[1]))
    if w == 'poll':
        if md.a[0] == 'mdone':
            return one(st, READY(UNIT))
        cell = ('L', c.fr.id, 'md%d' % c.bb)
        st.env[cell] = md.a[1]
        c2 = Call(an, c.fr, c.bb, c.t, c.callee, [ref(cell)] + list(c.args[1:]))
        out = []
        for s2, v in poll(an, st, c2):
            s2.env.pop(cell, None)
            if v is not PENDING:
                an.setref(s2, r, app('mdone', v.a[2][0]))
                v = READY(UNIT)
            out.append((s2, v))
        return out
    return None


def generic(an, st, c):
    """Futures made by opaque functions, and the polling of them."""
    callee = c.callee
    if 'maybe_done' in c.name or 'macros::join::' in c.name:
        r = maybe_done(an, st, c)
        if r is not None:
            return r
    if callee.get('method') == 'poll' and (callee.get('trait') or '').endswith('Future') and not callee.get('body'):
        return poll(an, st, c)
    if callee.get('body') is None and not callee.get('ctor') and c.t[4] is not None and c.retty() is not None \
            and is_future(an, c.retty()) and callee.get('method') not in ('clone', 'into_future') \
            and not (callee.get('virtual')):
        name = short(c.name)
        return one(st, mk('fut', name, sym('site', *c.site), tuple(c.args)))
    if c.name in ('<&mut T as core::ops::deref::DerefMut>::deref_mut', '<&mut T as core::ops::deref::Deref>::deref', '<&T as core::ops::deref::Deref>::deref') \
            and c.args[0].k == 'ref':
        r = an.read(st, *c.args[0].a)
        if r is not None:
            return one(st, r)
    if c.name.endswith('precondition_check'):
        return one(st, UNIT)
    if callee.get('shim') == 'clone':
        return one(st, an.content(st, c.args[0]))
    if c.name.startswith('<') and c.name.endswith('as core::clone::Clone>::clone') and callee.get('body') is None:
        return one(st, an.content(st, c.args[0]))
    return None


SHORT = {
    'tokio::sync::mpsc::bounded::Sender::send': 'send',
    'tokio::sync::mpsc::bounded::Receiver::recv': 'recv',
    'tokio::sync::mpsc::bounded::Sender::closed': 'closed',
    'tokio::sync::mpsc::unbounded::UnboundedReceiver::recv': 'recv',
    'tokio::sync::broadcast::Receiver::recv': 'brecv',
    'tokio::io::util::async_read_ext::AsyncReadExt::read_buf': 'read_buf',
    'tokio::io::util::async_read_ext::AsyncReadExt::read': 'read',
    'tokio::io::util::async_read_ext::AsyncReadExt::read_exact': 'read_exact',
    'tokio::io::util::async_write_ext::AsyncWriteExt::write_buf': 'write_buf',
    'tokio::io::util::async_write_ext::AsyncWriteExt::write_all_buf': 'write_all_buf',
    'tokio::io::util::async_write_ext::AsyncWriteExt::write_all': 'write_all',
    'tokio::io::util::async_write_ext::AsyncWriteExt::write': 'write',
    'tokio::io::util::async_write_ext::AsyncWriteExt::flush': 'flush',
    'tokio::io::util::async_write_ext::AsyncWriteExt::shutdown': 'shutdown',
    'tokio::net::tcp::listener::TcpListener::accept': 'accept',
    'tokio::net::tcp::listener::TcpListener::bind': 'bind',
    'tokio::signal::ctrl_c::ctrl_c': 'ctrl_c',
    'tokio::time::sleep::sleep': 'sleep',
    'tokio::time::timeout::timeout': 'timeout',
}


def short(n):
    return SHORT.get(n, n)


def poll(an, st, c):
    out = []
    fut = an.pinned(st, c.args[0])
    if an.allow_pending(c):
        p = st.copy()
        if an.emit(p, 'pending', c.site, (fut,), info=c) is not False:
            out += [(p, PENDING)]
    if fut.k == 'fut':
        kind, args = fut.a[0], fut.a[2]
    elif fut.k == 'app' and fut.a[0] == 'task':
        kind, args = 'join', (fut,)
    elif fut.k == 'app' and fut.a[0] == 'orx':
        kind, args = 'orecv', (fut,)
    else:
        nm = c.name
        kind = 'poll'
        if nm.startswith('<tokio::sync::oneshot::Receiver'):
            kind = 'orecv'
        elif 'JoinHandle' in nm:
            kind = 'join'
        args = (fut,)
    h = POLLS.get(kind)
    if h is not None:
        out += h(an, st, c, args)
        return out
    r = an.fresh(st, c.site, 'await')
    if '::' in kind:
        kind = 'await:' + kind
    if an.emit(st, kind, c.site, args, r, info=c) is not False:
        out.append((st, READY(r)))
    return out


def _simple(kind):
    def f(an, st, c, args):
        r = an.fresh(st, c.site, 'await')
        RNG.setdefault(app('discr', r), (0, 1))
        args = tuple(an.content(st, a) for a in args)
        if an.emit(st, kind, c.site, args, r, info=c) is False:
            return []
        return one(st, READY(r))
    return f


def _read_buf(an, st, c, args):
    out = []
    e = st.copy()
    x = an.fresh(e, c.site, 'err')
    if an.emit(e, 'read-err', c.site, args, x, info=c) is not False:
        out.append((e, READY(ERR(x))))
    n = an.fresh(st, c.site, 'n')
    RNG[n] = (0, 2 ** 63 - 1)
    buf = an.content(st, args[1])
    base = ('G', 'inpos')
    q = st.env.get(base)
    if q is None:
        q = sym('inpos0')
        RNG.setdefault(q, (0, 2 ** 62))
    new = mkapp('slice', IN, q, add(q, n))
    if an.emit(st, 'read', c.site, args, n, info=c) is False:
        return out
    an.setref(st, args[1], mkapp('cat', buf, new))
    st.env[base] = add(q, n)
    out.append((st, READY(OK(n))))
    return out


def _read(an, st, c, args):
    out = []
    e = st.copy()
    x = an.fresh(e, c.site, 'err')
    if an.emit(e, 'read-err', c.site, args, x, info=c) is not False:
        out.append((e, READY(ERR(x))))
    n = an.fresh(st, c.site, 'n')
    RNG[n] = (0, 2 ** 63 - 1)
    buf = an.content(st, args[1])
    ln = mkapp('len', buf)
    base = ('G', 'inpos')
    q = st.env.get(base)
    if q is None:
        q = sym('inpos0')
        RNG.setdefault(q, (0, 2 ** 62))
    if not st.add_ge0(sub(ln, n)):
        return out
    if an.emit(st, 'read', c.site, args, n, info=c) is False:
        return out
    new = mkapp('slice', IN, q, add(q, n))
    an.setref(st, args[1], app('cat', new, app('restof', buf, n)))
    RNG.setdefault(mkapp('len', app('restof', buf, n)), (0, 2 ** 63 - 1))
    st.env[base] = add(q, n)
    out.append((st, READY(OK(n))))
    return out


def _read_exact(an, st, c, args):
    out = []
    # nothing is read into an empty slice
    z = st.copy()
    n = mkapp('len', an.content(st, args[1]))
    if z.assume(mkapp('eq0', n), True):
        out.append((z, READY(OK(INT(0)))))
    if not st.assume(mkapp('eq0', n), False):
        return out
    e = st.copy()
    x = an.fresh(e, c.site, 'err')
    if an.emit(e, 'read-err', c.site, args, x, info=c) is not False:
        out.append((e, READY(ERR(x))))
    buf = an.content(st, args[1])
    n = mkapp('len', buf)
    base = ('G', 'inpos')
    q = st.env.get(base)
    if q is None:
        return None
    # the end of the stream is an error here, so this counts as having got something
    if an.emit(st, 'read', c.site, args, INT(1), info=c) is False:
        return out
    an.setref(st, args[1], mkapp('slice', IN, q, add(q, n)))
    st.env[base] = add(q, n)
    out.append((st, READY(OK(n))))
    return out


IN = sym('IN')
OUT = sym('OUT')


def _write(kind):
    def f(an, st, c, args):
        out = []
        e = st.copy()
        x = an.fresh(e, c.site, 'err')
        buf = an.content(st, args[1])
        if kind != 'write_all' and kind != 'write':
            an.setref(e, args[1], app('partly', buf, x))
        if an.emit(e, 'write-err', c.site, args, x, info=c) is not False:
            out.append((e, READY(ERR(x))))
        ln = mkapp('len', buf)
        if kind in ('write_buf', 'write'):
            n = an.fresh(st, c.site, 'n')
            RNG[n] = (0, 2 ** 63 - 1)
            if not st.add_ge0(sub(ln, n)):
                return out
            if an.emit(st, 'write', c.site, (args[0], args[1], mkapp('slice', buf, INT(0), n), n), n, info=c) is False:
                return out
            if kind == 'write_buf':
                an.setref(st, args[1], mkapp('slice', buf, n, ln))
            out.append((st, READY(OK(n))))
        else:
            if an.emit(st, 'write', c.site, (args[0], args[1], buf, ln), ln, info=c) is False:
                return out
            if kind == 'write_all_buf':
                an.setref(st, args[1], emptied(buf))
            out.append((st, READY(OK(UNIT))))
        return out
    return f


POLLS = {
    'read_buf': _read_buf,
    'read': _read,
    'read_exact': _read_exact,
    'write_buf': _write('write_buf'),
    'write_all_buf': _write('write_all_buf'),
    'write_all': _write('write_all'),
    'write': _write('write'),
}
for _k in ('send', 'recv', 'brecv', 'closed', 'orecv', 'accept', 'bind', 'ctrl_c', 'join', 'join_all'):
    POLLS[_k] = _simple(_k)


def _io_unit(kind):
    """An operation of a socket that gives nothing but its success."""
    def f(an, st, c, args):
        out = []
        e = st.copy()
        x = an.fresh(e, c.site, 'err')
        if an.emit(e, 'write-err', c.site, args, x, info=c) is not False:
            out.append((e, READY(ERR(x))))
        if an.emit(st, kind, c.site, args, UNIT, info=c) is not False:
            out.append((st, READY(OK(UNIT))))
        return out
    return f


for _k in ('flush', 'shutdown'):
    POLLS[_k] = _io_unit(_k)
