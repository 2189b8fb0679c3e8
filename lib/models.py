"""Abstract semantics of the std / nix functions the shell calls."""
import re

from terms import *

SIGNUM = {1: 'SIGHUP', 2: 'SIGINT', 3: 'SIGQUIT', 4: 'SIGILL', 5: 'SIGTRAP', 6: 'SIGABRT', 7: 'SIGBUS', 8: 'SIGFPE', 9: 'SIGKILL', 10: 'SIGUSR1', 11: 'SIGSEGV', 12: 'SIGUSR2', 13: 'SIGPIPE',
          14: 'SIGALRM', 15: 'SIGTERM', 16: 'SIGSTKFLT', 17: 'SIGCHLD', 18: 'SIGCONT', 19: 'SIGSTOP', 20: 'SIGTSTP', 21: 'SIGTTIN', 22: 'SIGTTOU', 23: 'SIGURG', 24: 'SIGXCPU', 25: 'SIGXFSZ',
          26: 'SIGVTALRM', 27: 'SIGPROF', 28: 'SIGWINCH', 29: 'SIGIO', 30: 'SIGPWR', 31: 'SIGSYS'}
def knownkeys(mp):
    """the entries of a map built from nothing with distinct constant keys (in one of the orders it may have)"""
    out = {}
    while mp.k == 'ins':
        k = mp.a[1]
        if not constant(k):
            return None
        out.setdefault(k, mp.a[2])
        mp = mp.a[0]
    return sorted(out.items(), key=lambda x: (x[0].a[0] if x[0].k == 'int' else 0, show(x[0]))) if mp.k == 'emptymap' and out else None


def eqkey(e, st, a, b):
    return B(a is b) if constant(a) and constant(b) and a.k == b.k else e.binop(st, 'Eq', a, b)


def constant(k):
    return k.k in ('int', 'str') or k.k == 'adt' and all(constant(x) for x in k.a[2:])


# iterators whose items are references to shared pointers
RCITEM = re.compile(r"[,<] ?(?:&(?:'\w+ )?)?std::rc::Rc<std::cell::RefCell<")
ITERK = {'iter', 'enum', 'map', 'fmap', 'filter', 'rev', 'skip', 'take', 'zip', 'cloned', 'chain', 'peek', 'tw', 'once'}
STRTY = ('std::string::String', 'str', 'std::ffi::OsString', 'std::path::PathBuf', 'std::path::Path', 'std::ffi::OsStr', 'std::ffi::CString', 'std::ffi::CStr')


def bt(ty):
    while True:
        if ty.startswith('&mut '):
            ty = ty[5:]
        elif ty.startswith('&'):
            ty = ty[1:]
            if ty.startswith("'"):
                ty = ty.split(' ', 1)[1]
        else:
            return ty


def strval(e, st, v):
    return e.val(st, v)


def cat(*parts):
    out = []
    for p in parts:
        ps = p.a if p.k == 'cat' else (p,)
        for q in ps:
            if q.k == 'char':
                q = S(chr(q.a[0]))
            if q.k == 'str':
                if q.a[0] == '':
                    continue
                if out and out[-1].k == 'str':
                    out[-1] = S(out[-1].a[0] + q.a[0])
                    continue
            out.append(q)
    if not out:
        return S('')
    if len(out) == 1:
        return out[0]
    if len(out) > 12:
        return mk('strof', *sorted(set(out), key=lambda z: z.n))
    return mk('cat', *out)


def pat(e, st, v):
    """a string pattern operand as a plain python string, else its term"""
    v = strval(e, st, v)
    if v.k == 'str':
        return v.a[0], v
    if v.k == 'char':
        return chr(v.a[0]), S(chr(v.a[0]))
    return None, v


def str_pred(e, st, op, s, p):
    """boolean term for contains / starts_with / ends_with"""
    s = strval(e, st, s)
    lit, pt = pat(e, st, p)
    if s.k == 'str' and lit is not None:
        x = s.a[0]
        return B({'contains': lit in x, 'starts_with': x.startswith(lit), 'ends_with': x.endswith(lit)}[op])
    if s.k == 'cat' and lit is not None:
        ps = s.a
        if op == 'contains' and any(q.k == 'str' and lit in q.a[0] for q in ps):
            return TRUE
        if op == 'contains' and len(lit) == 1 and all(q.k == 'str' or e.decide(st, str_pred(e, st, op, q, pt)) is False for q in ps):
            return FALSE
        if op == 'starts_with' and ps[0].k == 'str' and len(ps[0].a[0]) >= len(lit):
            return B(ps[0].a[0].startswith(lit))
        if op == 'ends_with' and ps[-1].k == 'str' and len(ps[-1].a[0]) >= len(lit):
            return B(ps[-1].a[0].endswith(lit))
    if s.k == 'itoa':
        if op == 'contains' and lit is not None and not (set(lit) <= set('0123456789-')):
            return FALSE
    if pt.k == 'clo' or pt.k == 'fn':
        return mk('pred', op, s, pt)
    return mk('pred', op, s, pt)


def imply(e, st, b):
    """consequences between string predicates on one subject"""
    if b.k == 'pred':
        op, s, p = b.a
        f = st.facts.get(b)
        if f is not None and f[0] == 'c':
            return f[1].a[0]
        if p.k == 'str':
            if op == 'contains':
                if p.a[0] == '':
                    return True
                for o in ('starts_with', 'ends_with'):
                    if st.facts.get(mk('pred', o, s, p)) == ('c', TRUE):
                        return True
            else:
                if st.facts.get(mk('pred', 'contains', s, p)) == ('c', FALSE):
                    return False
                if p.a[0] == '':
                    return True
            if e.cmp(st, 'eq', s, S('')) is True:
                return False
        if s.k == 'before' and s.a[1] is p and op == 'contains':
            return False
    return None


def fork_bool(e, st, b, mkval):
    return [(s, mkval(s, v)) for (s, v) in e.branch(st, b)]


def install(e):
    M = e.models
    type(e).imply = lambda self, st, b: imply(self, st, b)

    def m(*names):
        def d(f):
            for n in names:
                M[n] = f
            return f
        return d

    def arg0(e, st, c):
        return c.args[0]

    # ---------------------------------------------------------------- pointers and wrappers
    for n in ('std::cell::RefCell::<T>::borrow', 'std::cell::RefCell::<T>::borrow_mut', 'fragile::Fragile::<T>::get', 'fragile::Fragile::<T>::new',
              'std::cell::RefCell::<T>::new', 'std::hint::must_use', 'std::string::String::as_str', 'std::string::String::as_mut_str', 'std::vec::Vec::<T, A>::as_slice',
              'std::vec::Vec::<T, A>::as_mut_slice', 'std::ffi::CString::as_c_str', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut',
              'std::convert::AsMut::as_mut', 'std::cell::RefCell::<T>::get_mut', 'std::cell::RefCell::<T>::into_inner',
              'std::string::String::as_bytes', 'std::str::<impl str>::as_bytes', 'std::vec::Vec::<T>::into_boxed_slice', 'std::io::BufReader::<R>::new',
              'std::iter::IntoIterator::into_iter~', 'std::os::fd::IntoRawFd::into_raw_fd~', 'std::string::String::into_bytes', 'std::path::Path::new',
              'std::boxed::Box::<T>::into_inner', 'std::cell::Cell::<T>::new', 'std::ffi::OsStr::new', 'std::slice::<impl [T]>::as_ref', 'std::path::Path::as_os_str',
              'std::path::PathBuf::as_path', 'std::cell::Ref::<\'b, T>::clone', 'std::rc::Rc::<T, A>::as_ref', 'std::str::<impl str>::as_str'):
        M[n] = arg0

    @m('std::cell::RefCell::<T>::try_borrow', 'std::cell::RefCell::<T>::try_borrow_mut')
    def _(e, st, c):
        t = e.fresh(st, 'call', c.site, c.res)
        s2 = st.fork()
        e.assume_variant(st, t, 'Ok', RES, True)
        e.assume_variant(s2, t, 'Err', RES, True)
        return [(st, OK(c.args[0])), (s2, ERR(mk('f', t, 'Err', 0)))]

    @m('std::cell::RefCell::<T>::replace', 'std::mem::replace')
    def _(e, st, c):
        loc, path = e.deref(c.args[0])
        old = e.load(st, loc, path)
        e.store(st, loc, path, c.args[1])
        return old

    @m('std::mem::take')
    def _(e, st, c):
        loc, path = e.deref(c.args[0])
        old = e.load(st, loc, path)
        ty = c.rty
        new = NONE if ty.startswith(OPT) else S('') if ty.startswith('std::string') else mk('vec') if ty.startswith('std::vec') else mk('default', ty)
        e.store(st, loc, path, new)
        return old

    @m('std::mem::swap')
    def _(e, st, c):
        a, b = e.deref(c.args[0]), e.deref(c.args[1])
        x, y = e.load(st, *a), e.load(st, *b)
        e.store(st, a[0], a[1], y)
        e.store(st, b[0], b[1], x)
        return UNIT

    @m('std::rc::Rc::<T>::new', 'std::boxed::Box::<T>::new', 'std::sync::Arc::<T>::new')
    def _(e, st, c):
        return e.alloc(st, c.site, c.args[0])

    @m('std::rc::Rc::<T, A>::ptr_eq')
    def _(e, st, c):
        return e.boolean(st, 'eq', e.load1(st, c.args[0]), e.load1(st, c.args[1]))

    @m('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut')
    def _(e, st, c):
        t = bt(c.at[0])
        for s, sty in e.F.statics.items():
            if sty == t and s == t:
                return mk('static', s)
        if t.startswith(('std::vec::Vec<', 'std::string::String', 'std::path::PathBuf', 'std::ffi::OsString', 'std::ffi::CString')):
            return c.args[0]
        if t.startswith('lazy_static::'):
            return mk('static', t)
        return shared(e, st, c.args[0]) if t.startswith('std::rc::Rc<std::cell::RefCell<') else e.load1(st, c.args[0])

    @m('std::clone::Clone::clone', 'std::option::Option::<&T>::copied~', 'std::cell::Cell::<T>::get')
    def _(e, st, c):
        return shared(e, st, c.args[0]) if c.rty.startswith('std::rc::Rc<std::cell::RefCell<') else e.load1(st, c.args[0])

    def plain(e, st, v):
        return e.load1(st, v)

    def shared(e, st, v):
        """the pointer itself, where a reference to it and the pointer may be the same term"""
        w = e.load1(st, v)
        return w if w.k == 'ref' or opaque(w) else v

    @m('std::clone::Clone::clone_from')
    def _(e, st, c):
        loc, path = e.deref(c.args[0])
        e.store(st, loc, path, e.load1(st, c.args[1]))
        return UNIT

    @m('std::borrow::ToOwned::to_owned', 'std::string::String::from', 'std::str::<impl str>::to_string', 'std::str::<impl str>::to_owned', 'std::slice::<impl [T]>::to_vec',
       'std::path::Path::to_path_buf', 'std::str::<impl str>::into_string', 'std::string::String::into_boxed_str', 'std::slice::<impl [T]>::into_vec', 'std::ffi::OsStr::to_os_string')
    def _(e, st, c):
        return e.val(st, c.args[0])

    @m('std::string::ToString::to_string')
    def _(e, st, c):
        return disp(e, st, c.args[0], bt(c.at[0]))

    def disp(e, st, v, ty=''):
        v = e.val(st, v)
        if v.k in ('str', 'cat'):
            return v
        if v.k == 'char':
            return S(chr(v.a[0]))
        if v.k == 'int':
            return S(str(v.a[0]))
        if v.k == 'bool':
            return S('true' if v.a[0] else 'false')
        t = bt(ty)
        if t in ('usize', 'i32', 'u32', 'i64', 'u64', 'nix::unistd::Pid', 'u8'):
            return mk('itoa', v)
        return v

    @m('std::convert::Into::into', 'std::convert::From::from')
    def _(e, st, c):
        if c.inst and c.local:
            return None
        t = c.rty
        if t in STRTY or t.startswith(('std::boxed::Box<str', 'std::rc::Rc<str', 'std::borrow::Cow')):
            return e.val(st, c.args[0])
        if t == bt(c.at[0]) and t == c.at[0]:
            return c.args[0]
        if t in ('usize', 'i32', 'i64', 'u64', 'u32', 'char'):
            return c.args[0]
        if t.startswith(OPT):
            return SOME(c.args[0]) if not c.at[0].startswith(OPT) else c.args[0]
        if t.startswith(('std::vec::Vec', 'std::rc::Rc', 'std::boxed::Box', 'std::path')):
            return e.val(st, c.args[0]) if 'Vec' in t else c.args[0]
        return None

    @m('std::convert::TryInto::try_into', 'std::convert::TryFrom::try_from', 'nix::unistd::Pid::from_raw', 'nix::unistd::Pid::as_raw', 'nix::unistd::getuid', 'nix::unistd::Uid::is_root',
       'std::ffi::OsString::into_string', 'std::path::Path::to_str', 'std::fs::Metadata::is_file', 'std::fs::DirEntry::file_name', 'std::fs::Metadata::is_dir',
       'std::char::methods::<impl char>::is_whitespace', 'std::char::methods::<impl char>::to_digit', 'std::char::methods::<impl char>::is_alphabetic', 'std::char::methods::<impl char>::is_alphanumeric',
       'std::char::methods::<impl char>::is_numeric', 'std::char::methods::<impl char>::is_ascii_digit', 'std::char::methods::<impl char>::is_ascii_alphabetic', 'std::char::methods::<impl char>::is_ascii_alphanumeric',
       'std::char::methods::<impl char>::is_digit',
       'std::char::methods::<impl char>::len_utf8', 'std::char::methods::len_utf8', 'std::str::<impl str>::trim', 'std::str::<impl str>::trim_start', 'std::str::<impl str>::trim_end', 'std::str::<impl str>::trim_matches',
       'std::str::<impl str>::to_lowercase', 'std::str::<impl str>::to_uppercase', 'std::str::<impl str>::find', 'std::str::<impl str>::rfind', 'std::str::<impl str>::trim_start_matches', 'std::str::<impl str>::trim_end_matches',
       'std::str::<impl str>::eq_ignore_ascii_case', 'std::str::<impl str>::replace', 'std::str::<impl str>::repeat', 'std::str::<impl str>::is_char_boundary', 'std::path::Path::display', 'std::path::Path::is_file', 'std::path::Path::join',
       'std::string::String::from_utf8_lossy', 'std::string::String::from_utf8', 'std::ffi::OsStr::to_string_lossy', 'std::ffi::OsStr::to_str', 'std::borrow::Cow::<\'_, B>::into_owned', 'std::os::unix::ffi::OsStringExt::into_vec',
       'std::os::unix::ffi::OsStrExt::as_bytes', 'std::path::Path::file_name', 'std::path::Path::exists~', 'rustyline::completion::Candidate::display', 'std::fs::DirEntry::path',
       'nix::sys::signal::SigAction::new', 'nix::sys::signal::SaFlags::empty', 'nix::errno::Errno::last~', 'std::io::Error::kind', 'std::io::Error::raw_os_error')
    def pure(e, st, c):
        vs = [e.val(st, a) for a in c.args]
        if c.name.endswith('TryFrom::try_from') and c.targs[:1] == ['nix::sys::signal::Signal'] and vs[0].k == 'int':
            n = SIGNUM.get(vs[0].a[0])
            return OK(mk('adt', 'nix::sys::signal::Signal', n)) if n else ERR(mk('app', 'badsignal', vs[0]))
        if c.res.endswith('is_whitespace') and vs[0].k == 'char':
            return B(chr(vs[0].a[0]).isspace())
        if c.name.endswith('to_digit') and vs[0].k == 'char' and vs[1].k == 'int':
            ch = chr(vs[0].a[0])
            d = int(ch, 36) if ch.isascii() and ch.isalnum() else 99
            return SOME(I(d)) if d < vs[1].a[0] else NONE
        if c.name.endswith('len_utf8') and vs[0].k == 'char':
            return I(len(chr(vs[0].a[0]).encode()))
        if vs and vs[0].k == 'char' and '<impl char>::is_' in c.name:
            ch = chr(vs[0].a[0])
            n = c.name.rsplit('::', 1)[1]
            f = {'is_alphabetic': ch.isalpha(), 'is_alphanumeric': ch.isalnum(), 'is_numeric': ch.isnumeric(), 'is_ascii_digit': ch in '0123456789',
                 'is_ascii_alphabetic': ch.isascii() and ch.isalpha(), 'is_ascii_alphanumeric': ch.isascii() and ch.isalnum()}.get(n)
            if f is not None:
                return B(f)
        if c.name.endswith('into_owned') or c.name.endswith('Pid::from_raw') or c.name.endswith('Pid::as_raw'):
            return vs[0]
        if vs and vs[0].k == 'str':
            s = vs[0].a[0]
            n = c.name.rsplit('::', 1)[1]
            if n == 'trim':
                return S(s.strip())
            if n == 'to_str':
                return SOME(vs[0])
        r = mk('app', c.name, *vs)
        if c.rty == 'bool':
            return mk('pred', 'app', r, UNIT)
        if c.rty in ('usize', 'u32'):
            return mk('u', r)
        return r

    @m('nix::sys::wait::WaitStatus::pid')
    def _(e, st, c):
        v = e.load1(st, c.args[0])
        ty = 'nix::sys::wait::WaitStatus'
        out = []
        for s, n in e.split_variants(st, v, ty):
            out.append((s, NONE if n == 'StillAlive' else SOME(e.proj(s, v, (n, 0)))))
        return out or None

    # ---------------------------------------------------------------- comparison
    @m('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
    def eqm(e, st, c):
        neg = c.name.endswith('::ne')
        t0 = bt(c.at[0])
        if c.inst and c.inst in e.F.fns:
            a = e.F.adts.get(t0)
            if a is None or a['kind'] != 'enum':
                if neg:
                    return None
                return None
        b = eqv(e, st, e.val(st, c.args[0]), e.val(st, c.args[1]), t0)
        if b is None:
            return None
        return e.neg(b) if neg else b

    def eqv(e, st, x, y, ty):
        if x is y:
            return TRUE
        if x.k in CONST or y.k in CONST:
            if x.k == 'char' and y.k == 'char' or x.k == y.k and x.k in CONST:
                return B(x.a[0] == y.a[0])
            return e.binop(st, 'Eq', x, y)
        x0, y0 = e.strip_upd(x), e.strip_upd(y)
        if y0.k != 'adt' and x0.k == 'adt':
            x, y, x0, y0 = y, x, y0, x0
        if y0.k == 'adt' and y0.a[1]:
            vn = y0.a[1]
            if x0.k == 'adt' and x0.a[1] != vn:
                return FALSE
            t = mk('isvar', x0, vn, ty) if x0.k != 'adt' else TRUE
            d = e.decide(st, t)
            if d is False:
                return FALSE
            for i in range(len(y0.a) - 2):
                fx, fy = e.proj(st, x, (vn, i)), e.proj(st, y, (vn, i))
                if fx.k == 'ref' or fy.k == 'ref':
                    fx, fy = e.val(st, fx), e.val(st, fy)
                b = eqv(e, st, fx, fy, fty(e, ty, vn, i))
                if b is None:
                    return None
                if b is FALSE:
                    return FALSE
                if b is not TRUE:
                    t = b if t is TRUE else mk('and', t, b)
            return t
        if x.k == 'tup' and y.k == 'tup' and len(x.a) == len(y.a):
            t = TRUE
            for p, q in zip(x.a, y.a):
                b = eqv(e, st, e.val(st, p), e.val(st, q), '')
                if b is None:
                    return None
                if b is FALSE:
                    return FALSE
                if b is not TRUE:
                    t = b if t is TRUE else mk('and', t, b)
            return t
        return e.boolean(st, 'eq', x, y)

    def fty(e, ty, vn, i):
        a = e.F.adts.get(ty)
        if a:
            for v in a['variants']:
                if v['name'] == vn and i < len(v['ftys']):
                    return bt(v['ftys'][i])
        return ''

    e.eqv = lambda st, x, y, ty='': eqv(e, st, x, y, ty)

    @m('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::ge')
    def _(e, st, c):
        op = {'lt': 'Lt', 'gt': 'Gt', 'le': 'Le', 'ge': 'Ge'}[c.name.rsplit('::', 1)[1]]
        return e.binop(st, op, e.val(st, c.args[0]), e.val(st, c.args[1]))

    @m('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp')
    def _(e, st, c):
        return mk('app', c.name, e.val(st, c.args[0]), e.val(st, c.args[1]))

    @m('std::cmp::Ord::max', 'std::cmp::Ord::min', 'std::cmp::max', 'std::cmp::min')
    def _(e, st, c):
        x, y = c.args
        mx = c.name.endswith('max')
        return [(s, (y if v else x) if mx else (x if v else y)) for s, v in e.branch(st, e.boolean(st, 'lt', x, y))]

    @m('std::mem::discriminant', 'std::intrinsics::discriminant_value')
    def _(e, st, c):
        v = e.load1(st, c.args[0])
        ty = bt(c.at[0])
        n = e.variant_of(st, v)
        if n is not None:
            a = e.F.adts.get(ty)
            for x in (a['variants'] if a else ()):
                if x['name'] == n:
                    return I(x['discr'])
        return mk('discr', e.strip_upd(v), ty)

    # ---------------------------------------------------------------- formatting
    @m('std::fmt::Arguments::<\'a>::from_str', 'std::fmt::Arguments::<\'a>::from_str_nonconst')
    def _(e, st, c):
        return mk('args', e.val(st, c.args[0]))

    for n in ('new_display', 'new_debug', 'new_lower_hex', 'new_upper_hex', 'new_octal'):
        def f(e, st, c, n=n):
            v = disp(e, st, c.args[0], c.at[0])
            return v if n == 'new_display' else mk('dbg', v)
        M["std::fmt::rt::Argument::<'_>::" + n] = f

    @m("std::fmt::Arguments::<'a>::new")
    def _(e, st, c):
        tmpl = e.val(st, c.args[0])
        vals = e.val(st, c.args[1])
        if tmpl.k != 'vec' or vals.k != 'vec':
            return mk('args', mk('fmtx', tmpl, vals))
        bs = [x.a[0] for x in tmpl.a]
        out, i, n = [], 0, 0
        while i < len(bs) and bs[i] != 0:
            b = bs[i]
            if b == 0xC0:
                out.append(vals.a[n] if n < len(vals.a) else mk('konst', 'fmt', ''))
                n += 1
                i += 1
            elif b < 128:
                out.append(S(bytes(bs[i + 1:i + 1 + b]).decode('utf8', 'replace')))
                i += 1 + b
            elif b == 128:
                ln = bs[i + 1] | bs[i + 2] << 8
                out.append(S(bytes(bs[i + 3:i + 3 + ln]).decode('utf8', 'replace')))
                i += 3 + ln
            else:
                return mk('args', mk('fmtx', tmpl, *[e.val(st, x) for x in vals.a]))
        return mk('args', cat(*out))

    @m('std::fmt::format', 'std::fmt::format::format_inner')
    def _(e, st, c):
        a = e.val(st, c.args[0])
        return a.a[0] if a.k == 'args' else mk('fmtx', a)

    @m('std::io::_print', 'std::io::_eprint')
    def _(e, st, c):
        return UNIT

    @m('std::fmt::Formatter::<\'a>::write_fmt', 'std::fmt::Formatter::<\'_>::write_fmt', 'std::fmt::Formatter::<\'a>::write_str', 'std::fmt::Formatter::<\'_>::write_str')
    def _(e, st, c):
        return e.fresh(st, 'call', c.site, c.res)

    # ---------------------------------------------------------------- strings
    @m('std::string::String::new')
    def _(e, st, c):
        return S('')

    @m('std::string::String::with_capacity')
    def _(e, st, c):
        return S('')

    def upd_str(e, st, ref, f):
        loc, path = e.deref(ref)
        e.store(st, loc, path, f(e.val(st, e.load(st, loc, path))))
        return UNIT

    @m('std::string::String::push_str', 'std::string::String::push', 'std::ops::AddAssign::add_assign')
    def _(e, st, c):
        if c.name.endswith('add_assign') and not bt(c.at[0]).startswith('std::string'):
            loc, path = e.deref(c.args[0])
            e.store(st, loc, path, e.binop(st, 'Add', e.load(st, loc, path), c.args[1]))
            return UNIT
        return upd_str(e, st, c.args[0], lambda s: cat(s, e.val(st, c.args[1])))

    @m('std::ops::Add::add')
    def _(e, st, c):
        if c.at[0].startswith('std::string'):
            return cat(e.val(st, c.args[0]), e.val(st, c.args[1]))
        return None

    @m('std::string::String::clear')
    def _(e, st, c):
        return upd_str(e, st, c.args[0], lambda s: S(''))

    @m('std::string::String::insert', 'std::string::String::insert_str')
    def _(e, st, c):
        if c.args[1].k == 'int' and c.args[1].a[0] == 0:
            return upd_str(e, st, c.args[0], lambda s: cat(e.val(st, c.args[2]), s))
        return upd_str(e, st, c.args[0], lambda s: mk('app', c.name, s, c.args[1], c.args[2]))

    @m('std::string::String::pop')
    def _(e, st, c):
        loc, path = e.deref(c.args[0])
        s = e.val(st, e.load(st, loc, path))
        e.store(st, loc, path, mk('app', 'popped', s))
        return mk('app', 'popchr', s)

    @m('std::str::<impl str>::len', 'std::string::String::len')
    def _(e, st, c):
        return e.vlen(e.val(st, c.args[0]))

    @m('std::str::<impl str>::is_empty', 'std::string::String::is_empty')
    def _(e, st, c):
        return e.binop(st, 'Eq', e.val(st, c.args[0]), S(''))

    for op in ('contains', 'starts_with', 'ends_with'):
        def f(e, st, c, op=op):
            return str_pred(e, st, op, c.args[0], c.args[1])
        M['std::str::<impl str>::' + op] = f

    @m('std::str::<impl str>::split_once', 'std::str::<impl str>::rsplit_once')
    def _(e, st, c):
        s = strval(e, st, c.args[0])
        lit, pt = pat(e, st, c.args[1])
        r = 'rsplit' in c.name
        if s.k == 'str' and lit is not None:
            if lit in s.a[0]:
                a, b = s.a[0].rsplit(lit, 1) if r else s.a[0].split(lit, 1)
                return SOME(mk('tup', S(a), S(b)))
            return NONE
        if s.k == 'cat' and lit is not None and not r:
            for i, q in enumerate(s.a):
                if q.k == 'str' and lit in q.a[0]:
                    a, b = q.a[0].split(lit, 1)
                    return SOME(mk('tup', cat(*s.a[:i], S(a)), cat(S(b), *s.a[i + 1:])))
                if q.k != 'str' and e.decide(st, str_pred(e, st, 'contains', q, pt)) is not False:
                    break
        return fork_bool(e, st, str_pred(e, st, 'contains', s, pt), lambda s2, v: SOME(mk('tup', mk('rbefore' if r else 'before', s, pt), mk('rafter' if r else 'after', s, pt))) if v else NONE)

    @m('std::str::<impl str>::strip_prefix', 'std::str::<impl str>::strip_suffix')
    def _(e, st, c):
        op = 'starts_with' if 'prefix' in c.name else 'ends_with'
        s = strval(e, st, c.args[0])
        lit, pt = pat(e, st, c.args[1])
        if s.k == 'str' and lit is not None:
            x = s.a[0]
            if op == 'starts_with':
                return SOME(S(x[len(lit):])) if x.startswith(lit) else NONE
            return SOME(S(x[:-len(lit)] if lit else x)) if x.endswith(lit) else NONE
        return fork_bool(e, st, str_pred(e, st, op, s, pt), lambda s2, v: SOME(mk('strip', op, s, pt)) if v else NONE)

    @m('std::str::<impl str>::parse')
    def _(e, st, c):
        s = strval(e, st, c.args[0])
        t = mk('app', 'parse:' + (c.targs[0] if c.targs else ''), s)
        return t

    @m('std::str::<impl str>::split', 'std::str::<impl str>::split_whitespace', 'std::str::<impl str>::lines', 'std::str::<impl str>::splitn', 'std::str::<impl str>::rsplit', 'std::str::<impl str>::split_terminator',
       'std::str::<impl str>::split_ascii_whitespace', 'std::str::<impl str>::split_inclusive', 'std::str::<impl str>::bytes')
    def _(e, st, c):
        s = strval(e, st, c.args[0])
        n = c.name.rsplit('::', 1)[1]
        seps = [e.val(st, a) for a in c.args[1:]]
        if n == 'split' and s.k == 'str' and seps[0].k in ('str', 'char'):
            sep = pat(e, st, seps[0])[0]
            return mk('iter', mk('vec', *[S(x) for x in s.a[0].split(sep)]), 'v', I(0))
        return mk('iter', mk('pieces', n, s, *seps), 'v', I(0))

    @m('std::str::<impl str>::chars')
    def _(e, st, c):
        s = strval(e, st, c.args[0])
        if s.k == 'str' and len(s.a[0]) < 40:
            return mk('iter', mk('vec', *[mk('char', ord(x)) for x in s.a[0]]), 'v', I(0))
        return mk('iter', mk('chars', s), 'v', I(0))

    @m('std::str::<impl str>::char_indices')
    def _(e, st, c):
        s = strval(e, st, c.args[0])
        return mk('iter', mk('charidx', s), 'v', I(0))

    @m("std::str::Chars::<'a>::as_str")
    def _(e, st, c):
        return mk('app', 'rest', e.load1(st, c.args[0]))

    @m('std::ffi::CString::new')
    def _(e, st, c):
        # words with a NUL byte cannot be typed; excluded by assumption
        return OK(e.val(st, c.args[0]))

    @m('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
    def idx(e, st, c):
        t0 = bt(c.at[0])
        loc, path = e.deref(c.args[0])
        base = e.val(st, c.args[0])
        i = c.args[1]
        if t0.startswith(('std::collections::HashMap', 'std::collections::BTreeMap')):
            return mk('mval', base, e.val(st, i))
        if c.at[1] == 'usize':
            i = e.res(st, i)
            ok = e.boolean(st, 'lt', i, e.vlen(base))
            out = []
            for s, v in e.branch(st, ok):
                if v:
                    out.append((s, e.ref(loc, path + (('ix', i),))))
                elif e.on_panic:
                    e.on_panic(e, s, c.fid, 'bounds', c.span, c)
            return out
        # range
        r = e.val(st, i)
        if e.on_panic and r.k == 'adt' and not r.a[0].endswith('RangeFull'):
            e.on_panic(e, st.fork(), c.fid, 'slice', c.span)
        if r.k == 'adt' and base.k == 'vec' and r.a[0].endswith('RangeFrom') and r.a[2].k == 'int':
            return mk('vec', *base.a[r.a[2].a[0]:])
        return mk('app', 'slice', base, r)

    @m('std::str::<impl str>::get')
    def _(e, st, c):
        return mk('app', 'strget', e.val(st, c.args[0]), e.val(st, c.args[1]))

    # ---------------------------------------------------------------- vectors
    @m('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::vec::Vec::<T, A>::new_in')
    def _(e, st, c):
        return mk('vec')

    @m('std::vec::from_elem')
    def _(e, st, c):
        if c.args[1].k == 'int' and c.args[1].a[0] <= 64:
            return mk('vec', *([c.args[0]] * c.args[1].a[0]))
        return mk('repeat', c.args[0], c.args[1])

    @m('std::vec::Vec::<T, A>::push')
    def _(e, st, c):
        loc, path = e.deref(c.args[0])
        v = e.load(st, loc, path)
        x = c.args[1]
        e.store(st, loc, path, mk('vec', *(v.a + (x,))) if v.k == 'vec' and len(v.a) < 8 else mk('push', v, x))
        return UNIT

    def vecof(e, st, r):
        return e.val(st, r)

    @m('std::vec::Vec::<T, A>::len', 'std::slice::<impl [T]>::len', 'std::collections::VecDeque::<T, A>::len')
    def _(e, st, c):
        return e.vlen(vecof(e, st, c.args[0]))

    @m('std::vec::Vec::<T, A>::is_empty', 'std::slice::<impl [T]>::is_empty')
    def _(e, st, c):
        return e.boolean(st, 'eq', e.vlen(vecof(e, st, c.args[0])), I(0))

    @m('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
    def _(e, st, c):
        loc, path = e.deref(c.args[0])
        v = e.val(st, e.load(st, loc, path))
        i = e.res(st, c.args[1])
        out = []
        for s, ok in e.branch(st, e.boolean(st, 'lt', i, e.vlen(v))):
            if not ok:
                if e.on_panic:
                    e.on_panic(e, s, c.fid, 'bounds', c.span, c)
                continue
            x = e.index(s, v, i)
            if v.k == 'vec' and i.k == 'int':
                nv = mk('vec', *(v.a[:i.a[0]] + v.a[i.a[0] + 1:]))
            else:
                nv = mk('rm', v, i)
            e.store(s, loc, path, nv)
            out.append((s, x))
        return out

    @m('std::vec::Vec::<T, A>::pop')
    def _(e, st, c):
        loc, path = e.deref(c.args[0])
        v = e.val(st, e.load(st, loc, path))
        out = []
        for s, empty in e.branch(st, e.boolean(st, 'eq', e.vlen(v), I(0))):
            if empty:
                out.append((s, NONE))
                continue
            if v.k == 'vec':
                x, nv = v.a[-1], mk('vec', *v.a[:-1])
            elif v.k == 'push':
                x, nv = v.a[1], v.a[0]
            else:
                last = e.add(e.vlen(v), -1)
                x, nv = e.index(s, v, last), mk('rm', v, last)
            e.store(s, loc, path, nv)
            out.append((s, SOME(x)))
        return out

    @m('std::vec::Vec::<T, A>::insert')
    def _(e, st, c):
        loc, path = e.deref(c.args[0])
        v = e.val(st, e.load(st, loc, path))
        i = e.res(st, c.args[1])
        if v.k == 'vec' and i.k == 'int' and i.a[0] <= len(v.a):
            e.store(st, loc, path, mk('vec', *(v.a[:i.a[0]] + (c.args[2],) + v.a[i.a[0]:])))
            return UNIT
        if i.k == 'int' and i.a[0] == 0:
            e.store(st, loc, path, mk('append', mk('vec', c.args[2]), v))
            return UNIT
        e.store(st, loc, path, mk('app', 'vinsert', v, i, c.args[2]))
        return UNIT

    @m('std::vec::Vec::<T, A>::append', 'std::iter::Extend::extend', 'std::vec::Vec::<T, A>::extend_from_slice')
    def _(e, st, c):
        loc, path = e.deref(c.args[0])
        v = e.val(st, e.load(st, loc, path))
        src = c.args[1]
        o = e.val(st, src)
        if c.name.endswith('::append'):
            l2, p2 = e.deref(src)
            e.store(st, l2, p2, mk('vec'))
        if o.k in ITERK:
            out = []
            for s, col in collect(e, st, c, o):
                e.store(s, loc, path, vappend(e, s, e.val(s, e.load(s, loc, path)), col))
                out.append((s, UNIT))
            return out
        if bt(c.at[0]).startswith('std::string'):
            e.store(st, loc, path, cat(v, mk('app', 'concat', o)))
            return UNIT
        e.store(st, loc, path, vappend(e, st, v, o))
        return UNIT

    def vappend(e, st, v, o):
        if v.k == 'vec' and not v.a:
            return o
        if o.k == 'vec' and not o.a:
            return v
        if v.k == 'vec' and o.k == 'vec':
            return mk('vec', *(v.a + o.a))
        if o.k == 'vec':
            for x in o.a:
                v = mk('push', v, x)
            return v
        return mk('append', v, o)

    @m('std::vec::Vec::<T, A>::clear', 'std::collections::HashMap::<K, V, S, A>::clear', 'std::vec::Vec::<T, A>::truncate', 'std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit',
       'std::collections::HashMap::<K, V, S, A>::reserve', 'std::collections::BTreeMap::<K, V, A>::clear')
    def _(e, st, c):
        n = c.name.rsplit('::', 1)[1]
        if n in ('reserve', 'shrink_to_fit'):
            return UNIT
        loc, path = e.deref(c.args[0])
        if n == 'clear':
            e.store(st, loc, path, mk('vec') if 'Vec' in c.name else mk('emptymap'))
        else:
            v = e.val(st, e.load(st, loc, path))
            k = e.res(st, c.args[1])
            if v.k == 'vec' and k.k == 'int':
                e.store(st, loc, path, mk('vec', *v.a[:k.a[0]]))
            else:
                e.store(st, loc, path, mk('app', 'trunc', v, k))
        return UNIT

    @m('std::vec::Vec::<T, A>::splice')
    def _(e, st, c):
        loc, path = e.deref(c.args[0])
        v = e.val(st, e.load(st, loc, path))
        r = e.val(st, c.args[1])
        o = e.val(st, c.args[2])
        xs = [e.res(st, e.val(st, x)) for x in r.a[1:] if isinstance(x, T)] if r.k == 'adt' else []
        if xs and all(x.k == 'int' and x.a[0] == 0 for x in xs) and r.a[0].endswith(('::Range', '::RangeTo')):
            out = []
            for s, col in (collect(e, st, c, o) if o.k in ITERK else [(st, o)]):
                e.store(s, loc, path, vappend(e, s, col, e.val(s, e.load(s, loc, path))))
                out.append((s, mk('iter', mk('vec'), 'v', I(0))))
            return out
        e.store(st, loc, path, mk('app', 'spliced', v, r, o))
        return mk('iter', mk('app', 'splicedpart', v, r), 'v', I(0))

    @m('std::vec::Vec::<T, A>::drain')
    def _(e, st, c):
        loc, path = e.deref(c.args[0])
        v = e.val(st, e.load(st, loc, path))
        r = e.val(st, c.args[1])
        if r.k == 'adt' and r.a[0].endswith('RangeFull'):
            e.store(st, loc, path, mk('vec'))
            return mk('iter', v, 'v', I(0))
        if v.k == 'vec' and r.k == 'adt':
            n = r.a[0].rsplit('::', 1)[-1]
            xs = [e.res(st, e.val(st, x)) for x in r.a[1:] if isinstance(x, T)]
            ns = [x.a[0] if x.k == 'int' else None for x in xs]
            b = {'Range': lambda: (ns[0], ns[1]), 'RangeInclusive': lambda: (ns[0], None if ns[1] is None else ns[1] + 1),
                 'RangeTo': lambda: (0, ns[0]), 'RangeToInclusive': lambda: (0, None if ns[0] is None else ns[0] + 1),
                 'RangeFrom': lambda: (ns[0], len(v.a))}.get(n, lambda: (None, None))()
            if None not in b and 0 <= b[0] <= b[1] <= len(v.a):
                e.store(st, loc, path, mk('vec', *(v.a[:b[0]] + v.a[b[1]:])))
                return mk('iter', mk('vec', *v.a[b[0]:b[1]]), 'v', I(0))
        e.store(st, loc, path, mk('app', 'drained', v, r))
        return mk('iter', mk('app', 'drainedpart', v, r), 'v', I(0))

    @m('std::vec::Vec::<T, A>::retain')
    def _(e, st, c):
        loc, path = e.deref(c.args[0])
        v = e.val(st, e.load(st, loc, path))
        e.store(st, loc, path, mk('app', 'retain', v, c.args[1]))
        return UNIT

    @m('std::slice::<impl [T]>::first', 'std::slice::<impl [T]>::last', 'std::slice::<impl [T]>::first_mut', 'std::slice::<impl [T]>::last_mut')
    def _(e, st, c):
        loc, path = e.deref(c.args[0])
        v = vecof(e, st, c.args[0])
        while e.load(st, loc, path).k == 'ref':
            r = e.load(st, loc, path)
            loc, path = r.a
        ln = e.vlen(v)
        out = []
        for s, empty in e.branch(st, e.boolean(st, 'eq', ln, I(0))):
            i = I(0) if '::first' in c.name else e.add(ln, -1)
            out.append((s, NONE if empty else SOME(e.ref(loc, path + (('ix', i),)))))
        return out

    @m('std::slice::<impl [T]>::get', 'std::slice::<impl [T]>::get_mut')
    def _(e, st, c):
        v = vecof(e, st, c.args[0])
        loc, path = e.deref(c.args[0])
        i = e.res(st, c.args[1])
        if i.k == 'adt':
            return mk('app', 'getrange', v, i)
        return [(s, SOME(e.ref(loc, path + (('ix', i),))) if ok else NONE) for s, ok in e.branch(st, e.boolean(st, 'lt', i, e.vlen(v)))]

    @m('std::slice::<impl [T]>::contains')
    def _(e, st, c):
        return mk('pred', 'vcontains', vecof(e, st, c.args[0]), e.val(st, c.args[1]))

    @m('std::slice::<impl [T]>::join', 'std::slice::<impl [T]>::concat')
    def _(e, st, c):
        v = vecof(e, st, c.args[0])
        if v.k == 'app' and v.a[0] == 'slice' and v.a[1].k == 'vec' and v.a[2].k == 'adt' and v.a[2].a[0].endswith('RangeFrom') and v.a[2].a[-1].k == 'int':
            v = mk('vec', *v.a[1].a[v.a[2].a[-1].a[0]:])
        sep = e.val(st, c.args[1]) if len(c.args) > 1 else S('')
        if v.k == 'vec':
            ps = []
            for i, x in enumerate(v.a):
                if i:
                    ps.append(sep)
                ps.append(e.val(st, x))
            return cat(*ps)
        return mk('app', 'join', v, sep)

    @m('std::slice::<impl [T]>::sort_by', 'std::slice::<impl [T]>::sort', 'std::slice::<impl [T]>::reverse', 'std::vec::Vec::<T, A>::dedup', 'std::slice::<impl [T]>::sort_unstable', 'std::slice::<impl [T]>::sort_by_key', 'std::slice::<impl [T]>::swap')
    def _(e, st, c):
        loc, path = e.deref(c.args[0])
        v = e.val(st, e.load(st, loc, path))
        e.store(st, loc, path, mk('app', c.name.rsplit('::', 1)[1], v))
        return UNIT

    @m('std::boxed::box_assume_init_into_vec_unsafe', 'std::slice::into_vec', 'std::boxed::Box::<std::mem::MaybeUninit<T>>::assume_init')
    def _(e, st, c):
        v = e.val(st, c.args[0])
        if v.k == 'upd' and v.a[1]:
            # vec![] writes the array through the box
            v = v.a[1][0][1]
        n = 0
        while v.k in ('upd', 'adt') and n < 6:
            if v.k == 'upd':
                v = v.a[1][0][1]
            elif len(v.a) == 3:
                v = v.a[2]
            else:
                break
            n += 1
        return v

    @m('std::boxed::Box::<T>::new_uninit')
    def _(e, st, c):
        return e.alloc(st, c.site, mk('uninitbox'))

    # ---------------------------------------------------------------- maps
    def mget(e, st, mp, key):
        """[(st, value term or None)]"""
        if mp.k == 'ins':
            m0, k0, v0 = mp.a
            out = []
            for s, same in e.branch(st, eqkey(e, st, key, k0)):
                if same:
                    out.append((s, v0))
                else:
                    out += mget(e, s, m0, key)
            return out
        if mp.k == 'mrem':
            out = []
            for s, same in e.branch(st, eqkey(e, st, key, mp.a[1])):
                out += [(s, None)] if same else mget(e, s, mp.a[0], key)
            return out
        if mp.k == 'emptymap':
            return [(st, None)]
        return [(s, mk('mval', mp, key) if v else None) for s, v in e.branch(st, mk('pred', 'mhas', mp, key))]
    e.mget = lambda st, mp, key: mget(e, st, mp, key)

    MAPS = ('std::collections::HashMap::<K, V, S, A>::', 'std::collections::BTreeMap::<K, V, A>::', 'std::collections::HashMap::<K, V, S>::', 'std::collections::HashSet::<T, S, A>::', 'std::collections::HashSet::<T, S>::', 'std::collections::BTreeSet::<T, A>::')

    for p in MAPS:
        def get(e, st, c):
            mp = e.val(st, c.args[0])
            key = e.val(st, c.args[1])
            return [(s, NONE if v is None else SOME(e.ref(('K', v)) if not opaque(v) and v.k != 'ref' else (e.ref(('K', v)) if v.k == 'ref' else v))) for s, v in mget(e, st, mp, key)]
        M[p + 'get'] = get
        M[p + 'get_mut'] = get

        def has(e, st, c):
            return [(s, B(v is not None)) for s, v in mget(e, st, e.val(st, c.args[0]), e.val(st, c.args[1]))]
        M[p + 'contains_key'] = has
        M[p + 'contains'] = has

        def ins(e, st, c):
            loc, path = e.deref(c.args[0])
            mp = e.load(st, loc, path)
            e.store(st, loc, path, mk('ins', mp, e.val(st, c.args[1]), c.args[2] if len(c.args) > 2 else UNIT))
            return mk('pred', 'newkey', mp, e.val(st, c.args[1])) if len(c.args) == 2 else e.fresh(st, 'call', c.site, c.res)
        M[p + 'insert'] = ins

        def rem(e, st, c):
            loc, path = e.deref(c.args[0])
            mp = e.load(st, loc, path)
            key = e.val(st, c.args[1])
            out = []
            ks = knownkeys(mp) if constant(key) else None
            new = mk('mrem', mp, key)
            if ks is not None:
                new = mk('emptymap')
                for k, v in ks:
                    if k is not key:
                        new = mk('ins', new, k, v)
            for s, v in mget(e, st, mp, key):
                e.store(s, loc, path, new)
                out.append((s, (NONE if v is None else SOME(v)) if 'Set' not in c.name else B(v is not None)))
            return out
        M[p + 'remove'] = rem

        def keep(e, st, c):
            loc, path = e.deref(c.args[0])
            mp = e.val(st, c.args[0])
            ks = [] if mp.k == 'emptymap' else knownkeys(mp)
            if ks is None or len(ks) > 12:
                e.store(st, loc, path, mk('app', 'retain', mp, c.args[1]))
                return UNIT
            acc = [(st, mk('emptymap'))]
            for k, v in ks:
                nx = []
                for s, m0 in acc:
                    vl = e.alloc(s, c.site, v)
                    for s2, r in e.apply(s, c, c.args[1], [k] if 'Set' in c.name else [k, vl]):
                        for s3, b in e.branch(s2, r):
                            nx.append((s3, mk('ins', m0, k, e.load1(s3, vl)) if b else m0))
                acc = nx
            for s, m0 in acc:
                e.store(s, loc, path, m0)
            return [(s, UNIT) for s, _ in acc]
        M[p + 'retain'] = keep

        def entry(e, st, c):
            return mk('app', 'entry', c.args[0], e.val(st, c.args[1]))
        M[p + 'entry'] = entry

        def it(e, st, c):
            loc, path = e.deref(c.args[0])
            n = c.name.rsplit('::', 1)[1]
            mp = e.val(st, c.args[0])
            ks = [] if mp.k == 'emptymap' else knownkeys(mp)
            if ks is not None and n in ('iter_mut', 'values_mut'):
                # entries that are pointers to what may change can be listed like unchanging ones
                if all(v.k == 'ref' or opaque(v) for _, v in ks) and '::rc::Rc<' in c.at[0]:
                    n = {'iter_mut': 'iter', 'values_mut': 'values'}[n]
            if ks is not None and n in ('iter', 'keys', 'values', 'into_keys', 'into_values'):
                return mk('iter', mk('vec', *[{'keys': k, 'into_keys': k, 'values': v, 'into_values': v}.get(n, k if 'Set' in c.name else mk('tup', k, v)) for k, v in ks]), 'v', I(0))
            if n == 'drain':
                e.store(st, loc, path, mk('emptymap'))
            kind = {'keys': 'mk', 'values': 'mv', 'values_mut': 'mv', 'into_keys': 'mk', 'into_values': 'mv'}.get(n, 'mk' if 'Set' in c.name else 'me')
            return mk('iter', mk('entries', mp), kind, I(0))
        for n in ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'drain', 'into_keys', 'into_values'):
            M[p + n] = it

        def size(mp):
            ks = [] if mp.k == 'emptymap' else knownkeys(mp)
            return mk('nlen', mp) if ks is None else I(len(ks))

        def ln(e, st, c):
            return size(e.val(st, c.args[0]))
        M[p + 'len'] = ln

        def emp(e, st, c):
            return e.boolean(st, 'eq', size(e.val(st, c.args[0])), I(0))
        M[p + 'is_empty'] = emp

        def lastkv(e, st, c):
            mp = e.val(st, c.args[0])
            ks = [] if mp.k == 'emptymap' else knownkeys(mp)
            if ks is not None:
                return SOME(mk('tup', *ks[-1 if 'last' in c.name else 0])) if ks else NONE
            if 'first' in c.name:
                return None
            return [(s, NONE if v else SOME(mk('tup', mk('lastkey', mp), mk('lastval', mp)))) for s, v in e.branch(st, e.boolean(st, 'eq', mk('nlen', mp), I(0)))]
        M[p + 'last_key_value'] = lastkv
        M[p + 'first_key_value'] = lastkv

    def or_insert(e, st, c):
        if c.args[0].k != 'app' or c.args[0].a[0] != 'entry':
            return None
        loc, path = e.deref(c.args[0].a[1])
        mp = e.val(st, c.args[0].a[1])
        key = c.args[0].a[2]
        out = []
        for s, v in mget(e, st, mp, key):
            if v is not None:
                out.append((s, e.ref(('K', v))))
                continue
            for s2, x in e.apply(s, c, c.args[1], []) if c.name.endswith('_with') else [(s, c.args[1])]:
                e.store(s2, loc, path, mk('ins', mp, key, x))
                out.append((s2, e.ref(('K', x))))
        return out
    for n in ('hash_map::Entry::<\'a, K, V>', 'btree_map::Entry::<\'a, K, V, A>', 'hash_map::Entry::<\'a, K, V, A>', 'btree_map::Entry::<\'a, K, V>'):
        M['std::collections::%s::or_insert' % n] = or_insert
        M['std::collections::%s::or_insert_with' % n] = or_insert

    for n in ('std::collections::HashMap::<K, V>::new', 'std::collections::BTreeMap::<K, V>::new', 'std::collections::HashSet::<T>::new', 'std::collections::BTreeSet::<T>::new'):
        M[n] = lambda e, st, c: mk('emptymap')

    # ---------------------------------------------------------------- iterators
    @m('std::slice::<impl [T]>::iter', 'std::slice::<impl [T]>::iter_mut')
    def _(e, st, c):
        return mkiter(e, st, c.args[0])

    def mkiter(e, st, r):
        """iterator over references to the elements of what r points to"""
        n = 0
        while n < 8:
            loc, path = e.deref(r)
            v = e.load(st, loc, path)
            if v.k == 'ref':
                r = v
                n += 1
                continue
            break
        if loc[0] == 'H' or loc[0] == 'K':
            w = e.val(st, r)
            if loc[0] == 'K' or not path:
                return mk('iter', e.ref(loc, path) if loc[0] != 'K' else w, 'r', I(0))
        return mk('iter', e.ref(loc, path), 'r', I(0))

    @m('std::iter::IntoIterator::into_iter')
    def _(e, st, c):
        a = c.args[0]
        t = c.at[0]
        if a.k in ITERK or (a.k == 'adt' and 'Range' in a.a[0]):
            return a
        b = bt(t)
        if b.startswith(('std::collections::HashMap', 'std::collections::BTreeMap')):
            mp = e.val(st, a)
            ks = [] if mp.k == 'emptymap' else knownkeys(mp)
            if ks is not None and t.startswith('&mut') and not ('::rc::Rc<' in t and all(v.k == 'ref' or opaque(v) for _, v in ks)):
                ks = None
            if ks is not None:
                return mk('iter', mk('vec', *[mk('tup', k, v) for k, v in ks]), 'v', I(0))
            return mk('iter', mk('entries', e.val(st, a)), 'me', I(0))
        if b.startswith(('std::collections::HashSet', 'std::collections::BTreeSet')):
            return mk('iter', mk('entries', e.val(st, a)), 'mk', I(0))
        if b.startswith(OPT):
            return mk('once', a)
        if b.startswith(('std::vec::Vec', '[')):
            if t.startswith('&'):
                return mkiter(e, st, a)
            return mk('iter', e.val(st, a), 'v', I(0))
        if b.startswith('std::fs::ReadDir') or 'std::env::' in b:
            return mk('iter', e.val(st, a), 'v', I(0))
        return a

    @m('std::env::vars_os', 'std::env::vars', 'std::env::args', 'std::io::BufRead::lines')
    def _(e, st, c):
        return mk('iter', e.fresh(st, 'call', c.site, c.res), 'v', I(0))

    for n, k in (('enumerate', 'enum'), ('rev', 'rev'), ('cloned', 'cloned'), ('copied', 'cloned'), ('peekable', 'peek'), ('by_ref', None), ('fuse', None), ('into_iter', None)):
        def f(e, st, c, k=k):
            a = c.args[0]
            if k is None:
                return a
            if a.k == 'adt' and 'Range' in a.a[0]:
                pass
            if k == 'cloned' and RCITEM.search(c.at[0]):
                return mk(k, a, 'rc')
            return mk(k, a, I(0)) if k == 'enum' else mk(k, a)
        M['std::iter::Iterator::' + n] = f
    for n, k in (('map', 'map'), ('filter', 'filter'), ('skip', 'skip'), ('take', 'take'), ('zip', 'zip'), ('chain', 'chain'), ('filter_map', 'fmap'), ('take_while', 'tw'), ('map_while', 'mw'), ('inspect', 'map')):
        def f(e, st, c, k=k):
            b = c.args[1]
            if k in ('zip', 'chain') and b.k not in ITERK:
                b = mkiter(e, st, b) if c.at[1].startswith('&') else mk('iter', e.val(st, b), 'v', I(0))
            return mk(k, c.args[0], b)
        M['std::iter::Iterator::' + n] = f

    def srclen(e, st, src):
        v = e.val(st, src)
        return e.vlen(v)

    def nxt(e, st, it, c):
        """[(st, new iterator, option value)]"""
        k = it.k
        if k == 'iter':
            src, mode, pos = it.a
            if src.k == 'rest':
                # an iterator that was advanced from the back
                pass
            v = e.val(st, src) if src.k in ('ref',) or (opaque(src) and mode == 'r') else src
            ln = itlen(e, st, v)
            out = []
            for s, more in e.branch(st, e.boolean(st, 'lt', pos, ln)):
                if not more:
                    out.append((s, it, NONE))
                    continue
                if mode == 'r':
                    loc, path = e.deref(src)
                    x = e.ref(loc, path + (('ix', e.res(s, pos)),)) if src.k == 'ref' or opaque(src) else e.index(s, v, pos)
                elif mode == 'v':
                    x = e.index(s, v, pos) if v.k in ('vec', 'push', 'upd') else elem(e, s, v, pos)
                elif mode == 'mk':
                    x = mk('ek', v.a[0] if v.k == 'entries' else v, pos)
                elif mode == 'mv':
                    x = mk('ev', v.a[0] if v.k == 'entries' else v, pos)
                else:
                    x = mk('tup', mk('ek', v.a[0], pos), mk('ev', v.a[0], pos))
                out.append((s, mk('iter', src, mode, e.add(pos, 1)), SOME(x)))
            return out
        if k == 'enum':
            return [(s, mk('enum', i2, e.add(it.a[1], 1) if o is not NONE else it.a[1]), o if o is NONE else SOME(mk('tup', it.a[1], o.a[2]))) for s, i2, o in nxt(e, st, it.a[0], c)]
        if k == 'rev':
            return [(s, mk('rev', i2), o) for s, i2, o in nback(e, st, it.a[0], c)]
        if k == 'cloned':
            return [(s, mk('cloned', i2, *it.a[1:]), o if o is NONE else SOME((shared if it.a[1:] else plain)(e, s, o.a[2]))) for s, i2, o in nxt(e, st, it.a[0], c)]
        if k == 'peek':
            return [(s, mk('peek', i2), o) for s, i2, o in nxt(e, st, it.a[0], c)]
        if k == 'once':
            o = it.a[0]
            return [(s, mk('once', NONE), NONE if n == 'None' else SOME(e.proj(s, o, ('Some', 0)))) for s, n in e.split_variants(st, o, OPT, ['None', 'Some'])]
        if k == 'map':
            out = []
            for s, i2, o in nxt(e, st, it.a[0], c):
                if o is NONE:
                    out.append((s, mk('map', i2, it.a[1]), NONE))
                else:
                    for s2, r in e.apply(s, c, it.a[1], [o.a[2]]):
                        out.append((s2, mk('map', i2, it.a[1]), SOME(r)))
            return out
        if k in ('filter', 'fmap'):
            # one element either passes or is skipped; a skipped element continues with the next
            out = []
            todo = [(st, it.a[0], 0)]
            while todo:
                s, i1, n = todo.pop()
                for s2, i2, o in nxt(e, s, i1, c):
                    if o is NONE:
                        out.append((s2, mk(k, i2, it.a[1]), NONE))
                        continue
                    x = o.a[2]
                    if k == 'filter':
                        loc = ('A', (c.fid, c.site[1], 'flt'), 0)
                        e.set_root(s2, loc, x)
                        for s3, b in e.apply(s2, c, it.a[1], [e.ref(loc)]):
                            for s4, ok in e.branch(s3, b):
                                if ok:
                                    out.append((s4, mk(k, i2, it.a[1]), SOME(x)))
                                elif n < 1:
                                    todo.append((s4, i2, n + 1))
                                else:
                                    # skip over any number of elements
                                    i3 = havoc_iter(e, s4, i2, c)
                                    out.append((s4, mk(k, i3, it.a[1]), NONE))
                                    s5 = s4.fork()
                                    for s6, i4, o2 in nxt(e, s5, i3, c):
                                        if o2 is not NONE:
                                            out.append((s6, mk(k, i4, it.a[1]), o2))
                    else:
                        for s3, r in e.apply(s2, c, it.a[1], [x]):
                            for s4, vn in e.split_variants(s3, r, OPT, ['None', 'Some']):
                                if vn == 'Some':
                                    out.append((s4, mk(k, i2, it.a[1]), SOME(e.proj(s4, r, ('Some', 0)))))
                                elif n < 2:
                                    todo.append((s4, i2, n + 1))
                                else:
                                    i3 = havoc_iter(e, s4, i2, c)
                                    out.append((s4, mk(k, i3, it.a[1]), NONE))
            return out
        if k == 'skip':
            n = e.res(st, it.a[1])
            inner = it.a[0]
            if n.k == 'int' and n.a[0] <= 8:
                if inner.k == 'iter':
                    return nxt(e, st, mk('iter', inner.a[0], inner.a[1], e.add(inner.a[2], n.a[0])), c)
                states = [(st, inner)]
                for _ in range(n.a[0]):
                    states = [(s2, i2) for (s, i) in states for s2, i2, o in nxt(e, s, i, c)]
                return [x for (s, i) in states for x in nxt(e, s, i, c)]
            return nxt(e, st, havoc_iter(e, st, inner, c), c)
        if k == 'take':
            n = e.res(st, it.a[1])
            out = []
            for s, zero in e.branch(st, e.boolean(st, 'eq', n, I(0))):
                if zero:
                    out.append((s, it, NONE))
                else:
                    out += [(s2, mk('take', i2, e.add(n, -1)), o) for s2, i2, o in nxt(e, s, it.a[0], c)]
            return out
        if k == 'zip':
            out = []
            for s, i2, o in nxt(e, st, it.a[0], c):
                if o is NONE:
                    out.append((s, mk('zip', i2, it.a[1]), NONE))
                    continue
                for s2, j2, p in nxt(e, s, it.a[1], c):
                    out.append((s2, mk('zip', i2, j2), NONE if p is NONE else SOME(mk('tup', o.a[2], p.a[2]))))
            return out
        if k == 'chain':
            out = []
            for s, i2, o in nxt(e, st, it.a[0], c):
                if o is not NONE:
                    out.append((s, mk('chain', i2, it.a[1]), o))
                else:
                    out += [(s2, mk('chain', i2, j2), p) for s2, j2, p in nxt(e, s, it.a[1], c)]
            return out
        if k in ('tw', 'mw'):
            out = []
            for s, i2, o in nxt(e, st, it.a[0], c):
                if o is NONE:
                    out.append((s, mk(k, i2, it.a[1]), NONE))
                    continue
                if k == 'mw':
                    for s2, r in e.apply(s, c, it.a[1], [o.a[2]]):
                        for s3, vn in e.split_variants(s2, r, OPT, ['None', 'Some']):
                            out.append((s3, mk(k, i2, it.a[1]), NONE if vn == 'None' else SOME(e.proj(s3, r, ('Some', 0)))))
                    continue
                loc = ('A', (c.fid, c.site[1], 'tw'), 0)
                e.set_root(s, loc, o.a[2])
                for s2, b in e.apply(s, c, it.a[1], [e.ref(loc)]):
                    for s3, ok in e.branch(s2, b):
                        out.append((s3, mk(k, i2, it.a[1]), o if ok else NONE))
            return out
        if k == 'adt' and 'Range' in it.a[0]:
            lo, hi = e.res(st, it.a[2]), e.res(st, it.a[3]) if len(it.a) > 3 else None
            if hi is None:
                return [(st, mk('adt', it.a[0], it.a[1], e.add(lo, 1)), SOME(lo))]
            incl = 'Inclusive' in it.a[0]
            b = e.neg(e.boolean(st, 'lt', hi, lo)) if incl else e.boolean(st, 'lt', lo, hi)
            return [(s, mk('adt', it.a[0], it.a[1], e.add(lo, 1), *it.a[3:]) if v else it, SOME(lo) if v else NONE) for s, v in e.branch(st, b)]
        # an iterator nothing is known about
        site = (c.fid, c.site[1], 'it')
        t = e.fresh(st, 'call', site, 'next')
        s2 = st.fork()
        e.assume_variant(st, t, 'Some', OPT, True)
        e.assume_variant(s2, t, 'None', OPT, True)
        return [(st, it, SOME(mk('f', t, 'Some', 0))), (s2, it, NONE)]
    e.nxt = lambda st, it, c: nxt(e, st, it, c)

    def itlen(e, st, v):
        if v.k == 'pieces' and v.a[0] in ('split', 'splitn', 'rsplit'):
            # at least one piece
            t = mk('len', v)
            e.zadd(st, None, t, -1)
            return t
        return e.vlen(v)

    def elem(e, st, v, pos):
        if v.k == 'pieces':
            if pos.k == 'int' and pos.a[0] == 0 and v.a[0] == 'split' and v.a[2].k in ('str', 'char'):
                sep = S(chr(v.a[2].a[0])) if v.a[2].k == 'char' else v.a[2]
                s = v.a[1]
                if s.k == 'cat' and s.a[0].k == 'str' and sep.a[0] in s.a[0].a[0]:
                    return S(s.a[0].a[0].split(sep.a[0], 1)[0])
                return mk('before', s, sep)
            if v.a[0] == 'splitn' and pos.k == 'int' and len(v.a) > 3 and v.a[2].k == 'int' and v.a[2].a[0] == 2 and v.a[3].k in ('str', 'char'):
                return mk('before' if pos.a[0] == 0 else 'after', v.a[1], S(chr(v.a[3].a[0])) if v.a[3].k == 'char' else v.a[3])
            return mk('piece', v, pos)
        if v.k == 'chars':
            return mk('chr', v.a[0], pos)
        if v.k == 'charidx':
            return mk('tup', mk('u', mk('cidx', v.a[0], pos)), mk('chr', v.a[0], pos))
        return mk('ix', v, pos)

    def havoc_iter(e, st, it, c):
        """the iterator after any number of steps"""
        if it.k == 'iter':
            site = (c.fid, c.site[1], 'hvi')
            p = e.fresh(st, 'call', site, 'pos')
            p = mk('u', p)
            a, n = e.lin(it.a[2])
            e.zadd(st, a, p, -n)
            return mk('iter', it.a[0], it.a[1], p)
        if it.k in ITERK:
            return mk(it.k, *[havoc_iter(e, st, x, c) if isinstance(x, T) and x.k in ITERK else x for x in it.a])
        return it

    def nback(e, st, it, c):
        if it.k == 'iter' and it.a[0].k == 'vec':
            src, mode, pos = it.a
            if pos.k == 'int':
                if pos.a[0] >= len(src.a):
                    return [(st, it, NONE)]
                return [(st, mk('iter', mk('vec', *src.a[:-1]), mode, pos), SOME(src.a[-1]))]
        if it.k == 'iter':
            # walk from the end: positions are counted from the back
            src, mode, pos = it.a
            v = e.val(st, src) if src.k == 'ref' or (opaque(src) and mode == 'r') else src
            ln = itlen(e, st, v)
            out = []
            for s, more in e.branch(st, e.boolean(st, 'lt', pos, ln)):
                if not more:
                    out.append((s, it, NONE))
                    continue
                # index len-1-pos
                bpos = e.add(ln, -1 - pos.a[0]) if pos.k == 'int' else mk('u', mk('back', ln, pos))
                if mode == 'r':
                    loc, path = e.deref(src)
                    x = e.ref(loc, path + (('ix', bpos),)) if src.k == 'ref' or opaque(src) else e.index(s, v, bpos)
                elif mode == 'v':
                    x = e.index(s, v, bpos) if v.k in ('vec', 'push', 'upd') else mk('ix', v, bpos) if v.k not in ('chars', 'pieces') else mk('chr' if v.k == 'chars' else 'piece', v.a[0] if v.k == 'chars' else v, bpos)
                elif mode == 'mk':
                    x = mk('ek', v.a[0], bpos)
                else:
                    x = mk('tup', mk('ek', v.a[0], bpos), mk('ev', v.a[0], bpos))
                out.append((s, mk('iter', src, mode, e.add(pos, 1)), SOME(x)))
            return out
        if it.k == 'enum':
            return [(s, mk('enum', i2, it.a[1]), o if o is NONE else SOME(mk('tup', mk('u', mk('bidx', o.a[2])), o.a[2]))) for s, i2, o in nback(e, st, it.a[0], c)]
        if it.k == 'rev':
            return [(s, mk('rev', i2), o) for s, i2, o in nxt(e, st, it.a[0], c)]
        if it.k == 'map':
            return [(s2, mk('map', i2, it.a[1]), NONE if o is NONE else SOME(r)) for s, i2, o in nback(e, st, it.a[0], c) for s2, r in ([(s, UNIT)] if o is NONE else e.apply(s, c, it.a[1], [o.a[2]]))]
        if it.k == 'cloned':
            return [(s, mk('cloned', i2, *it.a[1:]), o if o is NONE else SOME((shared if it.a[1:] else plain)(e, s, o.a[2]))) for s, i2, o in nback(e, st, it.a[0], c)]
        if it.k == 'adt' and 'Range' in it.a[0] and len(it.a) > 3 and 'Inclusive' not in it.a[0]:
            lo, hi = it.a[2], it.a[3]
            return [(s, mk('adt', it.a[0], it.a[1], lo, e.add(hi, -1)) if v else it, SOME(e.add(hi, -1)) if v else NONE) for s, v in e.branch(st, e.boolean(st, 'lt', lo, hi))]
        site = (c.fid, c.site[1], 'itb')
        t = e.fresh(st, 'call', site, 'next_back')
        s2 = st.fork()
        e.assume_variant(st, t, 'Some', OPT, True)
        e.assume_variant(s2, t, 'None', OPT, True)
        return [(st, it, SOME(mk('f', t, 'Some', 0))), (s2, it, NONE)]

    def itval(e, st, r):
        """(iterator value, location) behind &mut I"""
        loc, path = e.deref(r)
        v = e.load(st, loc, path)
        n = 0
        while v.k == 'ref' and n < 6:
            loc, path = v.a
            v = e.load(st, loc, path)
            n += 1
        return v, loc, path

    def known_iter(v):
        return v.k in ITERK or v.k == 'mw' or (v.k == 'adt' and 'Range' in v.a[0])

    @m('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back')
    def _(e, st, c):
        if c.inst and c.local:
            return None
        v, loc, path = itval(e, st, c.args[0])
        f = nback if c.name.endswith('next_back') else nxt
        out = []
        for s, i2, o in f(e, st, v, c):
            if i2 is not v:
                e.store(s, loc, path, i2)
            if e.on_iter:
                e.on_iter(e, s, c, mk('rev', v) if f is nback else v, None if o is NONE else o.a[2] if o.k == 'adt' else mk('f', o, 'Some', 0), c.rty)
            out.append((s, o))
        return out
    for k in ("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next"):
        pass

    @m('std::iter::Peekable::<I>::peek')
    def _(e, st, c):
        v, loc, path = itval(e, st, c.args[0])
        return [(s, NONE if o is NONE else SOME(e.ref(('K', o.a[2])) if o.a[2].k == 'ref' else o.a[2])) for s, i2, o in nxt(e, st, v, c)]

    @m('std::iter::Peekable::<I>::next_if', 'std::iter::Peekable::<I>::next_if_eq')
    def _(e, st, c):
        v, loc, path = itval(e, st, c.args[0])
        out = []
        for s, i2, o in nxt(e, st, v, c):
            if o is NONE:
                out.append((s, NONE))
                continue
            x = o.a[2] if o.k == 'adt' else mk('f', o, 'Some', 0)
            if c.name.endswith('_eq'):
                y = e.val(s, c.args[1])
                rs = [(s, e.boolean(s, 'eq', e.val(s, x), y))]
            else:
                t = ('A', (c.fid, c.site[1], 'nif'), 0)
                e.set_root(s, t, x)
                rs = e.apply(s, c, c.args[1], [e.ref(t)])
            for s2, b in rs:
                for s3, yes in e.branch(s2, b):
                    if yes:
                        e.store(s3, loc, path, i2)
                        if e.on_iter:
                            e.on_iter(e, s3, c, v, x, c.rty)
                        out.append((s3, SOME(x)))
                    else:
                        out.append((s3, NONE))
        return out

    # loops over iterators: fixpoint with the same widening as loops in the program
    def iterate(e, st, c, it, accs, step):
        """step(st, accs, x) -> [(st, accs, done?)]; returns [(st, accs)]"""
        fid = e.new_frame(c.fid, c.site[1], '#iter' + c.name)
        fr = e.frame(st, fid)
        fr.clear()
        fr[0] = it
        for i, a in enumerate(accs):
            fr[i + 1] = a
        outs, seen = [], {}
        todo = [(st, False)]
        n = 0
        while todo:
            s, back = todo.pop()
            e.gc_facts(s)
            s = e.loop_head(s, fid, 0, back)
            k = e.skey(s)
            prev = seen.setdefault(k, [])
            if any(e.covers(p, s) for p in prev):
                continue
            if len(prev) > 12:
                s.facts = {a: b for a, b in s.facts.items() if all(p[0].get(a) == b for p in prev)}
                if len(prev) > 24:
                    s.zn = {}
            prev.append((dict(s.facts), dict(s.zn)))
            n += 1
            if n > 300:
                from ai import Budget
                raise Budget('iterator loop in %s' % c.fn)
            fr = s.fr[fid]
            it0 = fr[0]
            na = len(accs)
            for s2, i2, o in nxt(e, s, it0, c):
                if e.on_iter:
                    e.on_iter(e, s2, c, it0, None if o is NONE else o.a[2] if o.k == 'adt' else mk('f', o, 'Some', 0), '')
                ac = [s2.fr[fid][i + 1] for i in range(na)]
                if o is NONE:
                    outs.append((s2, ac))
                    continue
                e.frame(s2, fid)[0] = i2
                for s3, ac3, done in step(s2, ac, o.a[2]):
                    if done:
                        outs.append((s3, ac3))
                    else:
                        f3 = e.frame(s3, fid)
                        for i, a in enumerate(ac3):
                            f3[i + 1] = a
                        todo.append((s3, True))
        res = []
        for s, ac in outs:
            s.fr.pop(fid, None)
            s.own.discard(fid)
            s.loops = {k: x for k, x in s.loops.items() if k[0] != fid}
            res.append((s, ac))
        return res
    e.iterate = iterate

    def take_iter(e, st, c):
        v = c.args[0]
        if v.k == 'ref' or c.at[0].startswith('&'):
            v, _, _ = itval(e, st, v)
        return v

    def simple_src(it):
        return it.k in ('iter', 'rev', 'cloned', 'enum')

    def collect(e, st, c, it):
        if not known_iter(it):
            return [(st, mk('app', 'collect', it))]
        if it.k == 'iter' and it.a[2].k == 'int':
            src, mode, pos = it.a
            v = e.val(st, src)
            if v.k == 'vec' and len(v.a) <= 12:
                pass
            elif pos.a[0] == 0 and mode == 'v':
                return [(st, v if v.k not in ('pieces', 'chars', 'charidx', 'entries') else mk('app', 'collect', v))]
            elif mode == 'v':
                return [(st, mk('app', 'collect', v, pos))]

        def step(s, ac, x):
            v = ac[0]
            nv = mk('vec', *(v.a + (x,))) if v.k == 'vec' and len(v.a) < 12 else mk('push', v, x)
            return [(s, [nv], False)]
        return [(s, ac[0]) for s, ac in iterate(e, st, c, it, [mk('vec')], step)]

    @m('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
    def _(e, st, c):
        it = take_iter(e, st, c)
        t = c.rty
        out = []
        for s, v in collect(e, st, c, it):
            if t.startswith('std::string::String'):
                v = cat(*[x for x in v.a]) if v.k == 'vec' and all(x.k in ('char', 'str') or True for x in v.a) else mk('app', 'concat', v)
            elif t.startswith(('std::collections', OPT, RES)):
                v = mk('app', 'collect:' + t.split('<')[0], v)
            out.append((s, v))
        return out

    @m('std::iter::Iterator::for_each')
    def _(e, st, c):
        it = take_iter(e, st, c)
        f = c.args[1]
        if f.k == 'clo':
            f = e.alloc(st, (c.fid, c.site[1], 'fe'), f)

        def step(s, ac, x):
            return [(s2, ac, False) for s2, r in e.apply(s, c, f, [x])]
        return [(s, UNIT) for s, ac in iterate(e, st, c, it, [f], step)]

    def quant(n):
        def f(e, st, c):
            it = take_iter(e, st, c)
            fn = c.args[1]

            def step(s, ac, x):
                out = []
                arg = x
                if n in ('find',):
                    loc = ('A', (c.fid, c.site[1], 'q'), 0)
                    e.set_root(s, loc, x)
                    arg = e.ref(loc)
                for s2, r in e.apply(s, c, fn, [arg]):
                    if n == 'find_map':
                        for s3, vn in e.split_variants(s2, r, OPT, ['None', 'Some']):
                            out.append((s3, [r], True) if vn == 'Some' else (s3, ac, False))
                        continue
                    for s3, b in e.branch(s2, r):
                        if n == 'all':
                            out.append((s3, [FALSE], True) if not b else (s3, ac, False))
                        elif n == 'any':
                            out.append((s3, [TRUE], True) if b else (s3, ac, False))
                        elif n == 'find':
                            out.append((s3, [SOME(x)], True) if b else (s3, ac, False))
                        else:
                            out.append((s3, [SOME(ac[1]), ac[1]], True) if b else (s3, [ac[0], e.add(ac[1], 1)], False))
                return out
            init = {'all': [TRUE], 'any': [FALSE], 'find': [NONE], 'find_map': [NONE], 'position': [NONE, I(0)]}[n]
            if n == 'position':
                init = [NONE, I(0)]
            return [(s, ac[0]) for s, ac in iterate(e, st, c, it, init, step)]
        return f
    def rposition(e, st, c):
        it = take_iter(e, st, c)
        fn = c.args[1]
        n = e.vlen(e.val(st, it.a[0])) if it.k == 'iter' and len(it.a) == 3 and it.a[2] is I(0) else None
        if n is None:
            return [(st, e.result_term(st, c))]

        def step(s, ac, x):
            out = []
            for s2, r in e.apply(s, c, fn, [x]):
                for s3, b in e.branch(s2, r):
                    i = e.add(ac[1], -1)
                    out.append((s3, [SOME(i), i], True) if b else (s3, [ac[0], i], False))
            return out
        return [(s, ac[0]) for s, ac in iterate(e, st, c, mk('rev', it), [NONE, n], step)]
    M['std::iter::Iterator::rposition'] = rposition
    M["<std::slice::Iter<'a, T> as std::iter::Iterator>::rposition"] = rposition
    for n in ('all', 'any', 'find', 'find_map', 'position'):
        M['std::iter::Iterator::' + n] = quant(n)
        for k in ("<std::slice::Iter<'a, T> as std::iter::Iterator>::", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::"):
            M[k + n] = quant(n)

    @m('std::iter::Iterator::fold', 'std::iter::Iterator::try_fold~')
    def _(e, st, c):
        it = take_iter(e, st, c)

        def step(s, ac, x):
            return [(s2, [r], False) for s2, r in e.apply(s, c, c.args[2], [ac[0], x])]
        return [(s, ac[0]) for s, ac in iterate(e, st, c, it, [c.args[1]], step)]

    @m('std::iter::Iterator::count')
    def _(e, st, c):
        it = take_iter(e, st, c)
        return [(s, ac[0]) for s, ac in iterate(e, st, c, it, [I(0)], lambda s, ac, x: [(s, [e.add(ac[0], 1)], False)])]

    @m('std::iter::Iterator::max', 'std::iter::Iterator::min')
    def _(e, st, c):
        it = take_iter(e, st, c)
        mx = c.name.endswith('max')

        def step(s, ac, x):
            if ac[0] is NONE:
                return [(s, [SOME(x)], False)]
            out = []
            y = ac[0].a[2] if ac[0].k == 'adt' else mk('f', ac[0], 'Some', 0)
            a, b = e.val(s, y), e.val(s, x)
            for s2, less in e.branch(s, e.boolean(s, 'lt', a, b)):
                out.append((s2, [SOME(x if less == mx else y)], False))
            return out
        return [(s, ac[0]) for s, ac in iterate(e, st, c, it, [NONE], step)]

    @m('std::iter::Iterator::last')
    def _(e, st, c):
        it = take_iter(e, st, c)
        if it.k == 'iter' and it.a[0].k == 'vec' and it.a[1] == 'v' and it.a[2].k == 'int':
            return SOME(it.a[0].a[-1]) if len(it.a[0].a) > it.a[2].a[0] else NONE
        if it.k == 'iter' and it.a[0].k == 'entries':
            mp = it.a[0].a[0]
            return [(s, NONE if v else SOME({'mk': mk('lastkey', mp), 'mv': mk('lastval', mp)}.get(it.a[1], mk('tup', mk('lastkey', mp), mk('lastval', mp))))) for s, v in e.branch(st, e.boolean(st, 'eq', mk('nlen', mp), I(0)))]
        return [(s, ac[0]) for s, ac in iterate(e, st, c, it, [NONE], lambda s, ac, x: [(s, [SOME(x)], False)])]

    @m('std::iter::Iterator::nth')
    def _(e, st, c):
        v, loc, path = itval(e, st, c.args[0])
        n = e.res(st, c.args[1])
        if n.k != 'int' or n.a[0] > 6:
            v2 = havoc_iter(e, st, v, c)
            return [(e.store(s, loc, path, i2) or s, o) for s, i2, o in nxt(e, st, v2, c)]
        states = [(st, v, None)]
        for k in range(n.a[0] + 1):
            nx = []
            for s, i, o in states:
                if o is NONE:
                    nx.append((s, i, o))
                else:
                    nx += nxt(e, s, i, c)
            states = nx
        out = []
        for s, i2, o in states:
            e.store(s, loc, path, i2)
            out.append((s, o))
        return out

    @m('std::iter::ExactSizeIterator::len')
    def _(e, st, c):
        v, loc, path = itval(e, st, c.args[0])
        if v.k == 'iter' and v.a[2].k == 'int':
            return e.add(e.vlen(e.val(st, v.a[0])), -v.a[2].a[0])
        return mk('u', mk('app', 'itlen', v))

    # ---------------------------------------------------------------- options not shipped as bodies
    def closure_models():
        def o_unwrap_or_else(e, st, c):
            out = []
            res = c.name.startswith(RES)
            for s, n in e.split_variants(st, c.args[0], RES if res else OPT, ['Ok', 'Err'] if res else ['None', 'Some']):
                if n in ('Ok', 'Some'):
                    out.append((s, e.proj(s, c.args[0], (n, 0))))
                else:
                    out += e.apply(s, c, c.args[1], [e.proj(s, c.args[0], ('Err', 0))] if res else [])
            return out
        M[OPT + '::<T>::unwrap_or_else'] = o_unwrap_or_else
        M[RES + '::<T, E>::unwrap_or_else'] = o_unwrap_or_else

        def o(name, fn):
            M[OPT + '::<T>::' + name] = fn

        def r(name, fn):
            M[RES + '::<T, E>::' + name] = fn

        def both(e, st, c, v=None):
            v = c.args[0] if v is None else v
            res = c.name.startswith(RES)
            return [(s, n in ('Ok', 'Some'), e.proj(s, v, (n, 0)) if n != 'None' else None) for s, n in e.split_variants(st, v, RES if res else OPT, ['Ok', 'Err'] if res else ['None', 'Some'])]

        def wrap(c, x):
            return OK(x) if c.name.startswith(RES) else SOME(x)

        def fail(c, x):
            return ERR(x) if c.name.startswith(RES) else NONE

        def f_map(e, st, c):
            return [y for s, ok, x in both(e, st, c) for y in ([(s2, wrap(c, q)) for s2, q in e.apply(s, c, c.args[1], [x])] if ok else [(s, fail(c, x))])]
        o('map', f_map), r('map', f_map)

        def f_and_then(e, st, c):
            return [y for s, ok, x in both(e, st, c) for y in (e.apply(s, c, c.args[1], [x]) if ok else [(s, fail(c, x))])]
        o('and_then', f_and_then), r('and_then', f_and_then)

        def f_map_or(e, st, c):
            return [y for s, ok, x in both(e, st, c) for y in (e.apply(s, c, c.args[2], [x]) if ok else [(s, c.args[1])])]
        o('map_or', f_map_or), r('map_or', f_map_or)

        def f_map_or_else(e, st, c):
            return [y for s, ok, x in both(e, st, c) for y in (e.apply(s, c, c.args[2], [x]) if ok else e.apply(s, c, c.args[1], [x] if c.name.startswith(RES) else []))]
        o('map_or_else', f_map_or_else), r('map_or_else', f_map_or_else)

        def f_unwrap_or(e, st, c):
            return [(s, x if ok else c.args[1]) for s, ok, x in both(e, st, c)]
        o('unwrap_or', f_unwrap_or), r('unwrap_or', f_unwrap_or)

        def f_unwrap_or_default(e, st, c):
            t = c.rty
            d = S('') if t.startswith('std::string') else I(0) if t in ('i32', 'usize', 'u32') else FALSE if t == 'bool' else mk('vec') if t.startswith('std::vec') else mk('default', t)
            return [(s, x if ok else d) for s, ok, x in both(e, st, c)]
        o('unwrap_or_default', f_unwrap_or_default), r('unwrap_or_default', f_unwrap_or_default)

        def f_is_some_and(e, st, c):
            return [y for s, ok, x in both(e, st, c) for y in (e.apply(s, c, c.args[1], [x]) if ok else [(s, FALSE)])]
        o('is_some_and', f_is_some_and), r('is_ok_and', f_is_some_and)

        def f_is_none_or(e, st, c):
            return [y for s, ok, x in both(e, st, c) for y in (e.apply(s, c, c.args[1], [x]) if ok else [(s, TRUE)])]
        o('is_none_or', f_is_none_or)

        def f_ok_or(e, st, c):
            return [(s, OK(x) if ok else ERR(c.args[1])) for s, ok, x in both(e, st, c)]
        o('ok_or', f_ok_or)

        def f_ok_or_else(e, st, c):
            return [y for s, ok, x in both(e, st, c) for y in ([(s, OK(x))] if ok else [(s2, ERR(q)) for s2, q in e.apply(s, c, c.args[1], [])])]
        o('ok_or_else', f_ok_or_else)

        def f_filter(e, st, c):
            out = []
            for s, ok, x in both(e, st, c):
                if not ok:
                    out.append((s, NONE))
                    continue
                loc = ('A', (c.fid, c.site[1], 'of'), 0)
                e.set_root(s, loc, x)
                for s2, b in e.apply(s, c, c.args[1], [e.ref(loc)]):
                    out += [(s3, SOME(x) if v else NONE) for s3, v in e.branch(s2, b)]
            return out
        o('filter', f_filter)

        def f_or_else(e, st, c):
            return [y for s, ok, x in both(e, st, c) for y in ([(s, wrap(c, x))] if ok else e.apply(s, c, c.args[1], [x] if c.name.startswith(RES) else []))]
        o('or_else', f_or_else), r('or_else', f_or_else)

        def f_or(e, st, c):
            return [(s, wrap(c, x) if ok else c.args[1]) for s, ok, x in both(e, st, c)]
        o('or', f_or), r('or', f_or)

        def f_map_err(e, st, c):
            return [y for s, ok, x in both(e, st, c) for y in ([(s, OK(x))] if ok else [(s2, ERR(q)) for s2, q in e.apply(s, c, c.args[1], [x])])]
        r('map_err', f_map_err)

        def f_ok(e, st, c):
            return [(s, SOME(x) if ok else NONE) for s, ok, x in both(e, st, c)]
        r('ok', f_ok)

        def f_err(e, st, c):
            return [(s, NONE if ok else SOME(x)) for s, ok, x in both(e, st, c)]
        r('err', f_err)

        def f_take(e, st, c):
            loc, path = e.deref(c.args[0])
            v = e.load(st, loc, path)
            e.store(st, loc, path, NONE)
            return v
        o('take', f_take)

        def f_replace(e, st, c):
            loc, path = e.deref(c.args[0])
            v = e.load(st, loc, path)
            e.store(st, loc, path, SOME(c.args[1]))
            return v
        o('replace', f_replace)
        o('insert', lambda e, st, c: (e.store(st, *e.deref(c.args[0]), SOME(c.args[1])), e.ref(e.deref(c.args[0])[0], e.deref(c.args[0])[1] + (('Some', 0),)))[1])

        def f_as_ref(e, st, c):
            loc, path = e.deref(c.args[0])
            v = e.load(st, loc, path)
            res = c.name.startswith(RES)
            out = []
            for s, n in e.split_variants(st, v, RES if res else OPT, ['Ok', 'Err'] if res else ['None', 'Some']):
                if n == 'None':
                    out.append((s, NONE))
                else:
                    x = e.ref(loc, path + ((n, 0),)) if loc[0] != 'K' else e.proj(s, v, (n, 0))
                    if 'deref' in c.name and not ('String' in c.at[0] or 'Vec' in c.at[0]):
                        x = e.load1(s, x)
                    out.append((s, {'Some': SOME, 'Ok': OK, 'Err': ERR}[n](x)))
            return out
        for n in ('iter', 'iter_mut'):
            M[OPT + '::<T>::' + n] = lambda e, st, c: [(s, mk('once', v)) for s, v in f_as_ref(e, st, c)]
        for n in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut'):
            o(n, f_as_ref), r(n, f_as_ref)

        def f_cloned(e, st, c):
            f = shared if c.rty.startswith(OPT + '<std::rc::Rc<std::cell::RefCell<') else lambda e, s, x: e.load1(s, x)
            return [(s, SOME(f(e, s, x)) if ok else NONE) for s, ok, x in both(e, st, c)]
        for p in ('::<&T>::', '::<&mut T>::'):
            M[OPT + p + 'cloned'] = f_cloned
            M[OPT + p + 'copied'] = f_cloned

        def f_is(names):
            def f(e, st, c):
                v = e.load1(st, c.args[0])
                res = c.name.startswith(RES)
                b = mk('isvar', e.strip_upd(v), names, (bt(c.at[0])))
                d = e.decide(st, b)
                return b if d is None else B(d)
            return f
        o('is_some', f_is('Some')), o('is_none', f_is('None'))
        r('is_ok', f_is('Ok')), r('is_err', f_is('Err'))

        def f_unwrap(e, st, c):
            out = []
            want = 'unwrap_err' not in c.name and 'expect_err' not in c.name
            for s, ok, x in both(e, st, c):
                if ok == want:
                    out.append((s, x))
                elif e.on_panic:
                    e.on_panic(e, s, c.fid, 'unwrap', c.span, c)
            return out
        for n in ('unwrap', 'expect'):
            o(n, f_unwrap), r(n, f_unwrap)
        r('unwrap_err', f_unwrap), r('expect_err', f_unwrap)

        def f_zip(e, st, c):
            out = []
            for s, ok, x in both(e, st, c):
                if not ok:
                    out.append((s, NONE))
                    continue
                for s2, ok2, y in both(e, s, c, c.args[1]):
                    out.append((s2, SOME(mk('tup', x, y)) if ok2 else NONE))
            return out
        o('zip', f_zip)
    closure_models()

    # ---------------------------------------------------------------- Default
    @m('std::default::Default::default')
    def _(e, st, c):
        t = c.rty
        if t.startswith('std::string'):
            return S('')
        if t.startswith('std::vec'):
            return mk('vec')
        if t.startswith('std::collections'):
            return mk('emptymap')
        if t.startswith(OPT):
            return NONE
        if t in ('i32', 'usize', 'u32', 'i64'):
            return I(0)
        if t == 'bool':
            return FALSE
        return None

    # ---------------------------------------------------------------- atomics
    def aload(e, st, c):
        return e.load1(st, c.args[0])

    def astore(e, st, c):
        loc, path = e.deref(c.args[0])
        e.store(st, loc, path, c.args[1])
        return UNIT
    for t in ('bool', 'i32', 'usize', 'u32', 'i64', 'u64', 'isize', 'u8'):
        for a in ('std::sync::atomic::Atomic::<%s>::' % t,):
            M[a + 'load'] = aload
            M[a + 'store'] = astore
            M[a + 'new'] = arg0
    for t in ('Bool', 'I32', 'Usize'):
        M['std::sync::atomic::Atomic%s::load' % t] = aload
        M['std::sync::atomic::Atomic%s::store' % t] = astore
        M['std::sync::atomic::Atomic%s::new' % t] = arg0

    def aswap(e, st, c):
        loc, path = e.deref(c.args[0])
        v = e.load(st, loc, path)
        e.store(st, loc, path, c.args[1])
        return v
    for t in ('bool', 'i32', 'usize'):
        M['std::sync::atomic::Atomic::<%s>::swap' % t] = aswap

    @m('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
    def _(e, st, c):
        tup = c.args[1]
        args = list(tup.a) if tup.k == 'tup' else [tup]
        return e.apply(st, c, c.args[0], args)

    @m('std::mem::forget')
    def _(e, st, c):
        return UNIT

    @m('std::mem::drop')
    def _(e, st, c):
        if e.on_drop is not None:
            e.on_drop(e, st, c.fid, c.at[0], c.args[0], c.span)
        return UNIT

    # files: a builder is the set of its flags
    OO = 'std::fs::OpenOptions'

    @m(OO + '::new', 'std::fs::File::options')
    def _(e, st, c):
        return mk('oo', frozenset())

    def ooflag(e, st, c):
        n = c.name.rsplit('::', 1)[1]
        loc, path = e.deref(c.args[0])
        v = e.load(st, loc, path)
        x = e.res(st, c.args[1])
        if v.k == 'oo' and x.k == 'bool':
            e.store(st, loc, path, mk('oo', v.a[0] | {n} if x.a[0] else v.a[0] - {n}))
        elif v.k == 'oo':
            e.store(st, loc, path, mk('oo', v.a[0] | {n + '?'}))
        return c.args[0]
    for n in ('read', 'write', 'append', 'truncate', 'create', 'create_new'):
        M[OO + '::' + n] = ooflag

    @m(OO + '::open', 'std::fs::File::open', 'std::fs::File::create')
    def _(e, st, c):
        if c.name.startswith(OO):
            o = e.val(st, c.args[0])
            fl = o.a[0] if o.k == 'oo' else frozenset({'?'})
            p = e.val(st, c.args[1])
        else:
            fl = frozenset({'read'}) if c.name.endswith('::open') else frozenset({'write', 'create', 'truncate'})
            p = e.val(st, c.args[0])
        t = e.fresh(st, 'call', c.site, c.res)
        s2 = st.fork()
        return [(st, OK(mk('file', p, fl, t))), (s2, ERR(mk('errno', t)))]

    @m('std::os::fd::IntoRawFd::into_raw_fd', 'std::os::fd::AsRawFd::as_raw_fd')
    def _(e, st, c):
        v = e.val(st, c.args[0])
        while v.k == 'adt' and len(v.a) == 3:
            v = e.val(st, v.a[2])
        if v.k == 'file':
            e.zadd(st, None, mk('fd', v), -3)
            return mk('fd', v)
        return v if v.k in ('int', 'fdr', 'fdw') else mk('fd', v)

    # wait statuses
    @m('nix::sys::wait::WaitStatus::from_raw')
    def _(e, st, c):
        return OK(mk('app', 'rawstatus', *c.args))

    # ---------------------------------------------------------------- signal sets: sets of signal names
    SIGT = 'nix::sys::signal::SigSet'

    @m(SIGT + '::all')
    def _(e, st, c):
        return mk('adt', SIGT, '', mk('sigset', True, frozenset()))

    @m(SIGT + '::empty')
    def _(e, st, c):
        return mk('adt', SIGT, '', mk('sigset', False, frozenset()))

    def signame(e, st, v):
        v = e.val(st, v)
        return v.a[1] if v.k == 'adt' else None

    @m(SIGT + '::add', SIGT + '::remove')
    def _(e, st, c):
        loc, path = e.deref(c.args[0])
        v = e.load(st, loc, path)
        n = signame(e, st, c.args[1])
        if v.k == 'adt' and v.a[2].k == 'sigset' and n:
            co, s = v.a[2].a
            add = c.name.endswith('::add')
            s = (s - {n}) if add == co else (s | {n})
            e.store(st, loc, path, mk('adt', SIGT, '', mk('sigset', co, s)))
        else:
            e.store(st, loc, path, mk('app', c.name, v, e.val(st, c.args[1])))
        return UNIT

    @m('std::ops::BitOr::bitor')
    def _(e, st, c):
        return bitor(e.val(st, c.args[0]), e.val(st, c.args[1]))

    def bitor(x, y):
        if x.k == 'adt' and y.k == 'adt' and x.a[0] == y.a[0] and x.a[2:] and y.a[2:]:
            p, q = x.a[2], y.a[2]
            while p.k == 'adt' and len(p.a) > 2:
                p = p.a[2]
            while q.k == 'adt' and len(q.a) > 2:
                q = q.a[2]
            if p.k == 'int' and q.k == 'int':
                return mk('adt', x.a[0], x.a[1], I(p.a[0] | q.a[0]))
        return mk('bitor', x, y)
