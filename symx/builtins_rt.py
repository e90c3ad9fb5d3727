"""libc / C++ runtime / vf_* harness primitives for the symbolic executor."""
import math, re, time
from fractions import Fraction as Q
import engine as G
import terms as T
import solver as S
from engine import (builtin, BUILTINS, PathEnd, Fault, UNDEF, malloc, free_, memcpy, memset, cstr, getb, putb, branch,
                    new_addr, s_, SB, getl, cstrl)
from terms import Poly, ZERO, ONE, INF, NAN

M64 = (1 << 64) - 1


def Pth():
    return G.P


# ------------------------------------------------------------ allocation
@builtin('malloc')
def b_malloc(n):
    return malloc(n, 'heap')


@builtin('calloc')
def b_calloc(n, m):
    a = malloc(n * m, 'heap')
    memset(a, 0, n * m)
    return a


@builtin('realloc')
def b_realloc(p, n):
    if p == 0:
        return malloc(n, 'heap')
    o, off = G.obj_at(p, 0)
    a = malloc(n, 'heap')
    memcpy(a, p, min(n, o.size))
    free_(p, 'heap', 'realloc')
    return a


@builtin('free', 'cfree')
def b_free(p):
    free_(p, 'heap', 'free')


@builtin('_Znwm')
def b_new(n, *_):
    return malloc(n, 'new')


@builtin('_Znam')
def b_newa(n, *_):
    return malloc(n, 'newarr')


BUILTINS['_ZnwmRKSt9nothrow_t'] = b_new
BUILTINS['_ZnamRKSt9nothrow_t'] = b_newa
BUILTINS['_ZnwmSt11align_val_t'] = b_new


@builtin('_ZdlPv', '_ZdlPvm', '_ZdlPvRKSt9nothrow_t')
def b_del(p, *_):
    free_(p, 'new', 'delete')


@builtin('_ZdaPv', '_ZdaPvm')
def b_dela(p, *_):
    free_(p, 'newarr', 'delete[]')


# --------------------------------------------------------------- strings
@builtin('memcpy', 'memmove')
def b_memcpy(d, s, n):
    return memcpy(d, s, n)


@builtin('memset')
def b_memset(d, c, n):
    return memset(d, c, n)


@builtin('strlen')
def b_strlen(a):
    return len(cstrl(a))


def cmp3(x, y):
    return 0 if x == y else (1 if x > y else 0xffffffff)


def cmpl(x, y):
    """order of two byte sequences, possibly symbolic"""
    if x.__class__ is bytes and y.__class__ is bytes:
        return cmp3(x, y)
    for a, b in zip(x, y):
        if a is b:
            continue
        if a == b:
            continue
        return 1 if a > b else 0xffffffff
    return 0 if len(x) == len(y) else (1 if len(x) > len(y) else 0xffffffff)


@builtin('memcmp', 'bcmp')
def b_memcmp(a, b, n):
    if n == 0:
        return 0
    return cmpl(getl(a, n), getl(b, n))


@builtin('strcmp')
def b_strcmp(a, b):
    return cmpl(cstrl(a), cstrl(b))


@builtin('strncmp')
def b_strncmp(a, b, n):
    return cmpl(cstrl(a)[:n], cstrl(b)[:n])


@builtin('strcasecmp')
def b_strcasecmp(a, b):
    return cmp3(cstr(a).lower(), cstr(b).lower())


def findb(a, s, c):
    c = c & 255
    if c.__class__ is SB and not any(x.__class__ is SB for x in s):
        first = {}
        for i, x in enumerate(s):
            first.setdefault(x, a + i)
        return c.map(lambda x: first.get(x, 0))
    for i, x in enumerate(s):
        if x == c:
            return a + i
    return 0


@builtin('memchr')
def b_memchr(a, c, n):
    if n.__class__ is SB:
        n = n.conc()
    if n == 0:
        return 0
    return findb(a, getl(a, n), c)


@builtin('strchr', 'index')
def b_strchr(a, c):
    return findb(a, list(cstrl(a)) + [0], c)


@builtin('strrchr')
def b_strrchr(a, c):
    s = cstr(a) + b'\0'
    i = s.rfind(bytes([c & 255]))
    return 0 if i < 0 else a + i


@builtin('strstr')
def b_strstr(a, b):
    i = cstr(a).find(cstr(b))
    return 0 if i < 0 else a + i


def putt(d, s):
    """store a string and its terminator"""
    putb(d, s + b'\0' if s.__class__ is bytes else s + [0])


@builtin('strcpy')
def b_strcpy(d, s):
    putt(d, cstrl(s))
    return d


@builtin('strcat')
def b_strcat(d, s):
    putt(d + len(cstrl(d)), cstrl(s))
    return d


@builtin('strncpy')
def b_strncpy(d, s, n):
    b = cstrl(s)
    putb(d, (b + (bytes(n) if b.__class__ is bytes else [0] * n))[:n])
    return d


@builtin('strdup', '__strdup')
def b_strdup(s):
    b = cstrl(s)
    a = malloc(len(b) + 1, 'heap')
    putt(a, b)
    return a


def ctype(f):
    def g(c):
        if c is UNDEF:
            raise Fault('uninit', 'uninitialised character')
        if c.__class__ is SB:
            return c.map(g)
        c = s_(int(c), 32)
        if not -1 <= c < 256:
            if -128 <= c < 0:
                return 0
            raise Fault('ub', 'ctype argument out of range')
        return f(c)
    return g


BUILTINS['tolower'] = ctype(lambda c: c + 32 if 65 <= c <= 90 else c & 0xffffffff)
BUILTINS['toupper'] = ctype(lambda c: c - 32 if 97 <= c <= 122 else c & 0xffffffff)
BUILTINS['isspace'] = ctype(lambda c: 1 if c in (32, 9, 10, 11, 12, 13) else 0)
BUILTINS['isdigit'] = ctype(lambda c: 1 if 48 <= c <= 57 else 0)
BUILTINS['isalpha'] = ctype(lambda c: 1 if 65 <= c <= 90 or 97 <= c <= 122 else 0)
BUILTINS['isalnum'] = ctype(lambda c: 1 if 65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57 else 0)
BUILTINS['isupper'] = ctype(lambda c: 1 if 65 <= c <= 90 else 0)
BUILTINS['islower'] = ctype(lambda c: 1 if 97 <= c <= 122 else 0)
BUILTINS['ispunct'] = ctype(lambda c: 1 if 33 <= c <= 126 and not chr(c).isalnum() else 0)

def ctype_table(kind, size, f):
    data = []

    def g():
        p = Pth()
        a = p.counter.get(kind)
        if a is None:
            if not data:
                data.append(b''.join((((1 << (8 * size)) - 1 if size == 4 else 0) if c == -1 else f(c & 255)).to_bytes(size, 'little')
                                     for c in range(-128, 256)))
            t = new_addr(384 * size, 'tls')
            putb(t, data[0])
            a = new_addr(8, 'tls')
            G.sti(a, 8, t + 128 * size)
            p.counter[kind] = a
        return a
    return g


def ctype_bits(c):
    ch = chr(c)
    if c >= 128:
        return 0
    r = 0
    for i, b in enumerate((ch.isupper(), ch.islower(), ch.isalpha(), ch.isdigit(), ch in '0123456789abcdefABCDEF', c in (32, 9, 10, 11, 12, 13),
                           32 <= c < 127, 32 < c < 127)):
        if b:
            r |= 1 << (8 + i)
    for i, b in enumerate((c in (32, 9), c < 32 or c == 127, 32 < c < 127 and not ch.isalnum(), ch.isalnum())):
        if b:
            r |= 1 << i
    return r


BUILTINS['__ctype_b_loc'] = ctype_table('ctype_b', 2, ctype_bits)
BUILTINS['__ctype_tolower_loc'] = ctype_table('ctype_lo', 4, lambda c: c + 32 if 65 <= c <= 90 else c)
BUILTINS['__ctype_toupper_loc'] = ctype_table('ctype_up', 4, lambda c: c - 32 if 97 <= c <= 122 else c)

FLT = re.compile(rb'[ \t\n\v\f\r]*([+-]?(?:0[xX][0-9a-fA-F]+(?:\.[0-9a-fA-F]*)?(?:[pP][+-]?\d+)?|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?|[iI][nN][fF](?:[iI][nN][iI][tT][yY])?|[nN][aA][nN]))')
PH = 777000000


def placeholder(tok):
    """symbol for a numeric token, or None"""
    m = re.fullmatch(rb'([+-]?)(777\d{6})', tok)
    if m:
        v = Pth().ph.get(int(m.group(2)))
        if v is not None:
            return T.neg(v) if m.group(1) == b'-' else v
    return None


def parse_double(s):
    """(value, consumed)"""
    m = FLT.match(s)
    if not m:
        return ZERO, 0
    tok = m.group(1)
    v = placeholder(tok)
    if v is None:
        m2 = re.match(rb'([+-]?777\d{6})([eE][+-]?\d+)?$', tok)
        if m2 and m2.group(2) and placeholder(m2.group(1)) is not None:
            v = T.scale(placeholder(m2.group(1)), Q(10) ** int(m2.group(2)[1:]))
        elif tok.lower().lstrip(b'+-').startswith(b'0x'):
            v = T.rat(float.fromhex(tok.decode()))
        else:
            f = float(tok)
            v = T.rat(f)
    return v, m.end()


@builtin('strtod', '__isoc23_strtod', 'strtold')
def b_strtod(s, end):
    v, n = parse_double(cstr(s))
    if end:
        G.sti(end, 8, s + n)
    return v


@builtin('atof')
def b_atof(s):
    return parse_double(cstr(s))[0]


def parse_long(s, base):
    t = s.lstrip(b' \t\n\v\f\r')
    i = len(s) - len(t)
    m = re.match(rb'([+-]?)(0[xX][0-9a-fA-F]+|[0-9a-zA-Z]+)?', t)
    sg = m.group(1)
    body = t[len(sg):]
    if base in (0, 16) and re.match(rb'0[xX][0-9a-fA-F]', body):
        d = re.match(rb'0[xX]([0-9a-fA-F]+)', body)
        v, n = int(d.group(1), 16), d.end()
    else:
        if base == 0:
            base = 8 if body[:1] == b'0' else 10
        n = 0
        while n < len(body) and chr(body[n]).isalnum() and body[n] < 128 and int(chr(body[n]), 36) < base:
            n += 1
        if n == 0:
            return 0, 0
        v = int(body[:n], base)
    v = -v if sg == b'-' else v
    return v, i + len(sg) + n


@builtin('strtol', '__isoc23_strtol', 'strtoll', '__isoc23_strtoll')
def b_strtol(s, end, base):
    v, n = parse_long(cstr(s), s_(base, 32))
    if end:
        G.sti(end, 8, s + n)
    v = max(-(1 << 63), min((1 << 63) - 1, v))
    return v & M64


@builtin('strtoul', '__isoc23_strtoul', 'strtoull', '__isoc23_strtoull')
def b_strtoul(s, end, base):
    v, n = parse_long(cstr(s), s_(base, 32))
    if end:
        G.sti(end, 8, s + n)
    return v & M64


@builtin('atoi')
def b_atoi(s):
    return parse_long(cstr(s), 10)[0] & 0xffffffff


@builtin('atol')
def b_atol(s):
    return parse_long(cstr(s), 10)[0] & M64


# ------------------------------------------------------------ stdio / env
def fsname(s):
    s = s.decode('latin1')
    while s.startswith('./'):
        s = s[2:]
    return s


@builtin('fopen', 'fopen64')
def b_fopen(name, mode):
    m = cstr(mode)
    p = Pth()
    l = cstrl(name)
    if l.__class__ is bytes:
        n = fsname(l)
    else:
        n = next((f for f in sorted(p.fs) if cmpl(l, f.encode('latin1')) == 0), '\0')
        if not m.startswith(b'r'):
            raise PathEnd('unsupported', 'writing to a file of arbitrary name')
    if m.startswith(b'r'):
        if n not in p.fs:
            return 0
        a = new_addr(8, 'file')
        p.files[a] = [n, p.fs[n], 0, True]
        return a
    a = new_addr(8, 'file')
    p.fs[n] = b''
    p.files[a] = [n, b'', 0, True]
    return a


def fobj(f):
    p = Pth()
    if f == 0:
        raise Fault('null', 'null FILE')
    x = p.files.get(f)
    if x is None or not x[3]:
        raise Fault('uaf', 'closed or bad FILE used')
    return x


@builtin('fclose')
def b_fclose(f):
    fobj(f)[3] = False
    return 0


@builtin('fgets')
def b_fgets(buf, n, f):
    x = fobj(f)
    n = s_(n, 32)
    if n <= 0:
        return 0
    data = x[1]
    i = x[2]
    if i >= len(data):
        return 0
    if data.__class__ is list:
        out = []
        while len(out) < n - 1 and i < len(data):
            out.append(data[i])
            i += 1
            if out[-1] == 10:
                break
        x[2] = i
        putb(buf, out + [0])
        return buf
    j = data.find(b'\n', i)
    e = len(data) if j < 0 else j + 1
    e = min(e, i + n - 1)
    x[2] = e
    putb(buf, data[i:e] + b'\0')
    return buf


@builtin('fgetc', 'getc')
def b_fgetc(f):
    x = fobj(f)
    if x[2] >= len(x[1]):
        return 0xffffffff
    x[2] += 1
    return x[1][x[2] - 1]


@builtin('feof')
def b_feof(f):
    x = fobj(f)
    return 1 if x[2] >= len(x[1]) else 0


@builtin('printf', 'puts', 'putchar', 'fprintf', 'fputs', 'fputc', 'fflush', 'perror', 'fwrite', 'vprintf')
def b_print(*a):
    return 0


_spec = re.compile(rb'%([-+ #0]*)([0-9]*)(?:\.([0-9]+))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])')


def format_(fmt, args):
    """printf formatting of known integers and strings; numbers only where no digits are lost"""
    args = list(args)

    def one(m):
        flags, width, prec, size, c = m.groups()
        if c == b'%':
            return b'%'
        if not args:
            raise Fault('value', 'too few arguments for the format')
        v = args.pop(0)
        if v is UNDEF:
            raise Fault('uninit', 'formatted value')
        d = ('%' + flags.decode() + width.decode() + ('.' + prec.decode() if prec is not None else '')).encode()
        if c in b'di' or c in b'uxXo':
            if v.__class__ is not int:
                raise PathEnd('unsupported', 'formatted symbolic integer')
            w = {b'l': 64, b'll': 64, b'z': 64, b'j': 64, b't': 64, b'h': 16, b'hh': 8}.get(size, 32)
            v &= (1 << w) - 1
            return (d.decode() + ('d' if c in b'diu' else c.decode())) .encode() % (s_(v, w) if c in b'di' else v)
        if c == b's':
            return (d + b's') % cstr(v)
        if c == b'c':
            if v.__class__ is not int:
                raise PathEnd('unsupported', 'formatted symbolic character')
            return (d + b'c') % bytes([v & 255])
        if c in b'feEgG':
            if v.__class__ is Q and v.denominator == 1 and c == b'f':
                return (d + b'f') % float(v)
            if width or (c == b'f' and (prec is None or int(prec) < 15)) or (prec is not None and int(prec) < 6):
                raise PathEnd('unsupported', 'number formatted with lost digits')
            return cstr(vf_num(v))
        raise PathEnd('unsupported', 'format %s' % c.decode('latin1'))
    return _spec.sub(one, fmt)


@builtin('snprintf')
def b_snprintf(buf, n, fmt, *a):
    t = format_(cstr(fmt), a)
    if n:
        putb(buf, t[:n - 1] + b'\0')
    return len(t)


@builtin('sprintf')
def b_sprintf(buf, fmt, *a):
    t = format_(cstr(fmt), a)
    putb(buf, t + b'\0')
    return len(t)


@builtin('remove', 'unlink')
def b_remove(name):
    return 0 if Pth().fs.pop(fsname(cstr(name)), None) is not None else 0xffffffff


@builtin('stat', 'stat64', '__xstat')
def b_stat(name, buf):
    n = fsname(cstr(name)).rstrip('/')
    p = Pth()
    if n in p.fs or any(k.startswith(n + '/') for k in p.fs) or n in ('.', ''):
        memset(buf, 0, 144)
        isdir = n not in p.fs
        G.sti(buf + 24, 4, 0o040755 if isdir else 0o100644)
        return 0
    return 0xffffffff


@builtin('access')
def b_access(name, m):
    return 0 if fsname(cstr(name)) in Pth().fs else 0xffffffff


@builtin('getenv', 'secure_getenv')
def b_getenv(name):
    k = ('env', cstr(name))
    p = Pth()
    if k not in p.counter:
        v = p.fs.get(('env', k[1].decode()))
        if v is None:
            p.counter[k] = 0
        else:
            a = new_addr(len(v) + 1, 'env')
            putb(a, v + b'\0')
            p.counter[k] = a
    return p.counter[k]


@builtin('vf_setenv')
def vf_setenv(k, v):
    p = Pth()
    p.counter.pop(('env', cstr(k)), None)
    p.fs[('env', cstr(k).decode())] = cstr(v)


@builtin('exit', '_exit', '_Exit', 'quick_exit')
def b_exit(code):
    Pth().exit_code = s_(code, 32)
    raise PathEnd('exit', 'exit(%d)' % s_(code, 32))


@builtin('abort')
def b_abort():
    raise Fault('abort', 'abort called')


@builtin('__assert_fail')
def b_assert(m, f, l, fn):
    raise Fault('abort', 'assertion failed: ' + cstr(m).decode('latin1'))


@builtin('_ZSt9terminatev', '__clang_call_terminate')
def b_term(*a):
    raise Fault('abort', 'terminate called')


@builtin('__cxa_pure_virtual')
def b_pure():
    raise Fault('abort', 'pure virtual function called')


@builtin('__cxa_allocate_exception')
def b_exalloc(n):
    return new_addr(n + 128, 'exception')


@builtin('__cxa_free_exception')
def b_exfree(p):
    return None


def thrower(what):
    def f(*a):
        raise PathEnd('throw', what)
    return f


@builtin('__cxa_throw')
def b_throw(o, ti, d):
    n = G.E.M.globals.get(ti >> G.OBJSHIFT)
    raise PathEnd('throw', n[0] if n else 'exception')


for n in '''_ZSt17__throw_bad_allocv _ZSt20__throw_length_errorPKc _ZSt20__throw_out_of_rangePKc
 _ZSt24__throw_out_of_range_fmtPKcz _ZSt19__throw_logic_errorPKc _ZSt24__throw_invalid_argumentPKc
 _ZSt28__throw_bad_array_new_lengthv _ZSt25__throw_bad_function_callv __cxa_throw_bad_array_new_length
 __cxa_rethrow _ZSt16__throw_bad_castv _ZSt21__throw_runtime_errorPKc _ZSt20__throw_domain_errorPKc _Unwind_Resume
 __cxa_bad_cast'''.split():
    BUILTINS[n] = thrower(n)


@builtin('__cxa_atexit', 'atexit', '__cxa_thread_atexit')
def b_atexit(*a):
    return 0


@builtin('__cxa_guard_acquire')
def b_guard(g):
    return 0 if G.ldi(g, 1) else 1


@builtin('__cxa_guard_release')
def b_guardr(g):
    G.sti(g, 1, 1)
    if G.E.M.threads:
        import threads
        threads.release(g)


@builtin('__cxa_guard_abort', '__cxa_end_catch')
def b_nop(*a):
    return None


@builtin('__cxa_begin_catch')
def b_catch(p):
    return p


@builtin('__errno_location')
def b_errno():
    p = Pth()
    a = p.counter.get('errno')
    if a is None:
        a = new_addr(4, 'tls')
        G.sti(a, 4, 0)
        p.counter['errno'] = a
    return a


@builtin('time')
def b_time(p):
    return 1700000000


@builtin('clock')
def b_clock():
    return 0


@builtin('srand', 'srandom')
def b_srand(s):
    Pth().counter['srand'] = s


@builtin('rand')
def b_rand():
    return 0


@builtin('omp_get_wtime')
def b_wtime():
    return ZERO


@builtin('setenv', 'putenv')
def b_setenv(*a):
    return 0


for nm in ('sin', 'cos', 'tan', 'exp', 'exp2', 'exp10', 'log', 'log10', 'sqrt', 'fabs', 'floor', 'ceil', 'round', 'trunc', 'pow', 'atan',
           'atan2', 'acos', 'asin', 'sinh', 'cosh', 'cbrt', 'hypot', 'rint', 'copysign'):
    BUILTINS[nm] = getattr(G, 'X_' + nm)
BUILTINS['fmin'] = G.fminmax(False)
BUILTINS['fmax'] = G.fminmax(True)
BUILTINS['fmod'] = G.frem
BUILTINS['nearbyint'] = G.X_rint
BUILTINS['lround'] = lambda a: int(G.X_round(a)) & M64


@builtin('tanh')
def b_tanh(a):
    return G.fdiv(G.X_sinh(a), G.X_cosh(a))


@builtin('log2')
def b_log2(a):
    return G.fmul(G.X_log(a), T.rat(1 / math.log(2)))


@builtin('log1p')
def b_log1p(a):
    return G.X_log(G.fadd(a, ONE))


@builtin('expm1')
def b_expm1(a):
    return G.fadd(G.X_exp(a), -ONE)


# ------------------------------------------------------------------- vf_*
def nm_(a):
    b = cstr(a).decode('latin1')
    p = Pth()
    k = p.symcount.get(b, 0)
    p.symcount[b] = k + 1
    return b if k == 0 else '%s#%d' % (b, k)


def con(v, what):
    if v is UNDEF:
        raise Fault('uninit', 'uninitialised value in ' + what)
    if v.__class__ is Poly:
        raise PathEnd('unsupported', 'symbolic harness bound')
    return v


def draw(name, lo=None, hi=None, los=False, his=False):
    t = T.sym(name, lo, hi, los, his)
    Pth().draws.append(('r', t, name))
    return t


@builtin('vf_real')
def vf_real(n):
    return draw(nm_(n))


@builtin('vf_pos')
def vf_pos(n):
    return draw(nm_(n), ZERO, None, True)


@builtin('vf_nonneg')
def vf_nonneg(n):
    return draw(nm_(n), ZERO, None)


@builtin('vf_range')
def vf_range(n, lo, hi):
    return draw(nm_(n), con(lo, 'bound'), con(hi, 'bound'))


@builtin('vf_rangeo')
def vf_rangeo(n, lo, hi):
    return draw(nm_(n), con(lo, 'bound'), con(hi, 'bound'), True, True)


@builtin('vf_unit')
def vf_unit(n):
    return draw(nm_(n), ZERO, ONE, False, True)


@builtin('vf_choice')
def vf_choice(n, k):
    name = nm_(n)
    v = Pth().choose(s_(k, 32))
    Pth().draws.append(('i', v, name))
    return v


@builtin('vf_byte')
def vf_byte(n):
    """arbitrary byte 0..255"""
    p = Pth()
    name = nm_(n)
    v = len(p.bdom)
    p.bdom.append(tuple(range(256)))
    p.draws.append(('b', v, name))
    return SB(v, {b: b for b in range(256)})


@builtin('vf_uf')
def vf_uf(name, n, args):
    n = s_(n, 32)
    a = [G.ldf(args + 8 * i) for i in range(n)]
    if any(x is UNDEF for x in a):
        raise Fault('uninit', 'uninitialised function argument')
    t = T.uf(cstr(name).decode(), tuple(a))
    Pth().draws.append(('r', t, cstr(name).decode()))
    return t


@builtin('vf_ufr')
def vf_ufr(name, lo, hi, n, args):
    n = s_(n, 32)
    a = [G.ldf(args + 8 * i) for i in range(n)]
    if any(x is UNDEF for x in a):
        raise Fault('uninit', 'uninitialised function argument')
    t = T.uf(cstr(name).decode(), tuple(a), con(lo, 'b'), con(hi, 'b'), True, True)
    Pth().draws.append(('r', t, cstr(name).decode()))
    return t


@builtin('vf_assume')
def vf_assume(c):
    if c is UNDEF:
        raise Fault('uninit', 'assume')
    if c.__class__ is SB:
        p = Pth()
        p.bdom[c.v] = tuple(b for b in p.bdom[c.v] if c.t[b])
        c = p.bdom[c.v]
    if not c:
        raise PathEnd('assume')


@builtin('vf_assume_lt')
def vf_assume_lt(a, b):
    Pth().require(T.sub(b, a), '>')


@builtin('vf_assume_le')
def vf_assume_le(a, b):
    Pth().require(T.sub(b, a), '>=')


@builtin('vf_assume_ne')
def vf_assume_ne(a, b):
    Pth().require(T.sub(b, a), '!=')


@builtin('vf_symbolic')
def vf_symbolic():
    return 1


@builtin('vf_tier')
def vf_tier():
    return 1 if G.E.tier == 'thorough' else 0


@builtin('vf_reach')
def vf_reach(l):
    Pth().reach.add(cstr(l).decode())


@builtin('vf_log')
def vf_log(l, v):
    Pth().logs.append((cstr(l).decode(), v))


@builtin('vf_exit_ok')
def vf_exit_ok(v):
    Pth().exit_ok = s_(v, 32)


@builtin('vf_throw_ok')
def vf_throw_ok(v):
    Pth().throw_ok = bool(v)


@builtin('vf_live')
def vf_live():
    return Pth().heap_live & M64


@builtin('vf_is_heap')
def vf_is_heap(p):
    o = G.objs.get(p >> G.OBJSHIFT)
    return 1 if o is not None and o.alive else 0


@builtin('vf_file')
def vf_file(name, text):
    Pth().fs[fsname(cstr(name))] = cstrl(text)


@builtin('vf_file_get')
def vf_file_get(name, out_len):
    """content of an in-memory file; returns pointer or null"""
    p = Pth()
    n = fsname(cstr(name))
    d = p.fs.get(n)
    if d is None:
        return 0
    k = ('fileptr', n)
    a = p.counter.get(k)
    if a is None:
        a = new_addr(len(d) + 1, 'file')
        putt(a, d)
        p.counter[k] = a
    G.sti(out_len, 8, len(d))
    return a


@builtin('vf_disk')
def vf_disk(name):
    """make a real file of the repository visible to the in-memory file system"""
    n = cstr(name).decode()
    Pth().fs[fsname(n.encode())] = open(n, 'rb').read()


@builtin('vf_num')
def vf_num(v):
    """text of a number: placeholder token for symbolic values"""
    if v is UNDEF:
        raise Fault('uninit', 'vf_num')
    p = Pth()
    k = PH + 1 + len(p.ph)
    p.ph[k] = v
    s = b'%d' % k
    a = new_addr(len(s) + 1, 'num')
    putb(a, s + b'\0')
    return a


_num = re.compile(rb'[+-]?(?:[0-9]+\.?[0-9]*(?:[eE][+-]?[0-9]*)?|\.?[0-9]+(?:[eE][+-]?[0-9]*)?|\.?)')


@builtin('vf_scan')
def vf_scan(a, pos, n, val):
    """fast path of reading a number: index after it, or 0 when the slow path has to decide"""
    if pos.__class__ is not int or n.__class__ is not int or a.__class__ is not int:
        return 0
    m = min(n - pos, 60)
    if m <= 0:
        return 0
    o, off = G.obj_at(a + pos, m)
    if o.cells or o.raw is None or o.mask.find(0, off, off + m) >= 0:
        return 0
    t = _num.match(bytes(o.raw[off:off + m])).group(0)
    if not t or len(t) >= m - 1 and m == 60:
        return 0
    v, k = parse_double(t)
    if k != len(t):
        return 0
    G.stf(val, v)
    return pos + k


@builtin('vf_strtod')
def vf_strtod(s, end):
    return b_strtod(s, end)


@builtin('vf_isnum')
def vf_isnum(v):
    if v is UNDEF:
        raise Fault('uninit', 'value')
    return 0 if v.__class__ is float else 1


@builtin('vf_same')
def vf_same(a, b):
    """no-fork equality test used by harness bookkeeping: same canonical term"""
    if a is b or (a.__class__ is b.__class__ and a == b):
        return 1
    if a.__class__ is float or b.__class__ is float:
        return 0
    return 1 if T.is_zero(T.sub(a, b)) else 0


@builtin('vf_assert')
def vf_assert(c, l):
    import checks
    checks.do_assert(c, cstr(l).decode())


@builtin('vf_eq')
def vf_eq(a, b, l):
    import checks
    checks.do_eq(a, b, None, cstr(l).decode())


@builtin('vf_eqs')
def vf_eqs(a, b, s, l):
    import checks
    checks.do_eq(a, b, s, cstr(l).decode())


@builtin('vf_le')
def vf_le(a, b, l):
    import checks
    checks.do_le(a, b, False, cstr(l).decode())


@builtin('vf_lt')
def vf_lt(a, b, l):
    import checks
    checks.do_le(a, b, True, cstr(l).decode())


@builtin('vf_print')
def vf_print(l, v):
    print('vf_print', cstr(l).decode(), v)
