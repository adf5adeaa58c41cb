"""Symbolic interpreter for the compiler's GIMPLE of the Fortran kernels.

The sources in /repo are compiled by gfortran on every run with
-fdump-tree-cfg; the dumped control-flow graphs are executed with concrete
integers/control and symbolic reals.  A branch on a symbolic condition runs both
sides up to the immediate post-dominator and merges the states with ite terms,
so one execution covers all paths.  Every array access is bounds checked.
"""
import os, re, subprocess, hashlib
from fractions import Fraction
from . import sym
from .sym import R, B, lift, ite, smax, smin, tob, band, bor, bnot


class KernelFault(Exception):
    pass

class KernelStop(Exception):
    pass

class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ compile
def dump(sources, outdir, flags=()):
    """Compile sources (paths) with gfortran and return the dump texts."""
    os.makedirs(outdir, exist_ok=True)
    texts = []
    for s in sources:
        base = os.path.basename(s)
        cmd = ['gfortran', '-O0', '-c', '-fdump-tree-cfg-asmname', '-fdump-tree-gimple', '-J', outdir, '-I', outdir,
               '-fallow-argument-mismatch', *flags, s,
               '-o', os.path.join(outdir, base + '.o'), '-dumpbase', base, '-dumpdir', outdir + '/']
        p = subprocess.run(cmd, capture_output=True, text=True, cwd=outdir)
        if p.returncode:
            raise RuntimeError('gfortran failed on %s: %s' % (s, p.stderr[-1500:]))
        fn = [f for f in os.listdir(outdir) if f.startswith(base) and f.endswith('.cfg')]
        if not fn:
            raise RuntimeError('no GIMPLE dump for ' + s)
        with open(os.path.join(outdir, sorted(fn)[0])) as fh:
            tx = fh.read()
        gn = [f for f in os.listdir(outdir) if f.startswith(base) and f.endswith('.gimple')]
        if gn:
            # read-only constants passed by reference are only declared here
            with open(os.path.join(outdir, gn[0])) as fh:
                for m in re.finditer(r'(?m)^\s*(static [^\n]*\bC\.\d+(?:\[[^\]]*\])* = [^\n]*;)$', fh.read()):
                    tx += '\n;; CONST ' + m.group(1)
        # initial values of module variables, from the data section
        r = subprocess.run(['gfortran', '-O0', '-S', '-w', '-J', outdir, '-I', outdir, '-fallow-argument-mismatch',
                            *flags, s, '-o', '-'], capture_output=True, text=True, cwd=outdir)
        for n, v in asm_data(r.stdout):
            tx += '\n;; GLOBAL %s %s' % (n, v)
        texts.append(tx)
    return texts


def asm_data(asm):
    import struct
    for m in re.finditer(r'(?m)^(__\w+_MOD_\w+):\n((?:\t\.(?:long|quad|zero)\t[^\n]*\n)+)', asm):
        b = b''
        for d, a in re.findall(r'\.(long|quad|zero)\t(\S+)', m.group(2)):
            try:
                b += bytes(int(a)) if d == 'zero' else (int(a) & (2 ** 32 - 1 if d == 'long' else 2 ** 64 - 1)).to_bytes(4 if d == 'long' else 8, 'little')
            except ValueError:
                b = b''
                break
        if len(b) == 4:
            yield m.group(1), str(struct.unpack('<i', b)[0])
        elif len(b) == 8:
            yield m.group(1), repr(struct.unpack('<d', b)[0])


# ------------------------------------------------------------------ memory
class Mem:
    __slots__ = ('a', 'name', 'ro')
    def __init__(self, vals, name='', ro=False):
        self.a = vals
        self.name = name
        self.ro = ro
    def __repr__(self):
        return 'Mem(%s,%d)' % (self.name, len(self.a))

class Raw:
    """malloc'ed bytes, typed on first access"""
    __slots__ = ('nbytes', 'mem', 'name')
    def __init__(self, nbytes, name):
        self.nbytes, self.mem, self.name = nbytes, None, name

class Ptr:
    __slots__ = ('o', 'i')
    def __init__(self, o, i=0):
        self.o, self.i = o, i
    def __eq__(self, other):
        if other is None or isinstance(other, int):
            return False
        return self.o is other.o and self.i == other.i
    def __hash__(self):
        return id(self.o) ^ self.i
    def __repr__(self):
        return 'Ptr(%r,%s)' % (self.o, self.i)

class VarRef:
    """address of a local or module scalar / descriptor"""
    __slots__ = ('env', 'key')
    def __init__(self, env, key):
        self.env, self.key = env, key

NULL = None
class _Uninit:
    def __repr__(self):
        return 'UNINIT'
UNINIT = _Uninit()


class Machine:
    """Holds functions, globals and the write journal."""
    def __init__(self, texts, on_uninit=None):
        self.funcs = {}
        self.G = {}
        self.ext = {}
        self.journal = None      # stack of dicts {(kind,obj id,idx): (obj, idx, old)}
        self.pc = []             # symbolic branch conditions active
        self.faults = []         # (path condition list, message)
        self.on_uninit = on_uninit
        self.nsteps = 0
        self.encoded = set()
        self.uninit_reads = []
        self.ginit = {}
        for t in texts:
            for n, v in re.findall(r'(?m)^;; GLOBAL (\S+) (\S+)$', t):
                self.ginit[n] = int(v) if re.match(r'^-?\d+$', v) else R.const(float(v))
            t = re.sub(r'(?m)^;; GLOBAL .*$', '', t)
            for f in parse(t):
                self.funcs[f.name] = f
        self.G.update(self.ginit)

    # ---- journalled writes
    def setm(self, o, i, v):
        a = o.a
        if self.journal is not None:
            k = (id(o), i)
            if k not in self.journal:
                self.journal[k] = (o, i, a[i])
        a[i] = v

    def sete(self, env, k, v):
        env[k] = v

    # ---- loads/stores
    def load(self, p, i):
        o = p.o
        j = p.i + i
        if type(o) is Mem:
            if 0 <= j < len(o.a):
                v = o.a[j]
                if v is UNINIT:
                    return self.uninit(o, j)
                return v
            raise KernelFault('read outside array %s: index %d of %d' % (o.name, j, len(o.a)))
        return self.load_slow(o, j, i)

    def load_slow(self, o, j, i):
        if type(o) is VarRef:
            if j != 0:
                raise KernelFault('read outside scalar %s' % o.key)
            v = o.env.get(o.key, UNINIT)
            if v is UNINIT:
                return self.uninit_var(o.env, o.key)
            return v
        if type(o) is Raw:
            return self.load(Ptr(self.typed(o), 0), j)
        raise Unsupported('load from %r' % (o,))

    def typed(self, o, sz=8):
        if o.mem is None:
            if o.nbytes == 'freed':
                raise KernelFault('use of freed memory')
            o.mem = Mem([UNINIT] * (max(o.nbytes, 0) // sz), o.name)
        return o.mem

    def store(self, p, i, v):
        o = p.o
        j = p.i + i
        if type(o) is Mem:
            if 0 <= j < len(o.a):
                self.setm(o, j, v)
                return
            raise KernelFault('write outside array %s: index %d of %d' % (o.name, j, len(o.a)))
        if type(o) is VarRef:
            if j != 0:
                raise KernelFault('write outside scalar %s' % o.key)
            self.setvar(o.env, o.key, v)
            return
        if type(o) is Raw:
            self.store(Ptr(self.typed(o), 0), j, v)
            return
        raise Unsupported('store to %r' % (o,))

    def setvar(self, env, k, v):
        if self.journal is not None:
            kk = (id(env), k)
            if kk not in self.journal:
                self.journal[kk] = (env, k, env.get(k, UNINIT))
        env[k] = v

    def uninit(self, o, j):
        if self.on_uninit:
            v = self.on_uninit('%s[%d]' % (o.name, j))
            o.a[j] = v
            return v
        raise KernelFault('read of uninitialised %s[%d]' % (o.name, j))

    def uninit_var(self, env, k):
        if env is self.G and k.endswith('.data'):
            return NULL          # module arrays start unallocated
        if self.on_uninit:
            v = self.on_uninit(k)
            env[k] = v
            return v
        raise KernelFault('read of uninitialised variable %s' % k)

    # ---- calls
    def call(self, name, args):
        f = self.funcs.get(name)
        if f is None:
            e = self.ext.get(name)
            if e is not None:
                return e(self, *args)
            return self.builtin(name, args)
        return f.run(self, args)

    def callptr(self, fp, name, args):
        if callable(fp):
            return fp(self, *args)
        raise Unsupported('call through %r' % (name,))

    def builtin(self, name, args):
        if name.startswith('__builtin_'):
            name = name[10:]
        if name == 'stack_save':
            return NULL
        if name in ('malloc', 'alloca_with_align', 'alloca', 'calloc'):
            n = args[0] if name != 'calloc' else args[0] * args[1]
            return Ptr(Raw(n, 'heap'), 0)
        if name == 'realloc':
            new = Raw(args[1], 'heap')
            if args[0] is not NULL:
                old = args[0].o
                om = old.mem if type(old) is Raw else old
                if om is not None:
                    sz = 8 if type(old) is not Raw or not om.a else max(1, old.nbytes // len(om.a))
                    nm = self.typed(new, sz)
                    k = min(len(om.a), len(nm.a))
                    nm.a[:k] = om.a[:k]
            return Ptr(new, 0)
        if name == 'free':
            p = args[0]
            if p is not NULL:
                o = p.o
                if type(o) is Raw:
                    if o.nbytes == 'freed':
                        raise KernelFault('double free')
                    if o.mem is not None:
                        o.mem.a = []
                        o.mem.name = 'freed memory'
                    o.nbytes = 'freed'
            return None
        if name == 'stack_restore':
            return None
        if name == '_gfortran_internal_pack':
            idx, data, cont = self.desc(args[0])
            if cont:
                return data
            return Ptr(Mem([self.load_raw(data, i) for i in idx], 'packed'), 0)
        if name == '_gfortran_internal_unpack':
            idx, data, cont = self.desc(args[0])
            for k, i in enumerate(idx):
                self.store(data, i, self.load_raw(args[1], k))
            return None
        if name in ('copysign', '.COPYSIGN', 'COPYSIGN'):
            x, y = args
            m = abs(lift(x)) if isinstance(x, R) or isinstance(y, R) else abs(x)
            if isinstance(y, R):
                return ite(y >= 0, m, -lift(m))
            return m if y >= 0 else -m
        if name == 'sqrt':
            x = args[0]
            return lift(x).sqrt() if isinstance(x, R) else x ** 0.5
        if name == 'fabs':
            return abs(args[0])
        if name in ('powi', 'pow', '_gfortran_pow_r8_i8', '_gfortran_pow_r8_i4', '_gfortran_pow_i4_i4'):
            return self._pow(args[0], args[1])
        if name in ('fmax', 'fmin'):
            return (smax if name.endswith('max') else smin)(*args)
        if name in ('memcpy', 'memmove'):
            d, s, n = args
            vals = [self.load_raw(s, k) for k in range(n // 8)]
            for k, v in enumerate(vals):
                self.store(d, k, v)
            return d
        if name == 'memset':
            d, v, n = args
            for k in range(n // 8):
                self.store(d, k, sym.ZERO)
            return d
        if name.startswith('_gfortran_stop') or name.startswith('_gfortran_error_stop') or name == 'abort':
            raise KernelStop('program stop')
        if name.startswith('_gfortran_runtime_error') or name.startswith('_gfortran_os_error'):
            raise KernelFault('Fortran runtime error')
        if name.startswith('_gfortran_st_') or name.startswith('_gfortran_transfer'):
            return None
        raise Unsupported('call to ' + name)

    def desc(self, p):
        """element offsets (relative to data), data pointer, contiguous?"""
        env, k = p.o.env, p.o.key
        dims = []
        n = 0
        while '%s.dim[%d].stride' % (k, n) in env:
            lb = env.get('%s.dim[%d].lbound' % (k, n), 1)
            dims.append((env['%s.dim[%d].ubound' % (k, n)] - lb + 1, env['%s.dim[%d].stride' % (k, n)]))
            n += 1
        idx = [0]
        for ext, st in dims:
            idx = [i + j * st for j in range(max(ext, 0)) for i in idx]
        return idx, env[k + '.data'], idx == list(range(len(idx)))

    def load_raw(self, p, i):
        """copying an undefined value is not a use of it"""
        o, j = p.o, p.i + i
        if type(o) is Mem and 0 <= j < len(o.a):
            return o.a[j]
        return self.load(p, i)

    def _pow(self, x, n):
        if isinstance(n, R):
            if not n.is_const():
                raise Unsupported('symbolic exponent')
            n = n.cval()
        return lift(x) ** n if isinstance(x, R) else x ** (int(n) if n == int(n) else n)


# ------------------------------------------------------------------ parsing
_FUN = re.compile(r'^;; Function (\S+) \((\S+), funcdef_no')
_TY = r'(?:real\(kind=\d+\)|integer\(kind=\d+\)|logical\(kind=\d+\)|character\(kind=\d+\)|sizetype|bitsizetype|void|struct [\w.]+|complex\(kind=\d+\)|unsigned \w+|signed \w+|_Bool)'

def parse(text):
    consts = re.findall(r'(?m)^;; CONST (.*)$', text)
    text = re.sub(r'(?m)^;; CONST .*$', '', text)
    parts = re.split(r'(?m)^;; Function ', text)
    out = []
    for p in parts[1:]:
        m = re.match(r'(\S+) \((\S+), funcdef_no', p)
        f = Func(m.group(1), p, m.group(2))
        for c in consts:
            n = re.search(r'\b(C\.\d+)\b', c).group(1)
            if re.search(re.escape(n) + r'\b', p):
                f.decl(c)
        out.append(f)
    return out


def split_args(s):
    out, d, cur, q = [], 0, '', False
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            cur += c
            if c == '\\':
                cur += s[i + 1]; i += 1
            elif c == '"':
                q = False
        elif c == '"':
            q = True; cur += c
        elif c in '([{<':
            d += 1; cur += c
        elif c in ')]}>' and not (c == '>' and cur.endswith('-')):
            d -= 1; cur += c
        elif c == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


class Func:
    def __init__(self, name, text, asm=None):
        self.name = asm or name
        m = re.search(r'(?ms)^([^\n]*)\n\{\n(.*?)^\}', text)
        if not m:
            raise Unsupported('cannot parse function ' + name)
        sig, body = m.group(1), m.group(2)
        m = re.match(r'^(.*?)\b' + re.escape(name) + r' \((.*)\)$', sig)
        if not m:
            raise Unsupported('cannot parse signature ' + sig)
        self.ret = m.group(1).strip()
        self.params = []
        self.types = {}
        for a in split_args(m.group(2)):
            mm = re.search(r'([\w.]+)$', a)
            if '(*' in a or 'void (' in a:
                mm = re.search(r'\b(\w+)$', a)
            if a == 'void':
                continue
            self.params.append(mm.group(1))
            self.types[mm.group(1)] = a[:mm.start()].strip()
        self.local = set(self.params)
        self.arrays = {}
        self.static_arrays = {}
        self.static_init = {}
        k = body.find('\n  <bb ')
        head = body[:k] if k >= 0 else body
        if body.startswith('  <bb '):
            head = ''
        for line in head.split('\n'):
            line = line.strip()
            if not line or line.startswith('{') or line.startswith('}'):
                continue
            self.decl(line)
        self.blocks = {}
        self.labels = {}
        cur = None
        lines = body[len(head):].split('\n')
        for line in lines:
            s = line.strip()
            if not s or s.startswith('//'):
                continue
            mb = re.match(r'<bb (\d+)> ?:', s)
            if mb:
                cur = int(mb.group(1))
                self.blocks[cur] = []
                continue
            ml = re.match(r'^(<?[\w.]+>?):$', s)
            if ml and cur is not None and not s.endswith(';'):
                self.labels[ml.group(1)] = cur
                continue
            if s.startswith('['):
                continue
            if cur is None:
                self.decl(s)
                continue
            self.blocks[cur].append(s)
        self.code = None

    def decl(self, line):
        m = re.match(r'^(static )?(.+?[ *&])([\w.]+)((?:\[[^\]]*\])*)( \[value-expr: [^\]]*\])?( = .*)?;$', line)
        if not m:
            return
        static, ty, name, dims, vex, init = m.groups()
        if vex:
            return
        ty = ty.strip()
        # array types print as "real(kind=8) a[3]" or "real(kind=8)[3] a"
        md = re.findall(r'\[([^\]]*)\]', dims or '')
        mt = re.search(r'\[([^\]]*)\]\s*$', ty)
        self.local.add(name)
        self.types[name] = ty
        n = None
        if md and not ty.endswith('*') and not ty.endswith('&'):
            try:
                n = 1
                for d in md:
                    n *= int(d) if ':' not in d else int(d.split(':')[1]) + 1
            except ValueError:
                n = None
        elif mt and not ty.endswith('*'):
            try:
                d = mt.group(1)
                n = int(d) if ':' not in d else int(d.split(':')[1]) + 1
            except ValueError:
                n = None
        if n is not None:
            self.arrays[name] = n
            self.static_arrays[name] = (ty, n, init)
            if init:
                vals = re.findall(r'[-+]?\d[\d.eE+-]*', init.split('{', 1)[1]) if '{' in init else []
                self.static_init[name] = [num(v) for v in vals]
        elif init and static:
            self.static_init[name] = num(init[3:].rstrip(';'))

    # -------------------------------------------------------- compile blocks
    def prepare(self):
        self.succ = {}
        self.term = {}
        self.src = {}
        order = sorted(self.blocks)
        for b in order:
            st = self.blocks[b]
            code = []
            term = None
            i = 0
            while i < len(st):
                s = st[i]
                m = re.match(r'^if \((.*)\)$', s)
                if m:
                    g1 = re.match(r'goto <bb (\d+)>', st[i + 1])
                    g2 = re.match(r'goto <bb (\d+)>', st[i + 3])
                    term = ('if', self.cond(m.group(1)), int(g1.group(1)), int(g2.group(1)))
                    i += 4
                    continue
                m = re.match(r'^goto <bb (\d+)>;', s)
                if m:
                    term = ('goto', int(m.group(1)))
                    i += 1
                    continue
                m = re.match(r'^switch \((.*?)\) <(.*)>$', s)
                if m:
                    cs = []
                    default = None
                    for part in split_args(m.group(2)):
                        lab, tgt = part.split(':', 1)
                        tgt = re.sub(r'\[[^\]]*\]', '', tgt).strip()
                        if lab.strip() == 'default':
                            default = tgt
                        else:
                            v = lab.replace('case', '').strip()
                            if '...' in v:
                                a, c = v.split('...')
                                cs.append((int(a), int(c), tgt))
                            else:
                                cs.append((int(v), int(v), tgt))
                    term = ('switch', self.val(m.group(1)), cs, default)
                    i += 1
                    continue
                m = re.match(r'^return(?: (.*))?;$', s)
                if m:
                    term = ('ret', self.val(m.group(1)) if m.group(1) else 'None')
                    i += 1
                    continue
                c = self.stmt(s)
                if c:
                    code.append(c)
                i += 1
            if term is None:
                nxt = [x for x in order if x > b]
                term = ('goto', nxt[0]) if nxt else ('ret', 'None')
            if term[0] == 'switch':
                term = ('switch', term[1], [(a, c, self.labels[t]) for a, c, t in term[2]],
                        self.labels[term[3]])
            self.term[b] = term
            self.succ[b] = {'if': lambda t: [t[2], t[3]], 'goto': lambda t: [t[1]],
                            'switch': lambda t: [x[2] for x in t[2]] + [t[3]],
                            'ret': lambda t: []}[term[0]](term)
            self.src[b] = code
        # python code: one function per block
        env = dict(GLOBALS)
        self.fn = {}
        lines = []
        for b in order:
            lines.append('def bb_%d(M, E, G):' % b)
            for c in self.src[b]:
                lines.append('    ' + c)
            t = self.term[b]
            if t[0] == 'if':
                lines.append('    return ' + t[1])
            elif t[0] == 'switch':
                lines.append('    return ' + t[1])
            elif t[0] == 'ret':
                lines.append('    return ' + t[1])
            else:
                lines.append('    return None')
        exec(compile('\n'.join(lines), '<gimple:%s>' % self.name, 'exec'), env)
        for b in order:
            self.fn[b] = env['bb_%d' % b]
        self.ipdom = postdom(self.succ)
        self.code = True

    # -------------------------------------------------------- expressions
    def isint(self, e):
        e = e.strip()
        if re.match(r'^-?\d+$', e):
            return True
        t = self.types.get(e)
        if t is None:
            m = re.match(r'^(.*)_(\d+)$', e)
            if m:
                t = self.types.get(m.group(1))
        return bool(t) and (t.startswith('integer') or 'sizetype' in t or t.startswith('logical') or t.startswith('unsigned') or t.startswith('_Bool'))

    def key(self, name):
        """-> ('E' or 'G', key)"""
        base = name
        if base in self.local:
            return 'E', base
        # descriptor field of a local struct, SSA name, D.xxxx
        b = re.split(r'\.(?:data|offset|dtype|span|dim|common|elem_len|rank|type)\b', base)[0]
        b = re.sub(r'\[.*$', '', b)
        if b in self.local or re.match(r'^_\d+$', b) or re.match(r'^D\.\d+$', b) or re.match(r'^.*_\d+$', b):
            return 'E', base
        m = re.match(r'^([\w.]+?)\.', base)
        return 'G', base

    def val(self, e):
        e = e.strip()
        if re.match(r'^-?\d+$', e):
            return e
        if re.match(r'^-?\d+B$', e):
            return 'None' if e == '0B' else e[:-1]
        if re.match(r'^[-+]?\d+\.\d*(e[-+]?\d+)?$', e) or re.match(r'^[-+]?\d+e[-+]?\d+$', e):
            return 'C(%r)' % e
        if re.match(r'^[-+]? *Inf$', e):
            return "float('%sinf')" % ('-' if e[0] == '-' else '')
        if re.match(r'^[-+]? *(Nan|Inf)', e):
            return 'noconst(%r)' % e
        if e.startswith('((') and e.endswith('))'):
            return self.val(e[2:-2])
        m = re.match(r'^\((%s(?: ?[\[\]\d:.\w]* ?[*&]?(?: restrict)?)?)\) (.*)$' % _TY, e)
        if m:
            return self.cast(m.group(1), m.group(2))
        if e.startswith('&"'):
            return '"str"'
        if e.startswith('&'):
            return self.addr(e[1:])
        m = re.match(r'^\(\*([\w.]+)\)\[(.*)\]$', e)
        if m:
            return 'M.load(%s, %s)' % (self.rd(m.group(1)), self.val(m.group(2)))
        m = re.match(r'^MEM(?: <[^>]*>)? \[\(.*?\)([\w.]+)\](?:\[(.*)\])?$', e)
        if m:
            return 'M.load(%s, %s)' % (self.rd(m.group(1)), self.val(m.group(2)) if m.group(2) else '0')
        m = re.match(r'^\*([\w.]+)$', e)
        if m:
            return 'M.load(%s, 0)' % self.rd(m.group(1))
        m = re.match(r'^([\w.]+)->(.*)$', e)
        if m:
            return 'field(M, %s, %r)' % (self.rd(m.group(1)), m.group(2))
        m = re.match(r'^([\w.]+)\[([^\]]+)\]$', e)
        if m:
            return 'M.load(%s, %s)' % (self.arr(m.group(1)), self.val(m.group(2)))
        if re.match(r'^[\w.]+(\[\d+\])?(\.[\w.\[\]]+)?$', e):
            return self.rd(e)
        raise Unsupported('expression ' + e)

    def arr(self, name):
        e, k = self.key(name)
        return 'getarr(M, %s, %r)' % (e, k)

    def rd(self, name):
        e, k = self.key(name)
        return 'rd(M, %s, %r)' % (e, k) if e == 'G' or not re.match(r'^(_\d+|.*_\d+)$', k) else 'E[%r]' % k

    def addr(self, e):
        m = re.match(r'^\(\*([\w.]+)\)\[(.*)\]$', e)
        if m:
            return 'padd(%s, %s)' % (self.rd(m.group(1)), self.val(m.group(2)))
        m = re.match(r'^MEM(?: <[^>]*>)? \[\(.*?\)([\w.]+)\](?:\[(.*)\])?$', e)
        if m:
            return 'padd(%s, %s)' % (self.rd(m.group(1)), self.val(m.group(2)) if m.group(2) else '0')
        m = re.match(r'^([\w.]+)\[([^\]]+)\]$', e)
        if m:
            return 'padd(%s, %s)' % (self.arr(m.group(1)), self.val(m.group(2)))
        if e in self.arrays:
            return self.arr(e)
        ee, k = self.key(e)
        return 'Ptr(VarRef(%s, %r), 0)' % (ee, k)

    def cast(self, ty, e):
        v = self.val(e)
        if ty.startswith('real') and '*' not in ty:
            return 'toreal(%s)' % v
        if ty.startswith(('logical', '_Bool')) and '*' not in ty:
            return 'tolog(%s)' % v
        if (ty.startswith('integer') or 'sizetype' in ty or ty.startswith('unsigned')) and '*' not in ty:
            return 'toint(%s)' % v
        return v

    def cond(self, c):
        m = re.match(r'^(.*?) (==|!=|<=|>=|<|>) (.*)$', c.strip())
        if not m:
            raise Unsupported('condition ' + c)
        a, op, b = m.groups()
        if op in ('==', '!=') and b.strip() == '0B':
            return '(%s is %sNone)' % (self.val(a), 'not ' if op == '!=' else '')
        return '(%s %s %s)' % (self.val(a), op, self.val(b))

    def rhs(self, e):
        e = e.strip()
        m = re.match(r'^(MAX_EXPR|MIN_EXPR) <(.*)>$', e)
        if m:
            a, b = split_args(m.group(2))
            f = 'gmax' if m.group(1) == 'MAX_EXPR' else 'gmin'
            return '%s(%s, %s)' % (f, self.val(a), self.val(b))
        m = re.match(r'^ABS_EXPR <(.*)>$', e)
        if m:
            return 'abs(%s)' % self.val(m.group(1))
        if e.startswith('{'):
            return None
        # call
        m = re.match(r'^([\w.]+) \((.*)\)$', e)
        if m and not e.startswith('('):
            return self.callx(m.group(1), m.group(2))
        m = re.match(r'^-([\w.].*)$', e)
        if m and not re.match(r'^-\d', e):
            return '(-%s)' % self.val(m.group(1))
        m = re.match(r'^~(.*)$', e)
        if m:
            ty = self.types.get(m.group(1).strip(), '')
            return '%s(%s)' % ('lnot' if ty.startswith(('logical', '_Bool')) else 'inv', self.val(m.group(1)))
        m = re.match(r'^!(.*)$', e)
        if m:
            return 'lnot(%s)' % self.val(m.group(1))
        if not (e.startswith('(') and not e.startswith('(*')) and not e.startswith('MEM') and not e.startswith('&'):
            m = re.match(r'^(\S+|\(\*\S+\)\[\S+\]) (\+|-|\*|/|%|<<|>>|&|\||\^|==|!=|<=|>=|<|>|\*\*|&&|\|\|) (\S+)$', e)
            if m:
                a, op, b = m.groups()
                if op in ('==', '!=', '<=', '>=', '<', '>'):
                    return self.cond(e).join(['logi(', ')'])
                if op == '/':
                    if self.isint(a) and self.isint(b):
                        return 'idiv(%s, %s)' % (self.val(a), self.val(b))
                    return 'fdiv(%s, %s)' % (self.val(a), self.val(b))
                if op == '%':
                    return 'imod(%s, %s)' % (self.val(a), self.val(b))
                if op in ('&', '|', '^', '&&', '||'):
                    return 'bitop(%r, %s, %s)' % (op[0], self.val(a), self.val(b))
                ta = self.types.get(a, '')
                if op == '+' and ('*' in ta or '&' in ta):
                    return 'badd(%s, %s, %d)' % (self.val(a), self.val(b), 4 if 'kind=4' in ta else 8)
                return '(%s %s %s)' % (self.val(a), op, self.val(b))
            m = re.match(r'^(\S+) (w\*|r<<|r>>|\+) (.*)$', e)
        return self.val(e)

    def callx(self, fn, args):
        al = ', '.join(self.val(a) for a in split_args(args))
        if fn in self.params:
            return 'M.callptr(E[%r], %r, [%s])' % (fn, fn, al)
        if fn in self.local or re.match(r'^(_\d+|D\.\d+)$', fn):
            return 'M.callptr(%s, %r, [%s])' % (self.rd(fn), fn, al)
        return 'M.call(%r, [%s])' % (fn, al)

    def stmt(self, s):
        if s.endswith(';'):
            s = s[:-1]
        if s in ('', 'GIMPLE_NOP') or s.startswith('# ') or s.startswith('__builtin_unreachable'):
            return ''
        if '{CLOBBER' in s:
            return ''
        if re.match(r'^_gfortran_(st_|transfer)\w* \(', s):
            return ''
        m = None if re.match(r'^[\w.]+ \(', s) else re.match(r'^(.*?) = (.*)$', s)
        if m and not re.match(r'^[\w.]+ \(.*\)$', s.split(' = ')[0]):
            lhs, e = m.groups()
            if re.match(r'^dt_parm', lhs):
                return ''
            if re.match(r'^[\w.]+$', lhs) and re.match(r'^[\w.]+$', e) and ('array' in self.types.get(lhs, '') or 'array' in self.types.get(e, '')) \
                    and not self.types.get(lhs, '').endswith(('*', '&')) and not re.search(r'\.(data|offset|dtype|span|dim)\b', lhs + e):
                a, b = self.key(lhs), self.key(e)
                return 'copydesc(M, %s, %r, %s, %r)' % (a[0], a[1], b[0], b[1])
            r = self.rhs(e)
            if r is None:
                if e.startswith('{}'):
                    return ''
                raise Unsupported('statement ' + s)
            return self.assign(lhs.strip(), r)
        m = re.match(r'^([\w.]+) \((.*)\)$', s)
        if m:
            if m.group(1).startswith('_gfortran_st_') or m.group(1).startswith('_gfortran_transfer'):
                return ''
            return self.callx(m.group(1), m.group(2))
        raise Unsupported('statement ' + s)

    def assign(self, lhs, r):
        ty = self.types.get(lhs.lstrip('*'), '')
        if ty.startswith(('logical', '_Bool')) and '[' not in ty and (lhs.startswith('*') or not ty.rstrip(' restrict').endswith(('*', '&'))):
            r = 'tolog(%s)' % r
        m = re.match(r'^\(\*([\w.]+)\)\[(.*)\]$', lhs)
        if m:
            return 'M.store(%s, %s, %s)' % (self.rd(m.group(1)), self.val(m.group(2)), r)
        m = re.match(r'^MEM(?: <[^>]*>)? \[\(.*?\)([\w.]+)\](?:\[(.*)\])?$', lhs)
        if m:
            return 'M.store(%s, %s, %s)' % (self.rd(m.group(1)), self.val(m.group(2)) if m.group(2) else '0', r)
        m = re.match(r'^\*([\w.]+)$', lhs)
        if m:
            return 'M.store(%s, 0, %s)' % (self.rd(m.group(1)), r)
        m = re.match(r'^([\w.]+)->(.*)$', lhs)
        if m:
            return 'setfield(M, %s, %r, %s)' % (self.rd(m.group(1)), m.group(2), r)
        m = re.match(r'^([\w.]+)\[([^\]]+)\]$', lhs)
        if m:
            return 'M.store(%s, %s, %s)' % (self.arr(m.group(1)), self.val(m.group(2)), r)
        e, k = self.key(lhs)
        if e == 'E' and re.match(r'^(_\d+|.*_\d+)$', k) and '[' not in k and k not in self.local:
            return 'E[%r] = %s' % (k, r)
        if e == 'E' and re.match(r'^_\d+$', k):
            return 'E[%r] = %s' % (k, r)
        return 'M.setvar(%s, %r, %s)' % (e, k, r)

    # -------------------------------------------------------- execution
    def run(self, M, args):
        if self.code is None:
            self.prepare()
        M.encoded.add(self.name)
        E = {}
        if len(args) < len(self.params):
            args = list(args) + [NULL] * (len(self.params) - len(args))
        for p, a in zip(self.params, args):
            E[p] = a
        for n, size in self.arrays.items():
            E[n] = Ptr(Mem([UNINIT] * size, '%s.%s' % (self.name, n)), 0)
            if n in self.static_init:
                vals = self.static_init[n]
                E[n].o.a[:len(vals)] = vals
        for n, v in self.static_init.items():
            if n not in self.arrays:
                E[n] = v
        r = self.exec(M, E, min(self.blocks), None)
        return r[1] if r[0] == 'ret' else None

    def exec(self, M, E, b, stop):
        fn, term, G = self.fn, self.term, M.G
        while b != stop:
            r = fn[b](M, E, G)
            t = term[b]
            k = t[0]
            if k == 'goto':
                b = t[1]
            elif k == 'if':
                if isinstance(r, B):
                    c = r.cst()
                    if c is None:
                        c = M.decide(r)
                    if c is None:
                        p = self.ipdom.get(b)
                        x = self.fork(M, E, r, t[2], t[3], p)
                        if x is not None:
                            return x
                        b = p
                        continue
                    r = c
                b = t[2] if r else t[3]
            elif k == 'switch':
                if isinstance(r, R):
                    r = int(r.cval()) if r.is_const() else None
                    if r is None:
                        raise Unsupported('switch on symbolic value')
                for lo, hi, tgt in t[2]:
                    if lo <= r <= hi:
                        b = tgt
                        break
                else:
                    b = t[3]
            else:
                return ('ret', r)
        return ('stop', None)

    def fork(self, M, E, c, bt, bf, p):
        """Both sides up to block p, merged; p None: both run to return."""
        outer = M.journal
        saveE = dict(E)
        res = []
        for cond, tgt in ((c, bt), (bnot(c), bf)):
            M.journal = {}
            M.pc.append(cond)
            dead = None
            r = None
            try:
                r = self.exec(M, E, tgt, p)
            except (KernelFault, KernelStop) as e:
                dead = e
                M.faults.append((list(M.pc), e))
            M.pc.pop()
            new = {k: (o, i, (o.a[i] if type(o) is Mem else o.get(i, UNINIT))) for k, (o, i, old) in M.journal.items()}
            old = M.journal
            # undo
            for k, (o, i, v) in old.items():
                if type(o) is Mem:
                    o.a[i] = v
                elif v is UNINIT:
                    o.pop(i, None)
                else:
                    o[i] = v
            E1 = dict(E)
            E.clear()
            E.update(saveE)
            res.append((dead, r, new, E1))
        M.journal = outer
        (d1, r1, n1, E1), (d2, r2, n2, E2) = res
        if d1 is not None and d2 is not None:
            raise KernelFault('all paths fail: %s / %s' % (d1, d2))
        if d1 is not None or d2 is not None:
            r, n, En = (r2, n2, E2) if d1 is not None else (r1, n1, E1)
            for k, (o, i, v) in n.items():
                if type(o) is Mem:
                    M.setm(o, i, v)
                else:
                    M.setvar(o, i, v)
            for k, v in En.items():
                if (id(E), k) not in n and (k not in E or E[k] is not v):
                    E[k] = v
            return r if p is None else None
        # memory
        for k in set(n1) | set(n2):
            o, i, _ = n1.get(k) or n2.get(k)
            cur = o.a[i] if type(o) is Mem else o.get(i, UNINIT)
            v1 = n1[k][2] if k in n1 else cur
            v2 = n2[k][2] if k in n2 else cur
            v = M.merge(c, v1, v2)
            if type(o) is Mem:
                M.setm(o, i, v)
            else:
                M.setvar(o, i, v)
        # SSA temporaries
        for k in set(E1) | set(E2):
            if (id(E), k) in n1 or (id(E), k) in n2:
                continue            # journalled variable: merged above
            v1, v2 = E1.get(k, UNINIT), E2.get(k, UNINIT)
            if v1 is v2:
                if k not in E or E[k] is not v1:
                    E[k] = v1
                continue
            try:
                E[k] = M.merge(c, v1, v2)
            except Unsupported:
                E[k] = UNINIT
        if p is None:
            a, b = r1[1] if r1 else None, r2[1] if r2 else None
            return ('ret', M.merge(c, a, b) if a is not None else None)
        return None


def _merge(self, c, a, b):
    if a is b:
        return a
    if a is UNINIT:
        return b            # value undefined on one side only: dead there
    if b is UNINIT:
        return a
    if isinstance(a, (R, B)) or isinstance(b, (R, B)):
        return ite(c, a, b)
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        if a == b:
            return a
        if isinstance(a, int) and isinstance(b, int):
            if set((a, b)) <= {0, 1}:
                return c if a else bnot(c)
            raise Unsupported('integer depends on symbolic data')
        return ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a == b:
        return a
    raise Unsupported('cannot merge %r and %r' % (a, b))
Machine.merge = _merge

def _decide(self, c):
    """hook: try to settle a branch from the path condition"""
    return None
Machine.decide = _decide


def postdom(succ):
    """immediate post-dominators (None = exit)"""
    EX = 'exit'
    nodes = list(succ)
    S = {n: (succ[n] or [EX]) for n in nodes}
    pd = {n: None for n in nodes}
    full = set(nodes) | {EX}
    D = {n: set(full) for n in nodes}
    D[EX] = {EX}
    ch = True
    order = sorted(nodes, reverse=True)
    while ch:
        ch = False
        for n in order:
            new = set.intersection(*[D[s] for s in S[n]]) | {n}
            if new != D[n]:
                D[n] = new
                ch = True
    for n in nodes:
        cand = D[n] - {n}
        # immediate: the one post-dominated by all the others
        best = None
        for x in cand:
            if all(y in D[x] for y in cand):
                best = x
                break
        pd[n] = None if best in (EX, None) else best
    return pd


# ------------------------------------------------------------------ helpers
CONC = [False]
def num(s):
    s = s.strip()
    if re.match(r'^[-+]?\d+$', s):
        return int(s)
    return C(s)

_C = {}
def noconst(e):
    raise Unsupported('constant ' + e)

def C(s):
    v = _C.get(s)
    if v is None:
        v = _C[s] = R.const(float(s))
    return float(s) if CONC[0] else v

def rd(M, E, k):
    v = E.get(k, UNINIT)
    if v is UNINIT:
        return M.uninit_var(E, k)
    return v

def badd(p, n, sz):
    if not isinstance(p, Ptr):
        return p + n
    if n % sz:
        raise Unsupported('unaligned pointer')
    return Ptr(p.o, p.i + n // sz)

def padd(p, i):
    if p is None:
        raise KernelFault('null pointer')
    return Ptr(p.o, p.i + i)

def getarr(M, E, k):
    return E[k]

def copydesc(M, E, k, E2, k2):
    for x in list(E2):
        if type(x) is str and x.startswith(k2 + '.'):
            M.setvar(E, k + x[len(k2):], E2[x])

def field(M, p, f):
    o = p.o
    if type(o) is VarRef:
        v = o.env.get(o.key + '.' + f, UNINIT)
        if v is UNINIT:
            raise KernelFault('uninitialised descriptor field %s.%s' % (o.key, f))
        return v
    raise Unsupported('field of %r' % (o,))

def setfield(M, p, f, v):
    o = p.o
    if type(o) is VarRef:
        M.setvar(o.env, o.key + '.' + f, v)
        return
    raise Unsupported('field of %r' % (o,))

def toreal(v):
    if isinstance(v, (R, float)):
        return v
    if isinstance(v, int):
        return float(v) if CONC[0] else R.const(v)
    return lift(v)

def toint(v):
    if isinstance(v, bool):
        return int(v)
    if type(v) is int:
        return v
    if isinstance(v, R):
        if v.is_const():
            return int(v.cval())
        raise Unsupported('integer from symbolic real')
    if isinstance(v, float):
        return int(v)
    return v

def idiv(a, b):
    if b == 0:
        raise KernelFault('integer division by zero')
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q

def imod(a, b):
    return a - b * idiv(a, b)

def fdiv(a, b):
    if isinstance(b, R):
        if not b.t:
            raise KernelFault('division by zero')
        return a / b
    if isinstance(a, int) and isinstance(b, int):
        return idiv(a, b)
    if isinstance(b, float) and b == 0.0:
        return float('nan') if a == 0 or a != a else (float('inf') if a > 0 else float('-inf'))
    return a / b

def inv(a):
    if isinstance(a, B):
        return bnot(a)
    if isinstance(a, bool):
        return not a
    return ~a

def tolog(a):
    if isinstance(a, int):
        return bool(a)
    return a

def lnot(a):
    if isinstance(a, B):
        return bnot(a)
    return not a

def logi(c):
    if isinstance(c, B):
        k = c.cst()
        return c if k is None else bool(k)
    return bool(c)

def bitop(op, a, b):
    if isinstance(a, B) or isinstance(b, B):
        a, b = tob(a), tob(b)
        r = {'&': band, '|': bor}[op](a, b) if op != '^' else (a ^ b)
        k = r.cst()
        return r if k is None else bool(k)
    return {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}[op]()

def gmax(a, b):
    if isinstance(a, R) or isinstance(b, R):
        return smax(a, b)
    return a if a >= b else b

def gmin(a, b):
    if isinstance(a, R) or isinstance(b, R):
        return smin(a, b)
    return a if a <= b else b

GLOBALS = dict(rd=rd, badd=badd, copydesc=copydesc, padd=padd, getarr=getarr, field=field, setfield=setfield, toreal=toreal, toint=toint,
               idiv=idiv, imod=imod, fdiv=fdiv, inv=inv, lnot=lnot, logi=logi, tolog=tolog, bitop=bitop, gmax=gmax,
               gmin=gmin, C=C, Ptr=Ptr, VarRef=VarRef, abs=abs)
