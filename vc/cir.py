"""Reads the LLVM IR clang makes of a C file of /repo (on every run) into plain Python objects."""
import re, os, subprocess, tempfile, shutil
from ctx import BuildError, BUILD

CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'


def compile_ir(src, incdir, mem2reg=True, text=None):
    """src: a C file (or the text of one, to be placed beside it); returns the IR text"""
    os.makedirs(BUILD, exist_ok=True)
    d = tempfile.mkdtemp(dir=BUILD)
    try:
        f = src
        if text is not None:
            f = os.path.join(d, os.path.basename(src))
            open(f, 'w').write(text)
        o = os.path.join(d, 'o.ll')
        r = subprocess.run([CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g0', '-w', '-D__NO_CTYPE', '-S', '-emit-llvm', '-I', incdir, '-o', o, f], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('clang: ' + r.stderr[-2000:])
        if mem2reg:
            o2 = os.path.join(d, 'o2.ll')
            r = subprocess.run([OPT, '-S', '-passes=mem2reg,instsimplify', o, '-o', o2], capture_output=True, text=True)
            if r.returncode:
                raise BuildError('opt: ' + r.stderr[-2000:])
            o = o2
        return open(o).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


class I:
    """one instruction"""
    __slots__ = ('op', 'res', 'ty', 'a', 'text')

    def __init__(self, op, res, ty, a, text):
        self.op, self.res, self.ty, self.a, self.text = op, res, ty, a, text

    def __repr__(self):
        return self.text


class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.ret = None
        self.blocks = {}
        self.order = []


class Mod:
    def __init__(self):
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()


TOK = re.compile(r'c"(?:[^"\\]|\\.)*"|%"[^"]*"|@"[^"]*"|[%@!#][-\w.$]+|"(?:[^"\\]|\\.)*"|\.\.\.|-?\d+\.\d+e[+-]\d+|0x[0-9A-Fa-f]+|-?\d+|\w+|[\[\]{}()<>,=*]|.')


def toks(s):
    return [t for t in TOK.findall(s) if not t.isspace()]


class P:
    def __init__(self, ts):
        self.t, self.i = ts, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def nxt(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def type(self):
        t = self.nxt()
        if t == '[':
            n = int(self.nxt())
            self.eat('x')
            e = self.type()
            self.eat(']')
            return ('arr', n, e)
        if t == '{':
            fs = []
            while not self.eat('}'):
                fs.append(self.type())
                self.eat(',')
            return ('struct', fs)
        if t == '<':
            if self.peek() == '{':
                r = self.type()
                self.eat('>')
                return r
            n = int(self.nxt())
            self.eat('x')
            e = self.type()
            self.eat('>')
            return ('vec', n, e)
        if t.startswith('%'):
            return ('name', t)
        return t

    ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'signext', 'zeroext', 'readnone', 'returned', 'inbounds', 'nuw', 'nsw', 'exact', 'volatile', 'immarg', 'disjoint', 'nneg'}

    def attrs(self):
        while self.peek() in self.ATTRS or self.peek() in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret'):
            t = self.nxt()
            if t == 'align':
                self.nxt()
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret'):
                d = 0
                while True:
                    x = self.nxt()
                    d += (x == '(') - (x == ')')
                    if d == 0:
                        break

    def value(self, ty):
        t = self.nxt()
        if t.startswith('%'):
            return ('v', t)
        if t.startswith('@'):
            return ('g', t)
        if t in ('null', 'none'):
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t in ('true', 'false'):
            return ('i', 1 if t == 'true' else 0)
        if t == 'getelementptr':
            self.attrs()
            self.eat('(')
            et = self.type()
            args = []
            while self.eat(','):
                at = self.type()
                self.attrs()
                args.append((at, self.value(at)))
            self.eat(')')
            return ('gep', et, args)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc'):
            self.eat('(')
            at = self.type()
            v = self.value(at)
            self.eat('to')
            rt = self.type()
            self.eat(')')
            return (t, v)
        if t == '[' or t == '{' or t == '<':
            close = {'[': ']', '{': '}', '<': '>'}[t]
            vs = []
            while not self.eat(close):
                if self.peek() == '{' and t == '<':
                    vs = self.value(None)[1]
                    continue
                et = self.type()
                vs.append(self.value(et))
                self.eat(',')
            return ('agg', vs)
        if t.startswith('c"'):
            s = t[2:-1]
            out = bytearray()
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        out.append(92)
                        i += 2
                    else:
                        out.append(int(s[i + 1:i + 3], 16))
                        i += 3
                else:
                    out += s[i].encode('latin1')
                    i += 1
            return ('agg', [('i', b) for b in out])
        if ty in ('double', 'float'):
            if t.startswith('0x'):
                import struct
                return ('f', struct.unpack('>d', bytes.fromhex(t[2:].zfill(16)))[0])
            return ('f', float(t))
        return ('i', int(t))


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'}


def strip_meta(s):
    s = re.sub(r', !\w[\w.]*( !\d+)?', '', s)
    return re.sub(r' #\d+$', '', s.rstrip())


def parse_inst(line):
    line = strip_meta(line)
    p = P(toks(line))
    res = None
    if p.peek() and p.peek().startswith('%') and p.i + 1 < len(p.t) and p.t[p.i + 1] == '=':
        res = p.nxt()
        p.nxt()
    op = p.nxt()
    if op in ('tail', 'notail', 'musttail'):
        op = p.nxt()
    if op == 'ret':
        t = p.type()
        return I('ret', None, t, [] if t == 'void' else [p.value(t)], line)
    if op == 'br':
        if p.peek() == 'label':
            p.nxt()
            return I('br', None, None, [p.nxt()], line)
        p.type()
        c = p.value('i1')
        p.eat(',')
        p.eat('label')
        a = p.nxt()
        p.eat(',')
        p.eat('label')
        return I('cbr', None, None, [c, a, p.nxt()], line)
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.eat(',')
        p.eat('label')
        d = p.nxt()
        p.eat('[')
        cs = []
        while not p.eat(']'):
            ct = p.type()
            cv = p.value(ct)
            p.eat(',')
            p.eat('label')
            cs.append((cv[1], p.nxt()))
        return I('switch', None, t, [v, d, cs], line)
    if op == 'unreachable':
        return I(op, None, None, [], line)
    if op == 'alloca':
        t = p.type()
        return I(op, res, t, [], line)
    if op == 'load':
        p.attrs()
        t = p.type()
        p.eat(',')
        p.type()
        return I(op, res, t, [p.value('ptr')], line)
    if op == 'store':
        p.attrs()
        t = p.type()
        v = p.value(t)
        p.eat(',')
        p.type()
        return I(op, None, t, [v, p.value('ptr')], line)
    if op == 'getelementptr':
        p.attrs()
        t = p.type()
        args = []
        while p.eat(','):
            at = p.type()
            args.append((at, p.value(at)))
        return I('gep', res, t, args, line)
    if op in ('icmp', 'fcmp'):
        pred = p.nxt()
        t = p.type()
        a = p.value(t)
        p.eat(',')
        return I(op, res, t, [pred, a, p.value(t)], line)
    if op in BIN:
        p.attrs()
        t = p.type()
        a = p.value(t)
        p.eat(',')
        return I('bin', res, t, [op, a, p.value(t)], line)
    if op == 'fneg':
        t = p.type()
        return I('fneg', res, t, [p.value(t)], line)
    if op in CAST:
        p.attrs()
        t = p.type()
        v = p.value(t)
        p.eat('to')
        return I('cast', res, p.type(), [op, v, t], line)
    if op == 'phi':
        t = p.type()
        ins = []
        while True:
            p.eat('[')
            v = p.value(t)
            p.eat(',')
            ins.append((v, p.nxt()))
            p.eat(']')
            if not p.eat(','):
                break
        return I(op, res, t, ins, line)
    if op == 'select':
        p.type()
        c = p.value('i1')
        p.eat(',')
        t = p.type()
        a = p.value(t)
        p.eat(',')
        p.type()
        return I(op, res, t, [c, a, p.value(t)], line)
    if op == 'call':
        p.attrs()
        t = p.type()
        if p.peek() == '(':
            d = 0
            while True:
                x = p.nxt()
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
        callee = p.value('ptr')
        p.eat('(')
        args = []
        while not p.eat(')'):
            at = p.type()
            p.attrs()
            args.append((at, p.value(at)))
            p.eat(',')
        return I(op, res, t, [callee, args], line)
    if op == 'freeze':
        t = p.type()
        return I('freeze', res, t, [p.value(t)], line)
    return I('unsupported', res, None, [op], line)


def parse(text):
    m = Mod()
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('%') and ' = type ' in l:
            n, d = l.split(' = type ', 1)
            m.structs[n] = P(toks(d)).type() if d != 'opaque' else ('struct', [])
        elif l.startswith('@'):
            mm = re.match(r'(@[-\w.$]+|@"[^"]*") = (.*)', l)
            rest = strip_meta(mm.group(2))
            rest = re.sub(r', (section|align|comdat) .*$', '', rest)
            p = P(toks(rest))
            const = False
            while p.peek() in ('private', 'internal', 'external', 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'common', 'weak', 'linkonce_odr', 'hidden', 'global', 'constant', 'thread_local', 'extern_weak'):
                const = const or p.peek() == 'constant'
                p.nxt()
            t = p.type()
            init = p.value(t) if p.peek() else None
            m.globals[mm.group(1)] = flat(t, init) + (const,)
        elif l.startswith('declare'):
            mm = re.search(r'@([-\w.$]+)\(', l)
            if mm:
                m.decls.add(mm.group(1))
        elif l.startswith('define'):
            mm = re.match(r'define .*?@([-\w.$]+)\((.*)\)[^)]*\{', l)
            f = Fn(mm.group(1))
            head = l[:l.index('@' + f.name)]
            f.ret = [t for t in toks(head) if t in ('void', 'ptr', 'double') or re.match(r'i\d+$', t)][-1:] or ['?']
            f.ret = f.ret[0]
            p = P(toks(mm.group(2)))
            while p.peek():
                if p.eat('...'):
                    continue
                t = p.type()
                p.attrs()
                f.params.append((t, p.nxt()))
                p.eat(',')
            i += 1
            cur = None
            while not lines[i].startswith('}'):
                s = lines[i]
                if re.match(r'^[-\w.$]+:|^"[^"]*":', s):
                    cur = '%' + s.split(':')[0]
                    f.blocks[cur] = []
                    f.order.append(cur)
                elif s.strip() and not s.strip().startswith(';'):
                    s = s.strip()
                    while s.startswith('switch') and not s.rstrip().endswith(']'):
                        i += 1
                        s += ' ' + lines[i].strip()
                    if cur is None:
                        cur = '%0'
                        f.blocks[cur] = []
                        f.order.append(cur)
                    f.blocks[cur].append(parse_inst(s))
                i += 1
            m.funcs[f.name] = f
        i += 1
    return m


SZ = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'double': 8, 'float': 4, 'ptr': 8, 'x86_fp80': 16}


def align(m, t):
    if isinstance(t, tuple):
        if t[0] == 'arr':
            return align(m, t[2])
        if t[0] == 'name':
            return align(m, m.structs[t[1]])
        return max([align(m, x) for x in t[1]] or [1])
    return SZ[t]


def flat(t, init):
    """an array the compiler writes as a structure because it ends or begins with zeros, as an array"""
    if not (isinstance(t, tuple) and t[0] == 'struct' and t[1] and init and init[0] == 'agg' and len(init[1]) == len(t[1])):
        return t, init
    es = {x[2] if isinstance(x, tuple) and x[0] == 'arr' else x for x in t[1]}
    if len(es) != 1 or not all(isinstance(e, str) and re.match(r'i\d+$', e) for e in es):
        return t, init
    vs = []
    for x, v in zip(t[1], init[1]):
        if not isinstance(x, tuple):
            vs.append(v)
        elif v[0] == 'agg':
            vs += v[1]
        elif v[0] == 'zero':
            vs += [('i', 0)] * x[1]
        else:
            return t, init
    e, = es
    return ('arr', len(vs), e), ('agg', vs)


def size(m, t):
    if isinstance(t, tuple):
        if t[0] == 'arr':
            return t[1] * size(m, t[2])
        if t[0] == 'name':
            return size(m, m.structs[t[1]])
        o, a = 0, 1
        for x in t[1]:
            al = align(m, x)
            a = max(a, al)
            o = (o + al - 1) // al * al + size(m, x)
        return (o + a - 1) // a * a
    return SZ[t]


def field(m, t, k):
    """offset and type of the k-th field"""
    if t[0] == 'name':
        t = m.structs[t[1]]
    o = 0
    for j, x in enumerate(t[1]):
        al = align(m, x)
        o = (o + al - 1) // al * al
        if j == k:
            return o, x
        o += size(m, x)
    raise IndexError(k)
