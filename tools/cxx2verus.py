#!/usr/bin/env python3
"""Mechanical translation of real C++ functions (as parsed by clang) to Verus exec functions.

The translator reads clang's JSON AST of files in the repository under test and emits, for
each function named in a contract file, a Rust function whose body is produced from the C++
body statement by statement.  Contracts (requires/ensures/invariants/proof hints) come from
the contract file and are spliced around and inside the translated body; they never replace
executable code.  What the translation drops or models is listed in DROPS.
"""
import json, os, re, subprocess, hashlib, sys

DROPS = [
    "exception objects: which exception type and message is thrown is dropped (throw becomes return Err)",
    "stream output to std::cout/std::cerr (diagnostics) is dropped when its operands have no side effect",
    "allocation failure (bad_alloc, length_error of std::vector) is not modelled",
    "unsigned arithmetic is translated to checked arithmetic: absence of wrap-around is an extra obligation",
    "object lifetime/destructors of locals are not modelled (Rust ownership of the model value)",
    "iterators carry a reference to their vector; comparing iterators of different vectors is not modelled",
    "reference data members are modelled as owned state of the translated struct",
    "pointers to byte buffers become (memory image, offset) pairs",
]

RUST_KW = {'type', 'in', 'ref', 'match', 'mut', 'fn', 'let', 'loop', 'move', 'self', 'use', 'where', 'impl', 'box', 'final', 'spec', 'proof', 'exec', 'ghost', 'tracked', 'old', 'open', 'closed', 'is', 'has', 'matches', 'r'}


class Ext(Exception):
    """The construct is outside the translator's subset."""


# ----------------------------------------------------------------------------------------
# clang front end

class AST:
    def __init__(self, repo, workdir, incs=()):
        self.repo, self.work, self.incs = repo, workdir, list(incs)
        self.cache = {}
        os.makedirs(workdir, exist_ok=True)

    def docs(self, rel, filt):
        key = (rel, filt)
        if key in self.cache:
            return self.cache[key]
        path = os.path.join(self.repo, rel)
        cmd = ['clang++', '-fsyntax-only', '-std=c++11', '-w', '-I' + self.repo, '-I/usr/include/libxml2'] + self.incs
        if rel.startswith('bindings/ruby'):
            cmd += ['-I' + os.path.join(self.repo, 'typelib')] + ['-I' + d for d in subprocess.run(['ruby', '-e', "c = RbConfig::CONFIG; puts c['rubyhdrdir'], c['rubyarchhdrdir']"], stdout=subprocess.PIPE).stdout.decode().split()]
        if not path.endswith('.cc'):
            cmd += ['-x', 'c++']
        cmd += ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        if p.returncode != 0:
            raise Ext('clang failed on %s: %s' % (rel, p.stderr.decode(errors='replace')[-2000:]))
        s = p.stdout.decode(errors='replace')
        dec = json.JSONDecoder()
        i, out = 0, []
        n = len(s)
        while True:
            while i < n and s[i].isspace():
                i += 1
            if i >= n:
                break
            o, i = dec.raw_decode(s, i)
            out.append(o)
        idx = Index(out, rel)
        self.cache[key] = idx
        return idx


class Index:
    def __init__(self, docs, rel):
        self.rel = rel
        self.docs = docs
        self._files = None
        self.targs = {}    # id of a function -> template arguments of its class and of itself
        self.rec = {}      # id -> class name
        self.funcs = []    # (cls, name, node)
        self.decls = {}    # id -> node (function decls, for default args)
        self.pures = []    # pure virtual functions: (cls, name, node)
        self.typedefs = {}  # name -> set of desugared types
        seen = set()
        for d in docs:
            self._walk(d, None, seen, '')
        # out-of-line methods: resolve class
        fixed = []
        for cls, name, node in self.funcs:
            pid = node.get('parentDeclContextId')
            if pid and pid in self.rec:
                cls = self.rec[pid]
            fixed.append((cls, name, node))
        self.funcs = fixed

    @staticmethod
    def targs_of(n):
        return ','.join((x.get('type', {}).get('desugaredQualType') or x.get('type', {}).get('qualType', '?')).replace(' ', '~') for x in n.get('inner', []) if isinstance(x, dict) and x.get('kind') == 'TemplateArgument')

    def _walk(self, n, cls, seen, ta):
        k = n.get('kind')
        if k in ('TypedefDecl', 'TypeAliasDecl'):
            t = n.get('type', {})
            t = t.get('desugaredQualType') or t.get('qualType', '')
            self.typedefs.setdefault(n.get('name'), set()).add(t)
            if cls:
                self.typedefs.setdefault(cls + '::' + n.get('name'), set()).add(t)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            self.rec[n['id']] = n.get('name', '')
            cls = n.get('name', '')
            if k == 'ClassTemplateSpecializationDecl':
                ta = self.targs_of(n)
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            self.decls[n['id']] = n
            self.targs[n['id']] = ta or self.targs_of(n)
            if n.get('pure'):
                self.pures.append((cls, n.get('name', ''), dict(n, inner=n.get('inner', []) + [{'kind': 'CompoundStmt', 'inner': []}])))
            if n['id'] not in seen and any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
                seen.add(n['id'])
                self.funcs.append((cls, n.get('name', ''), n))
            return
        if k in ('VarDecl', 'EnumDecl', 'FieldDecl'):
            return
        for c in n.get('inner', []):
            if isinstance(c, dict):
                self._walk(c, cls, seen, ta)

    def file_of(self, node):
        '''the file a node was written in: clang names it only where it changes'''
        if self._files is None:
            self._files = {}
            cur = [None]

            def walk(x):
                if isinstance(x, dict):
                    if 'offset' in x and 'file' in x:
                        cur[0] = x['file']
                    for v in x.values():
                        if isinstance(v, (dict, list)):
                            walk(v)
                    if x.get('kind') == 'MemberExpr':
                        pass
                elif isinstance(x, list):
                    for v in x:
                        if isinstance(v, dict) and v.get('kind') == 'MemberExpr':
                            r = v.get('range', {}).get('end', {})
                            f = r.get('file') or v.get('range', {}).get('begin', {}).get('file') or cur[0]
                            self._files[id(v)] = f
                        walk(v)
            for d in self.docs:
                walk(d)
        return self._files.get(id(node))

    def classes_with(self, name):
        return [(c, n) for c, nm, n in self.funcs if nm == name]

    def find(self, cls, name, nparams=None, types=None, pure=False):
        res = []
        for c, nm, node in self.pures if pure else self.funcs:
            if nm != name:
                continue
            if cls is not None and c != cls:
                continue
            ps = params_of(node)
            if nparams is not None and len(ps) != nparams:
                continue
            if types is not None:
                tl = ', '.join(qt(p) for p in ps)
                if not re.search(types, tl):
                    continue
            res.append((c, node))
        return res


def params_of(node):
    return [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']


def body_of(node):
    for c in node.get('inner', []):
        if c.get('kind') == 'CompoundStmt':
            return c
    return None


def qt(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


def kids(n):
    return [c for c in n.get('inner', []) if isinstance(c, dict)]


# ----------------------------------------------------------------------------------------
# types

INT = {'unsigned long': 'usize', 'unsigned int': 'u32', 'int': 'i32', 'long': 'i64', 'bool': 'bool',
       'unsigned char': 'u8', 'char': 'u8', 'signed char': 'i8', 'unsigned short': 'u16', 'short': 'i16',
       'unsigned long long': 'usize', 'long long': 'i64',
       'size_t': 'usize', 'std::size_t': 'usize', 'uint8_t': 'u8', 'boost::uint8_t': 'u8', 'uint64_t': 'usize', 'boost::uint64_t': 'usize',
       'int8_t': 'i8', 'int16_t': 'i16', 'int32_t': 'i32', 'int64_t': 'i64',
       'uint32_t': 'u32', 'uint16_t': 'u16', 'ssize_t': 'i64', 'difference_type': 'i64',
       'Enum::integral_type': 'i32', 'Typelib::Enum::integral_type': 'i32', 'integral_type': 'i32',
       'std::__ptrdiff_t': 'i64', 'ptrdiff_t': 'i64'}
INTS = {'usize', 'u64', 'u32', 'i32', 'i64', 'u8', 'i8', 'u16', 'i16', 'bool'}


def strip_cv(t):
    t = t.strip()
    while True:
        o = t
        t = re.sub(r'^(const|volatile|struct|class|enum)\s+', '', t)
        t = re.sub(r'\s*(const|volatile)$', '', t)
        t = t.strip()
        if t.endswith('&'):
            t = t.rstrip('&').strip()
        if t == o:
            return t


# project specific: regex on the stripped C++ type -> rust type (extended by contract files)
TYPES = [
    (r'^__gnu_cxx::__normal_iterator<(const )?unsigned char \*,.*>$|^(std::)?vector<(unsigned char|uint8_t|boost::uint8_t)>::(const_)?iterator$', "It8<'a>"),
    (r'^__gnu_cxx::__normal_iterator<const unsigned long \*,.*>$', "OpIt<'a>"),
    (r'^(std::)?vector<(unsigned long|size_t)>::const_iterator$|^const_iterator$|^MemoryLayout::(Ops::)?const_iterator$|^(Typelib::)?MemoryLayout::(Ops::)?const_iterator$|^Container::MarshalOps::const_iterator$|^MarshalOps::const_iterator$', "OpIt<'a>"),
    (r'^(std::)?vector<unsigned long(, std::allocator<unsigned long>)?>$|^(Typelib::)?(MemoryLayout::)?Ops$', 'Vec<usize>'),
    (r'^(std::)?vector<unsigned char(, std::allocator<unsigned char>)?>$|^(std::)?vector<(boost::|std::)?uint8_t>$', 'Vec<u8>'),
    (r'^(Typelib::)?MemoryLayout$', 'MemoryLayout'),
    (r'^(const )?(Typelib::)?Container \*$|^(Typelib::)?Container$', 'ContRef'),
    (r'^(const )?(void|uint8_t|unsigned char|boost::uint8_t|char) \*$', 'PTR'),
    (r'^std::basic_string<char>$|^std::string$|^string$|^std::basic_string<char, std::char_traits<char>, std::allocator<char>>$', 'Vec<u8>'),
    (r'^std::list<std::basic_string<char>>$|^list<string>$', 'Vec<Vec<u8>>'),
    (r'^boost::tuples::(tuple|cons)<|^boost::tuple<', 'TUPLE'),
    (r'^std::pair<', 'TUPLE'),
    (r'^void$', '()'),
]


class Spec:
    """Contract of one function: parsed from a contract file."""
    def __init__(self, rust):
        self.rust = rust
        self.attr = {}
        self.text = ''
        self.loops = {}
        self.anchors = {}
        self.locals = []
        self.header = ''
        self.tail = ''
        self.hide = []


def parse_contracts(text):
    """Returns a list of ('raw', text) and ('fn', Spec) items."""
    items = []
    cur = None
    sect = None
    buf = []

    def flush():
        nonlocal buf
        t = '\n'.join(buf)
        buf = []
        if cur is None:
            if t.strip():
                items.append(('raw', t))
            return
        if sect is None:
            return
        if sect[0] == 'spec':
            cur.text += t
        elif sect[0] == 'loop':
            cur.loops[int(sect[1])] = cur.loops.get(int(sect[1]), '') + t
        elif sect[0] == 'at':
            cur.anchors[sect[1]] = cur.anchors.get(sect[1], '') + t + '\n'
        elif sect[0] == 'attrs':
            cur.header += t
    for line in text.split('\n'):
        m = re.match(r'^\s*//@(\w+)\s*(.*)$', line)
        if not m:
            buf.append(line)
            continue
        cmd, rest = m.group(1), m.group(2).strip()
        if cmd == 'fn':
            flush()
            parts = rest.split()
            cur = Spec(parts[0])
            for a in parts[1:]:
                k, _, v = a.partition('=')
                cur.attr[k] = v
            sect = None
        elif cmd == 'locals':
            flush()
            sect = None
            for l in rest.split():
                nm, _, ty = l.partition(':')
                cur.locals.append((nm, ty))
        elif cmd == 'hide':
            flush()
            sect = None
            cur.hide += rest.split()
        elif cmd in ('spec', 'attrs'):
            flush()
            sect = (cmd,)
        elif cmd == 'loop':
            flush()
            sect = ('loop', rest)
        elif cmd == 'at':
            flush()
            sect = ('at', rest)
        elif cmd == 'end':
            flush()
            items.append(('fn', cur))
            cur = None
            sect = None
        else:
            raise Ext('unknown contract directive ' + cmd)
    flush()
    return items


# ----------------------------------------------------------------------------------------
# translation of one function

class Fn:
    def __init__(self, tr, spec, cls, node, idx):
        self.tr, self.spec, self.cls, self.node, self.idx = tr, spec, cls, node, idx
        self.tmp = 0
        self.loopno = 0
        self.callno = {}
        self.retno = 0
        self.throwno = 0
        self.assigned = set()
        self.alias = {}      # decl id -> rust lvalue expression
        self.names = {}      # decl id -> rust name
        self.root = {}       # decl id -> memory root (for mutable pointers)
        self.ptrkind = {}    # decl id -> 'const' / 'mut'
        self.types = {}      # decl id -> rust type
        self.pre = []
        self.loops = []      # stack of increment emitters
        self.catch = []      # stack of catch handlers
        self.thisx = 'self'  # what `this` is (another object while one of its methods is inlined)
        self.inl = []        # stack of inline frames
        self.throws = spec.attr.get('throws', 'no') == 'yes'
        self.notes = []
        self.seqroot = set()
        self.rest = []
        self.ends = spec.attr.get('ends') == 'yes'   # iterators: the end is a value of its own
        self.itroot = {}     # rust expression holding an index into a container -> the container
        self.flatobj = {}    # decl id of a local object that only carries its members -> the members
        self.flat = tr.flat_members(spec)
        self.world = spec.attr.get('world') == 'yes'
        self.heap = spec.attr.get('world') == 'heap'
        self.ruby = spec.attr.get('world') == 'ruby'   # the memory table of the Ruby bindings
        self.dyn = [x for x in spec.attr.get('dyn', '').split(',') if x]
        self.handle = spec.attr.get('this')
        self.vals = spec.attr.get('vals') == 'addr'
        self.value_obj = spec.attr.get('value')      # Value: memory with an address and a type ('const': not written to)
        self.ptypes = dict((k, v.replace('~', ' ')) for k, v in (x.split(':', 1) for x in spec.attr.get('ptype', '').split(',') if x))
        # values whose bytes are a sequence (input) or a modified sequence (output)
        self.bytevars = {}
        self.bytes = dict(x.split(':', 1) for x in spec.attr.get('bytes', '').split(',') if x)
        # members through which an object reaches the other parts of the object it belongs to
        self.links = dict((k, v.split('|')) for k, v in (x.split(':') for x in spec.attr.get('link', '').split(',') if x))

    # -- helpers
    def fresh(self, p='t'):
        self.tmp += 1
        return '%s__%d' % (p, self.tmp)

    def rn(self, name):
        return name + '_' if name in RUST_KW else name

    def rty(self, t, ctx=''):
        t0 = t
        t = strip_cv(t)
        if self.spec.attr.get('bits'):
            # a number is its bits
            b = self.tr.num_name(t)
            if b:
                return {1: 'u8', 2: 'u16', 4: 'u32', 8: 'usize'}[self.tr.NUMS[b][0]]
        if t in INT:
            return INT[t]
        h = self.tr.type_hook(self, t)
        if h:
            return h
        for rx, r in self.tr.types:
            if re.search(rx, t):
                if r == 'TUPLE':
                    return self.tuple_type(t)
                return r
        last = t.split('::')
        for nm in ('::'.join(last[-2:]), last[-1]):
            d = self.idx.typedefs.get(nm, ())
            if len(d) == 1 and list(d)[0] != t:
                return self.rty(list(d)[0], ctx)
        raise Ext('type %s (%s)' % (t0, ctx))

    def tuple_type(self, t):
        inner = t[t.index('<') + 1:t.rindex('>')]
        args, d, cur = [], 0, ''
        for ch in inner:
            if ch in '<(':
                d += 1
            if ch in '>)':
                d -= 1
            if ch == ',' and d == 0:
                args.append(cur)
                cur = ''
            else:
                cur += ch
        args.append(cur)
        args = [a.strip() for a in args if 'null_type' not in a]
        if t.startswith('boost::tuples::cons'):
            raise Ext('cons type')
        out = []
        for a in args:
            r = self.rty(a)
            out.append('usize' if r == 'PTR' else r)
        return '(' + ', '.join(out) + ')'

    def rty_or_none(self, t):
        try:
            return self.rty(t)
        except Ext:
            return None

    def opt(self, t):
        try:
            return self.rty(t).startswith('Option<')
        except Ext:
            return False

    def is_ptr(self, t):
        try:
            return self.rty(t) == 'PTR'
        except Ext:
            return False

    def ptr_const(self, t):
        t = t.strip()
        return bool(re.match(r'^(const )', t)) or bool(re.search(r'(uint8_t|void|char) const \*', t))

    def emit(self, s):
        self.pre.append(s)

    def block(self, f):
        """Run f() collecting the statements it emits."""
        saved = self.pre
        self.pre = []
        roots = dict(self.itroot)
        f()
        self.itroot.update(roots)    # what the declarations in there hid is visible again
        out = self.pre
        self.pre = saved
        return out

    def anchor(self, name, ret=None):
        t = self.spec.anchors.get(name)
        if t and ret:
            t = t.replace('$ret', ret)
        if t and not self.inl:
            self.tr.used_anchors.add((self.spec.rust, name))
            for l in t.rstrip('\n').split('\n'):
                self.emit(l)

    # -- entry point
    def translate(self):
        node, spec = self.node, self.spec
        self.collect_locals(body_of(node))
        pn = spec.attr.get('params', '')
        pnames = pn.split(',') if pn else None
        ps = params_of(node)
        if pnames is not None and len(pnames) != len(ps):
            raise Ext('%s: parameter count changed' % spec.rust)
        sig = []
        is_method = node.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl') and node.get('storageClass') != 'static'
        # out-of-line static members do not repeat "static"
        if is_method and spec.attr.get('static') == 'yes':
            is_method = False
        life = "<'a>" if True else ''
        gens = ["'a"]
        ghosts = []
        shadow = []
        assigned = self.assigned = self.assigned_vars(body_of(node))
        if is_method:
            q = node.get('type', {}).get('qualType', '')
            const = bool(re.search(r'\)\s*const\b', q))
            if self.flat is not None:
                # the object is passed as its members
                sig += ['%s: %s' % m for m in self.flat]
            elif self.handle:
                # the object is referred to by a handle
                self.thisx = 'this_'
                sig.append('this_: %s' % self.handle)
            else:
                sig.append(spec.attr.get('self', "&'a self" if const else '&mut self').replace('~', ' '))
        elif self.flat is not None and spec.attr.get('nmem'):
            sig += ['%s: %s' % m for m in self.flat]
        if self.world or self.heap or self.ruby:
            # what changes about types while they are resized, or the buffers of vectors
            sig.append('w: &mut World')
        constptr = set(x for x in spec.attr.get('constptr', '').split(',') if x)
        for i, p in enumerate(ps):
            name = self.rn(pnames[i] if pnames else p.get('name', '_p%d' % i))
            t = qt(p)
            pid = p['id']
            self.names[pid] = name
            if self.vals and (self.tr.num_ref(t, node) or name == spec.attr.get('nval')):
                # a number somewhere in memory
                sig.append('%s: NRef' % name)
                self.types[pid] = 'NRef'
                continue
            if name in self.ptypes:
                # the system's object behind a number or an opaque pointer
                sig.append('%s: %s' % (name, self.ptypes[name]))
                self.types[pid] = self.ptypes[name]
                continue
            if name in self.bytes:
                # the bytes of a value
                if pid in assigned:
                    raise Ext('assignment to the value %s' % name)
                sig.append('%s: %s' % (name, '&mut Vec<u8>' if self.bytes[name] == 'mut' else "&'a Vec<u8>"))
                self.types[pid] = 'BYTES'
                self.bytevars[name] = self.bytes[name]
                continue
            r = self.rty_param(t)
            self.types[pid] = r
            if r == 'MVal':
                sig.append('mem_%s: &mut Mem, %s: MVal' % (name, name))
                continue
            if r == 'PTR':
                if self.ptr_const(t) or name in constptr:
                    self.ptrkind[pid] = 'const'
                    sig.append("%s: CPtr<'a>" % name)
                else:
                    self.ptrkind[pid] = 'mut'
                    self.root[pid] = 'mem_' + name
                    sig.append('mem_%s: &mut Mem, %s: usize' % (name, name))
                    ghosts.append('let ghost %s_0 = %s;' % (name, name))
                if pid in assigned:
                    shadow.append(name)
                continue
            isref = t.strip().endswith('&')
            isconst = t.strip().startswith('const ') or re.search(r'\bconst &$', t.strip())
            if r in self.tr.stream_traits:
                g = 'S%d' % len(gens)
                gens.append('%s: %s' % (g, r))
                sig.append('%s: &mut %s' % (name, g))
                self.types[pid] = 'STREAM:' + r
                continue
            if isref and not isconst and r == spec.attr.get('shared'):
                # not modified as far as the model goes
                isconst = True
            if isref and not isconst:
                sig.append('%s: &mut %s' % (name, r))
                self.types[pid] = '&mut ' + r
            elif (isref and isconst and r not in INTS and not self.tr.is_copy(r)) or self.tr.by_ref(r):
                sig.append("%s: &'a %s" % (name, r))
                self.types[pid] = '&' + r
            else:
                sig.append('%s: %s' % (name, r))
                ghosts.append('let ghost %s_0 = %s;' % (name, name))
                if pid in assigned:
                    shadow.append(name)
        rq = node.get('type', {})
        ret = self.ret_type(node)
        self.ret = ret
        rt = 'Result<%s, Ex>' % ret if self.throws else ret
        retname = '' if rt == '()' else ' -> (r: %s)' % rt
        for g in ghosts:
            self.emit(g)
        for s in shadow:
            self.emit('let mut %s = %s;' % (s, s))
        self.anchor('entry')
        self.stmts(kids(body_of(node)))
        if ret == '()':
            if not self.pre or not self.pre[-1].startswith('return'):
                self.retno += 1
                self.anchor('return#%d' % self.retno)
                self.anchor('return')
                self.anchor('end')
                if self.throws:
                    self.emit('Ok(())')
        body = self.pre
        line = node.get('loc', {}).get('line') or node.get('loc', {}).get('expansionLoc', {}).get('line') or node.get('range', {}).get('begin', {}).get('line')
        out = []
        out.append('// translated from %s (%s)' % (self.idx.rel, self.node.get('name')))
        for h in spec.header.strip().split('\n'):
            if h.strip():
                out.append(h)
        out.append('#[verifier::loop_isolation(false)]')
        vis = spec.attr.get('vis', 'pub ')
        if vis == 'none':
            vis = ''
        if spec.attr.get('nogens') == 'yes':
            gens = []
        out.append('%sfn %s%s(%s)%s' % (vis, spec.rust.split('::')[-1], '<%s>' % ', '.join(gens) if gens else '', ', '.join(sig), retname))
        out.append(spec.text.rstrip())
        out.append('{')
        out += ['    hide(%s);' % h for h in spec.hide]
        out += ['    ' + l for l in body]
        out.append('}')
        return '\n'.join(out)

    def ret_type(self, node):
        q = node.get('type', {}).get('qualType', '')
        over = self.spec.attr.get('ret')
        if over:
            return over.replace('~', ' ')
        # return type is what precedes the parameter list
        d, i = 0, 0
        for i, ch in enumerate(q):
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
            elif ch == '(' and d == 0:
                break
        t = q[:i].strip()
        t = self.resolve_alias(t)
        r = self.rty(t, 'return type')
        return 'usize' if r == 'PTR' else r

    def resolve_alias(self, t):
        return t

    def rty_param(self, t):
        return self.rty(t, 'parameter')

    # -- local name mapping: contract names by role (declaration order and type)
    def collect_locals(self, body):
        found = []

        def walk(n):
            if n.get('kind') == 'LambdaExpr':
                raise Ext('lambda')
            if n.get('kind') == 'VarDecl':
                try:
                    r = self.rty(qt(n))
                except Ext:
                    r = '?'
                found.append((n['id'], n.get('name'), r))
            for c in kids(n):
                walk(c)
        walk(body)
        want = list(self.spec.locals)
        have = set(nm for _, nm, _ in found)
        missing = [(nm, ty) for nm, ty in want if nm not in have]
        wantset = set(nm for nm, _ in want)
        mapping = {}
        pool = [(i, nm, ty) for i, nm, ty in found if nm not in wantset]
        for nm, ty in missing:
            for j, (i, hn, ht) in enumerate(pool):
                if not ty or ht.replace(' ', '') == ty.replace('~', '').replace(' ', ''):
                    mapping[hn] = nm
                    pool.pop(j)
                    self.notes.append('local %s plays the role of %s' % (hn, nm))
                    break
        self.localmap = mapping

    def assigned_vars(self, body):
        """ids of variables that are (possibly) modified in the body."""
        res = set()

        def base(n):
            while True:
                k = n.get('kind')
                if k == 'DeclRefExpr':
                    return n['referencedDecl']['id']
                if k in ('ParenExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr') and kids(n):
                    n = kids(n)[0]
                    continue
                return None

        def walk(n):
            k = n.get('kind')
            c = kids(n)
            if k in ('BinaryOperator',) and n.get('opcode') == '=' or k == 'CompoundAssignOperator':
                b = base(c[0])
                if b:
                    res.add(b)
            if k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&'):
                b = base(c[0])
                if b:
                    res.add(b)
            if k == 'CXXOperatorCallExpr':
                nm = callee_name(n)
                if nm in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator='):
                    b = base(c[1])
                    if b:
                        res.add(b)
            if k == 'CallExpr' and callee_name(n) == 'tie':
                for x in c[1:]:
                    b = base(x)
                    if b:
                        res.add(b)
            for x in c:
                walk(x)
        walk(body)
        return res

    # -- statements
    def stmts(self, ns):
        for i, n in enumerate(ns):
            if n.get('kind') == 'CXXTryStmt':
                # what follows the try, run after a handler that does not leave
                self.rest = ns[i + 1:]
            self.stmt(n)

    def stmt(self, n):
        k = n.get('kind')
        c = kids(n)
        if k is None or k == 'NullStmt':
            return
        m = getattr(self, 's_' + k, None)
        if m:
            return m(n, c)
        # expression statement
        e = self.discard(n)
        if e is not None:
            if re.match(r'^(\w|\.|\[\w+\])+$', e) or e in ('()',):
                return
            self.emit('%s;' % e)

    def discard(self, n):
        """An expression evaluated for its side effects."""
        u = self.unwrap(n)
        k = u.get('kind')
        if k == 'CXXOperatorCallExpr' and callee_name(u) == 'operator<<' and re.search(r'ostream', qt(u)) and self.console(u):
            if self.has_effects(u):
                raise Ext('stream output with side effects')
            return None
        if k in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr') and n.get('castKind') == 'ToVoid' or (k == 'CStyleCastExpr' and qt(u) == 'void'):
            inner = kids(u)[0]
            if not self.has_effects(inner):
                return None
            return self.discard(inner)
        if k == 'UnaryOperator' and u.get('opcode') in ('++', '--'):
            self.incdec(u)
            return None
        if k == 'CXXOperatorCallExpr' and callee_name(u) in ('operator++', 'operator--'):
            self.it_incdec(u)
            return None
        if k in ('IntegerLiteral', 'DeclRefExpr', 'CXXBoolLiteralExpr'):
            return None
        e = self.expr(n)
        if re.match(r'^\(\*\w+\)(\[\w+\])?$', e):
            return None
        return e

    def console(self, n):
        # messages for the terminal are dropped
        while True:
            n = self.unwrap(n, casts=True)
            if n.get('kind') == 'CXXOperatorCallExpr':
                n = kids(n)[1]
                continue
            return n.get('kind') == 'DeclRefExpr' and n['referencedDecl'].get('name') in ('cerr', 'cout', 'clog')

    def has_effects(self, n):
        k = n.get('kind')
        if k in ('CompoundAssignOperator', 'CXXThrowExpr', 'CXXNewExpr', 'CXXDeleteExpr'):
            return True
        if k == 'BinaryOperator' and n.get('opcode') == '=':
            return True
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
            return True
        if k == 'CXXOperatorCallExpr' and callee_name(n) in ('operator++', 'operator--', 'operator=', 'operator+=', 'operator-='):
            return True
        return any(self.has_effects(x) for x in kids(n))

    def s_CompoundStmt(self, n, c):
        b = self.block(lambda: self.stmts(c))
        self.emit('{')
        for l in b:
            self.emit('    ' + l)
        self.emit('}')

    def inner_block(self, n):
        if n.get('kind') == 'CompoundStmt':
            return self.block(lambda: self.stmts(kids(n)))
        return self.block(lambda: self.stmt(n))

    def s_DeclStmt(self, n, c):
        for v in c:
            if v.get('kind') in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'UsingDirectiveDecl', 'CXXRecordDecl', 'StaticAssertDecl'):
                continue
            if v.get('kind') != 'VarDecl':
                raise Ext('declaration ' + str(v.get('kind')))
            self.vardecl(v)

    def vardecl(self, v):
        name = self.rn(self.localmap.get(v.get('name'), v.get('name')))
        if self.inl:
            name = '%s_i%d' % (name, self.inl[-1]['n'])
        t = qt(v)
        vid = v['id']
        c = [x for x in kids(v) if not x.get('kind', '').endswith('Attr')]
        init = c[0] if c and v.get('init') else (c[0] if c else None)
        fl = self.tr.flat_object(self, v, t, init)
        if fl is not None:
            self.flatobj[vid] = fl
            return
        if self.tr.stream_object(self, v, name, t, init):
            return
        bv = self.tr.byte_view(self, init)
        if bv is not None:
            if vid in self.assigned:
                raise Ext('assignment to the address %s' % name)
            self.alias[vid] = bv
            self.types[vid] = 'BYTES'
            return
        isref = t.strip().endswith('&')
        try:
            r = self.rty(t, 'local ' + name)
        except Ext:
            r = None
        if isref and init is not None and (r is None or not (self.tr.is_copy(r) or r in INTS) or not (t.strip().startswith('const '))):
            # a reference: alias of an lvalue
            self.alias[vid] = self.tr.last_place(self, init) or self.lvalue(init)
            self.types[vid] = r or '?'
            return
        if r is None:
            self.rty(t, 'local ' + name)
        self.types[vid] = r
        if r == 'PTR':
            const = self.ptr_const(t) and not self.is_mut_ptr_expr(init)
            if const:
                self.ptrkind[vid] = 'const'
                self.names[vid] = name
                e = self.expr(init)
                self.emit('let mut %s = %s;' % (name, e))
            else:
                off, root = self.ptr(init)
                self.ptrkind[vid] = 'mut'
                self.root[vid] = root
                self.names[vid] = name
                self.emit('let mut %s: usize = %s;' % (name, off))
            return
        if init is None or (init.get('kind') == 'CXXConstructExpr' and not kids(init)):
            if init is None and r in INTS:
                self.names[vid] = name
                self.emit('let mut %s: %s = arbitrary_%s();' % (name, r, r))
                return
            d = self.tr.default_value(r)
            if d is None and self.bytes and r.startswith('OpIt'):
                d = 'arbitrary_opit()'
            self.names[vid] = name
            if d is None:
                self.emit('let mut %s: %s;' % (name, r.replace("'a", "'_")))
            else:
                self.emit('let mut %s: %s = %s;' % (name, r, d))
            return
        if init.get('kind') == 'InitListExpr':
            h = self.tr.init_list(self, r, kids(init))
            if h is None:
                raise Ext('initializer list')
            self.names[vid] = name
            self.emit('let mut %s: %s = %s;' % (name, r, h))
            return
        if r == 'MX':
            # the end of a std::map or std::list stays its end while it is modified
            u = self.unwrap(init, casts=True)
            while u.get('kind') == 'CXXConstructExpr' and len(kids(u)) == 1:
                u = self.unwrap(kids(u)[0], casts=True)
            if u.get('kind') == 'CXXMemberCallExpr' and callee_name(u) == 'end' and vid not in self.assigned:
                b = self.expr(kids(kids(u)[0])[0])
                self.alias[vid] = 'END_IX' if self.ends else '%s.v.len()' % b
                return
        e = self.value(init, r)
        self.names[vid] = name
        self.itroot.pop(name, None)
        self.bind_root(name, e)
        self.emit('let mut %s: %s = %s;' % (name, r.replace("'a", "'_"), e))

    def root_of(self, e):
        e = re.sub(r'\.[01]$', '', e)
        return self.itroot.get(e)

    def items_of(self, root):
        """the elements of what an index refers to: a sequence itself, or the entries of a map"""
        return root if root in self.seqroot else root + '.v'

    def bind_root(self, name, e):
        r = self.root_of(e)
        if r is None:
            return
        if self.itroot.get(name, r) != r:
            raise Ext('iterator re-bound to another container')
        self.itroot[name] = r

    def is_mut_ptr_expr(self, n):
        try:
            u = self.unwrap(n, casts=True)
            if u.get('kind') == 'DeclRefExpr':
                return self.ptrkind.get(u['referencedDecl']['id']) == 'mut'
            if u.get('kind') == 'BinaryOperator':
                return any(self.is_mut_ptr_expr(x) for x in kids(u) if self.is_ptr(qt(x)))
        except Exception:
            return False
        return False

    def s_IfStmt(self, n, c):
        if n.get('hasVar') or n.get('hasInit'):
            raise Ext('if with declaration')
        cond = self.cond(c[0])
        then = self.inner_block(c[1])
        els = self.inner_block(c[2]) if len(c) > 2 else None
        self.emit('if %s {' % cond)
        for l in then:
            self.emit('    ' + l)
        if els is not None:
            self.emit('} else {')
            for l in els:
                self.emit('    ' + l)
        self.emit('}')

    def loop(self, cond, body, inc, dowhile=False):
        self.loopno += 1
        no = self.loopno
        inv = self.spec.loops.get(no, '') if not self.inl else ''
        if not self.inl:
            self.tr.used_anchors.add((self.spec.rust, 'loop %d' % no))
        self.anchor('loop%d.before' % no)
        condpre = self.block(lambda: setattr(self, '_c', self.cond(cond) if cond is not None else 'true'))
        ce = self._c

        def emit_inc():
            self.anchor('loop%d.inc' % no)
            if inc is not None:
                e = self.discard(inc)
                if e:
                    self.emit(e + ';')
            self.anchor('loop%d.end' % no)
        self.loops.append(emit_inc)

        def do_body():
            if condpre:
                for l in condpre:
                    self.emit(l)
                self.emit('if !(%s) { break; }' % ce)
            self.anchor('loop%d.begin' % no)
            if body.get('kind') == 'CompoundStmt':
                self.stmts(kids(body))
            elif body.get('kind'):
                self.stmt(body)
            emit_inc()
        b = self.block(do_body)
        self.loops.pop()
        if condpre or ce == 'true':
            self.emit('loop')
        else:
            self.emit('while %s' % ce)
        for l in inv.rstrip().split('\n'):
            if l.strip():
                self.emit('  ' + l)
        self.emit('{')
        for l in b:
            self.emit('    ' + l)
        self.emit('}')
        self.anchor('loop%d.after' % no)

    def s_ForStmt(self, n, c):
        # inner: init, condvar, cond, inc, body   (empty ones are {})
        inner = n.get('inner', [])
        init, var, cond, inc, body = inner
        b = []

        def go():
            if init.get('kind'):
                self.stmt(init)
            self.loop(cond if cond.get('kind') else None, body, inc if inc.get('kind') else None)
        b = self.block(go)
        if self.pre and self.pre[-1].strip() == '}':
            self.emit(';')
        self.emit('{')
        for l in b:
            self.emit('    ' + l)
        self.emit('}')

    def s_WhileStmt(self, n, c):
        if len(c) != 2:
            raise Ext('while with declaration')
        self.loop(c[0], c[1], None)

    def s_DoStmt(self, n, c):
        body, cond = c
        # `do S while (false)` runs S once
        u = self.unwrap(cond, casts=True)
        if (u.get('kind') == 'CXXBoolLiteralExpr' and u.get('value') is False) or (u.get('kind') == 'IntegerLiteral' and u.get('value') == '0'):
            if not self.contains(body, ('BreakStmt', 'ContinueStmt')):
                return self.stmt(body)
        raise Ext('do-while loop')

    def contains(self, n, ks):
        return n.get('kind') in ks or any(self.contains(x, ks) for x in kids(n))

    def s_ContinueStmt(self, n, c):
        if not self.loops:
            raise Ext('continue outside loop')
        if self.loops[-1] == 'switch':
            i = len(self.loops) - 1
            while self.loops[i] == 'switch':
                i -= 1
            self.loops[i]()
        else:
            self.loops[-1]()
        self.emit('continue;')

    def s_BreakStmt(self, n, c):
        if self.loops and self.loops[-1] == 'switch':
            raise Ext('break inside a switch in a non-tail position')
        if not self.inl:
            self.breakno = getattr(self, 'breakno', 0) + 1
            self.anchor('break#%d' % self.breakno)
        self.emit('break;')

    def s_SwitchStmt(self, n, c):
        cond, body = c[0], c[-1]
        v = self.fresh('sw')
        ct = self.rty(qt(cond))
        self.emit('let %s: %s = %s;' % (v, ct, self.expr(cond)))
        # flatten the body into (labels, stmt) items
        items = []

        def add(st):
            labels = []
            while st.get('kind') in ('CaseStmt', 'DefaultStmt'):
                cc = kids(st)
                if st['kind'] == 'CaseStmt':
                    if len(cc) == 1:
                        labels.append(cc[0])
                        st = {}
                        break
                    labels.append(cc[0])
                    st = cc[-1]
                else:
                    labels.append(None)
                    st = cc[-1] if cc else {}
            if labels:
                items.append(('L', labels))
            if st.get('kind'):
                items.append(('S', st))
        if body.get('kind') != 'CompoundStmt':
            raise Ext('switch body')
        for st in kids(body):
            add(st)
        entries = []
        has_default = False
        for i, (kk, x) in enumerate(items):
            if kk == 'L':
                entries.append((i, x))
        # an entry directly followed by another label falls through into it: bodies are taken from the flat list
        default_entry = None
        branches = []
        for i, labels in entries:
            stm = []
            for kk, x in items[i + 1:]:
                if kk == 'S':
                    stm.append(x)
            # cut at the first top-level statement that leaves the switch
            cut = []
            for s in stm:
                cut.append(s)
                if self.leaves(s):
                    break
            branches.append((labels, cut))
        self.loops.append('switch')
        out = []
        first = True
        dflt = None
        for labels, cut in branches:
            if None in labels:
                dflt = cut
                labels = [l for l in labels if l is not None]
                if not labels:
                    continue
                # labels sharing the default body need no own branch
                continue
            conds = []
            for l in labels:
                conds.append('%s == %s' % (v, self.const(l, ct)))
            b = self.block(lambda: self.switch_body(cut, labels))
            out.append(('if ' if first else '} else if ') + ' || '.join(conds) + ' {')
            out += ['    ' + l for l in b]
            first = False
        b = self.block(lambda: self.switch_body(dflt, None)) if dflt is not None else []
        self.loops.pop()
        if first:
            for l in b:
                self.emit(l)
            return
        if b:
            out.append('} else {')
            out += ['    ' + l for l in b]
        out.append('}')
        for l in out:
            self.emit(l)

    def leaves(self, s):
        k = s.get('kind')
        if k in ('BreakStmt', 'ReturnStmt', 'ContinueStmt', 'CXXThrowExpr'):
            return True
        if k == 'CompoundStmt':
            return any(self.leaves(x) for x in kids(s))
        if k == 'CallExpr' and callee_name(s) == 'rb_raise':
            return True
        if k == 'ExprWithCleanups':
            return any(self.leaves(x) for x in kids(s))
        if k == 'IfStmt':
            cc = kids(s)
            return len(cc) == 3 and self.leaves(cc[1]) and self.leaves(cc[2])
        return False

    def switch_body(self, cut, labels):
        if labels is not None:
            self.anchor('case:%s.begin' % self.label_name(labels[0]))

        def strip(ss):
            out = []
            for s in ss:
                if s.get('kind') == 'BreakStmt':
                    return out, True
                if s.get('kind') == 'CompoundStmt':
                    inner, left = strip(kids(s))
                    if left:
                        s2 = dict(s)
                        s2['inner'] = inner
                        out.append(s2)
                        return out, True
                if s.get('kind') == 'IfStmt' and self.breaks(s):
                    raise Ext('break inside if inside switch')
                out.append(s)
            return out, False
        ss, _ = strip(cut)
        self.stmts(ss)
        if labels is not None:
            self.anchor('case:%s.end' % self.label_name(labels[0]))

    def breaks(self, n):
        k = n.get('kind')
        if k == 'BreakStmt':
            return True
        if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'SwitchStmt', 'CXXForRangeStmt'):
            return False
        return any(self.breaks(x) for x in kids(n))

    def label_name(self, l):
        u = self.unwrap(l, casts=True)
        if u.get('kind') == 'DeclRefExpr':
            return u['referencedDecl']['name']
        return str(u.get('value', '?'))

    def const(self, n, ty):
        u = self.unwrap(n, casts=True)
        if u.get('kind') == 'DeclRefExpr' and u['referencedDecl']['kind'] == 'EnumConstantDecl':
            return self.tr.enum_const(u['referencedDecl']['name'], ty)
        if 'value' in n and n.get('kind') == 'ConstantExpr':
            return '%s%s' % (n['value'], ty if ty != 'bool' else '')
        return self.expr(n)

    def s_ReturnStmt(self, n, c):
        if self.inl:
            fr = self.inl[-1]
            if not fr.get('ok'):
                raise Ext('return inside inlined helper')
            if c:
                e = self.value(c[0], fr['ret'])
                self.emit('%s = %s;' % (fr['var'], e))
            return
        self.retno += 1
        no = self.retno
        if not c:
            self.anchor('return#%d' % no)
            self.anchor('return')
            self.emit('return Ok(());' if self.throws else 'return;')
            return
        if self.ret == '()':
            # `return f();` with a void expression
            e = self.discard(c[0])
            if e:
                self.emit(e + ';')
            self.anchor('return#%d' % no)
            self.anchor('return')
            self.emit('return Ok(());' if self.throws else 'return;')
            return
        e = self.value(c[0], self.ret)
        if ('return#%d' % no) in self.spec.anchors or 'return' in self.spec.anchors:
            t = self.fresh('ret')
            self.emit('let %s = %s;' % (t, e))
            for an in ('return#%d' % no, 'return'):
                txt = self.spec.anchors.get(an)
                if txt:
                    self.tr.used_anchors.add((self.spec.rust, an))
                    for l in txt.rstrip('\n').split('\n'):
                        self.emit(l.replace('$ret', t))
            e = t
        self.emit('return Ok(%s);' % e if self.throws else 'return %s;' % e)

    def s_CXXTryStmt(self, n, c):
        body = c[0]
        handlers = c[1:]
        if len(handlers) != 1:
            raise Ext('multiple catch clauses')
        hb = [x for x in kids(handlers[0]) if x.get('kind') == 'CompoundStmt'][0]
        after = kids(hb)
        if not self.leaves(hb):
            after = after + self.rest
            if not any(self.leaves(x) for x in self.rest) or self.catch:
                raise Ext('catch handler that falls through')
        h = self.block(lambda: self.stmts(after))
        self.catch.append(h)
        b = self.block(lambda: self.stmts(kids(body)))
        self.catch.pop()
        for l in b:
            self.emit(l)

    def throw(self):
        if self.catch:
            for l in self.catch[-1]:
                self.emit(l)
            return
        if self.inl and not self.throws:
            raise Ext('throw in inlined helper of a non-throwing function')
        if not self.throws:
            raise Ext('%s may now throw, its contract says it does not' % self.spec.rust)
        self.throwno += 1
        self.anchor('throw#%d' % self.throwno)
        self.anchor('throw')
        self.emit('return Err(Ex {});')

    def s_CXXThrowExpr(self, n, c):
        self.throw()

    # -- expressions
    WRAP = ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr')

    def unwrap(self, n, casts=False):
        while True:
            k = n.get('kind')
            c = kids(n)
            if k in self.WRAP and c:
                n = c[0]
                continue
            if casts and k in ('ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr') and c:
                n = c[0]
                continue
            if not casts and k == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp', 'LValueToRValue', 'FunctionToPointerDecay') and c:
                n = c[0]
                continue
            return n

    def cond(self, n):
        return self.expr(n)

    def value(self, n, ty):
        """Expression used by value (copied)."""
        e = self.expr(n)
        if e.startswith('dup_') or (re.match(r'^c__\d+$', e) and self.unwrap(n).get('kind') == 'CXXConstructExpr'):
            return e
        if ty and (ty.startswith('Vec<') or ty in self.tr.clone_types):
            u = self.unwrap(n)
            # copying an lvalue
            if self.is_place(n):
                return 'dup_%s(%s)' % (self.tr.tyname(ty), self.as_ref(n, e))
        return e

    def is_place(self, n):
        u = self.unwrap(n)
        k = u.get('kind')
        if k == 'CXXConstructExpr' and len(kids(u)) == 1:
            return self.is_place(kids(u)[0])
        return k in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr') or (k == 'CXXOperatorCallExpr' and callee_name(u) in ('operator[]', 'operator*')) or \
            (k == 'CXXMemberCallExpr' and self.unwrap(u).get('valueCategory') == 'lvalue')

    def as_ref(self, n, e=None):
        """Expression of Rust type &T for a C++ glvalue of class type."""
        if e is None:
            e = self.expr(n)
        if e.startswith('dup_'):
            return '&' + e
        u = self.unwrap(n)
        while u.get('kind') == 'CXXConstructExpr' and len(kids(u)) == 1:
            u = self.unwrap(kids(u)[0])
        if u.get('kind') == 'DeclRefExpr':
            t = self.types.get(u['referencedDecl']['id'], '')
            if u['referencedDecl']['id'] in self.alias:
                return '&' + e
            if t.startswith('&mut') or t.startswith('STREAM'):
                return '&*' + e
            if t.startswith('&'):
                return e
        if u.get('kind') == 'CXXThisExpr':
            return 'self' if self.thisx == 'self' else '&' + self.thisx
        return '&' + e

    def as_mut(self, n):
        u = self.unwrap(n)
        e = self.expr(n)
        if u.get('kind') == 'DeclRefExpr':
            t = self.types.get(u['referencedDecl']['id'], '')
            if u['referencedDecl']['id'] in self.alias:
                return '&mut ' + e
            if t.startswith('&mut') or t.startswith('STREAM'):
                return e
        if u.get('kind') == 'CXXThisExpr':
            return 'self' if self.thisx == 'self' else '&mut ' + self.thisx
        if e == 'self':
            return '&mut *self'
        return '&mut ' + e

    def lvalue(self, n):
        e = self.expr(n)
        if not re.match(r'^[\w\.\*\(\)\[\]]+$', e):
            t = self.fresh('ref')
            self.emit('let %s = %s;' % (t, e))
            return t
        return e

    def expr(self, n):
        k = n.get('kind')
        c = kids(n)
        if k in self.WRAP:
            return self.expr(c[0])
        m = getattr(self, 'e_' + k, None)
        if not m:
            raise Ext('expression %s' % k)
        return m(n, c)

    def e_ImplicitCastExpr(self, n, c):
        ck = n.get('castKind')
        if ck == 'LValueToRValue':
            nm = self.nmem_ref(self.unwrap(c[0]))
            if nm:
                return 'nrd%d(&*%s, %s.p)' % (nm[1] * 8, self.spec.attr['nmem'], nm[0])
        if ck in ('NoOp', 'LValueToRValue', 'FunctionToPointerDecay', 'ConstructorConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'UserDefinedConversion', 'ArrayToPointerDecay'):
            return self.expr(c[0])
        if ck == 'IntegralCast':
            return self.icast(c[0], n)
        if ck == 'IntegralToBoolean':
            e = self.expr(c[0])
            return '(%s != 0)' % e
        if ck == 'BitCast':
            return self.expr(c[0])
        if ck == 'NullToPointer':
            return self.tr.null(self, n)
        if ck == 'PointerToBoolean':
            h = self.tr.nonnull(self, c[0])
            if h:
                return h
        raise Ext('cast ' + str(ck))

    def icast(self, src, n):
        to = self.rty(qt(n))
        u = self.unwrap(src)
        if u.get('kind') == 'IntegerLiteral':
            if to == 'bool':
                return 'true' if u['value'] != '0' else 'false'
            return '%s%s' % (u['value'], to)
        if u.get('kind') == 'CharacterLiteral':
            return '%d%s' % (u['value'], to)
        if u.get('kind') == 'DeclRefExpr' and u['referencedDecl']['kind'] == 'EnumConstantDecl':
            return self.tr.enum_const(u['referencedDecl']['name'], to)
        st = qt(src)
        try:
            frm = self.rty(st)
        except Ext:
            # enum typed expression
            frm = None
        e = self.expr(src)
        if frm == to:
            return e
        if self.vals and not self.spec.attr.get('nmem') and u.get('kind') == 'DeclRefExpr' and self.types.get(u['referencedDecl']['id']) == 'NRef':
            a, b = self.tr.num_name(qt(n)), self.tr.num_name(st)
            if a and b and self.tr.NUMS[a] == self.tr.NUMS[b]:
                return e
            if to == 'i32' and a and b and self.tr.NUMS[b][1] != 'f' and self.tr.NUMS[b][0] <= 2:
                return 'nref_int(%s)' % e
            raise Ext('conversion of a number in memory')
        if frm == 'bool':
            return '(if %s { 1%s } else { 0%s })' % (e, to, to)
        if strip_cv(st) == 'char' and to != 'bool':
            # plain char is signed
            return 'c2i(%s)' % e if to == 'i32' else '(c2i(%s) as %s)' % (e, to)
        if frm == 'usize' and to == 'i32' and self.spec.attr.get('wrap'):
            return 'low32(%s)' % e
        if to == 'u8' and frm in ('usize', 'u64') and self.spec.attr.get('wrap'):
            return 'low8(%s as usize)' % e
        if self.value_obj and (frm, to) in (('u32', 'i32'), ('i32', 'u32')):
            return '%s(%s)' % ('to_signed' if to == 'i32' else 'to_unsigned', e)
        if frm == 'i32' and to in ('usize', 'u64'):
            return '(sx32(%s) as %s)' % (e, to)
        return '(%s as %s)' % (e, to)

    def e_CXXStaticCastExpr(self, n, c):
        return self.e_anycast(n, c)

    def e_CXXDynamicCastExpr(self, n, c):
        h = self.tr.dyncast(self, n, c[0])
        if h is None:
            raise Ext('dynamic_cast to %s' % qt(n))
        return h

    def e_CXXFunctionalCastExpr(self, n, c):
        return self.e_anycast(n, c)

    def e_CStyleCastExpr(self, n, c):
        return self.e_anycast(n, c)

    def e_CXXConstCastExpr(self, n, c):
        return self.expr(c[0])

    def e_CXXReinterpretCastExpr(self, n, c):
        to = qt(n)
        src = qt(c[0])
        if self.ruby and self.rty_or_none(to) == 'usize' and self.rty_or_none(src) == 'usize':
            return self.expr(c[0])
        h = self.tr.reinterpret(self, n, c[0], to, src)
        if h is not None:
            return h
        if self.is_ptr(to) and self.is_ptr(src):
            return self.expr(c[0])
        raise Ext('reinterpret_cast from %s to %s' % (src, to))

    def e_anycast(self, n, c):
        ck = n.get('castKind')
        if ck in ('NoOp', 'ConstructorConversion', 'LValueToRValue'):
            return self.expr(c[0])
        if ck == 'IntegralCast':
            return self.icast(c[0], n)
        if ck == 'IntegralToBoolean':
            return '(%s != 0)' % self.expr(c[0])
        if ck == 'NullToPointer':
            return '0usize'
        if ck == 'BitCast':
            return self.expr(c[0])
        if ck == 'ToVoid':
            return '()'
        if self.ruby and ck in ('PointerToIntegral', 'IntegralToPointer') and self.rty_or_none(qt(n)) == 'usize' and self.rty_or_none(qt(c[0])) == 'usize':
            return self.expr(c[0])
        if ck == 'BaseToDerived':
            h = self.tr.downcast(self, n, c[0])
            if h is not None:
                return h
        raise Ext('cast %s' % ck)

    def e_IntegerLiteral(self, n, c):
        t = self.rty(qt(n))
        return '%s%s' % (n['value'], t)

    def e_CharacterLiteral(self, n, c):
        return '%du8' % n['value']

    def e_CXXBoolLiteralExpr(self, n, c):
        return 'true' if n['value'] else 'false'

    def e_GNUNullExpr(self, n, c):
        return '0usize'

    def e_CXXNullPtrLiteralExpr(self, n, c):
        return '0usize'

    def e_StringLiteral(self, n, c):
        v = json.loads(n['value']) if n.get('value') else ''
        t = self.fresh('lit')
        self.emit('let %s: Vec<u8> = %s;' % (t, self.tr.string_lit(v)))
        return t

    def e_CXXThisExpr(self, n, c):
        return self.thisx

    def e_CXXThrowExpr(self, n, c):
        self.throw()
        return '()'

    def e_CXXDeleteExpr(self, n, c):
        if self.ruby:
            return self.tr.ruby.delete(self, n, c)
        raise Ext('expression CXXDeleteExpr')

    def e_CXXNewExpr(self, n, c):
        if self.ruby:
            return self.tr.ruby.new(self, n, c)
        if self.heap:
            return self.tr.heap_new(self, n, c)
        # new X(args) for a class represented by handles: the constructor is a trusted function new_x
        if n.get('isArray') or n.get('isPlacement'):
            raise Ext('new[]')
        x = self.unwrap(c[0])
        cls = strip_cv(qt(x)).split('::')[-1]
        if x.get('kind') != 'CXXConstructExpr' or self.rty(qt(x)) != 'TyRef':
            raise Ext('new %s' % cls)
        args = [a for a in kids(x) if a.get('kind') != 'CXXDefaultArgExpr']
        es = []
        for a in args:
            e = self.expr(a)
            t = self.rty(qt(a))
            es.append(e if t in INTS or self.tr.is_copy(t) else self.as_ref(a, e))
        return self.finish_call('new_%s' % cls.lower(), None, es, False, 'TyRef', 'new')

    def e_DeclRefExpr(self, n, c):
        d = n['referencedDecl']
        i = d['id']
        if i in self.alias:
            return self.alias[i]
        if i in self.names:
            nm = self.names[i]
            t = self.types.get(i, '')
            if (t.startswith('&mut ') and (t[5:] in INTS or self.tr.is_copy(t[5:]))):
                return '(*%s)' % nm
            return nm
        if d['kind'] == 'EnumConstantDecl':
            return self.tr.enum_const(d['name'], None)
        g = self.tr.global_const(d['name'])
        if g is not None:
            return g
        raise Ext('reference to %s %s' % (d['kind'], d.get('name')))

    def e_MemberExpr(self, n, c):
        if self.ruby and not (self.flat is not None and n['name'] in dict(self.flat) and not self.inl and self.unwrap(c[0], casts=True).get('kind') == 'CXXThisExpr'):
            return self.tr.ruby.member(self, n, c)
        name = n['name']
        b = c[0]
        u = self.unwrap(b, casts=True)
        if u.get('kind') == 'CXXThisExpr' and self.flat is not None and name in dict(self.flat) and not self.inl:
            t = dict(self.flat)[name]
            if self.links and t.startswith('&mut'):
                return '(*%s)' % self.rn(name)
            return '(*%s)' % self.rn(name) if t.startswith('&mut') and t[5:] in INTS else self.rn(name)
        if u.get('kind') == 'CXXThisExpr':
            h = self.tr.member(self, self.thisx, self.cls, name)
            return h if h is not None else '%s.%s' % (self.thisx, self.rn(name))
        if self.link_of(u) and name in dict(self.flat) and not self.inl:
            return '(*%s)' % self.rn(name) if dict(self.flat)[name].startswith('&mut') else self.rn(name)
        be = self.expr(b)
        if n.get('isArrow') and self.opt(qt(b)) and u.get('kind') != 'CXXOperatorCallExpr':
            be = '(%s).unwrap()' % be
        bt = strip_cv(qt(b).rstrip('*').strip())
        if name in ('first', 'second') and re.match(r'^(const )?(std::)?pair<', bt):
            return '%s.%d' % (be, 0 if name == 'first' else 1)
        if n.get('isArrow') and re.search(r'iterator', bt):
            pass
        h = self.tr.member(self, be, bt, name)
        if h is not None:
            return h
        return '%s.%s' % (be, self.rn(name))

    def link_of(self, u):
        '''the classes of the object reached through a linking member, most derived first'''
        if self.links and u.get('kind') == 'MemberExpr' and u['name'] in self.links and self.unwrap(kids(u)[0], casts=True).get('kind') == 'CXXThisExpr':
            return self.links[u['name']]
        return None

    def qualified(self, me):
        '''whether a method is named with its class, which switches virtual dispatch off'''
        f = self.idx.file_of(me)
        if f is None:
            raise Ext('cannot find the text of a call to %s' % me['name'])
        if not os.path.isabs(f):
            f = os.path.join(self.tr.repo, f)
        b = kids(me)[0]['range']
        e = me['range']['end']['offset']
        text = open(f, 'rb').read()
        b0 = me['range']['begin']['offset']
        if text[b0:b0 + len(me['name'])].decode(errors='replace') == me['name'] and self.unwrap(kids(me)[0], casts=True).get('implicit'):
            return False
        if text[e:e + len(me['name'])].decode(errors='replace') != me['name']:
            raise Ext('cannot find the text of a call to %s' % me['name'])
        u = self.unwrap(kids(me)[0], casts=True)
        if u.get('kind') == 'CXXThisExpr' and u.get('implicit'):
            return me['range']['begin']['offset'] != e
        s = b['end']['offset'] + b['end'].get('tokLen', 0)
        return b'::' in text[s:e]

    def e_ConditionalOperator(self, n, c):
        cnd = self.cond(c[0])
        save = self.pre
        a = b = None
        pa = self.block(lambda: setattr(self, '_a', self.expr(c[1])))
        a = self._a
        pb = self.block(lambda: setattr(self, '_a', self.expr(c[2])))
        b = self._a
        if not pa and not pb:
            return '(if %s { %s } else { %s })' % (cnd, a, b)
        t = self.fresh()
        self.emit('let %s;' % t)
        self.emit('if %s {' % cnd)
        for l in pa:
            self.emit('    ' + l)
        self.emit('    %s = %s;' % (t, a))
        self.emit('} else {')
        for l in pb:
            self.emit('    ' + l)
        self.emit('    %s = %s;' % (t, b))
        self.emit('}')
        return t

    def two(self, a, b):
        """Evaluate two operands left to right, keeping effects in order."""
        ea = self.expr(a)
        pb = self.block(lambda: setattr(self, '_b', self.expr(b)))
        eb = self._b
        if pb and not re.match(r'^[0-9]', ea):
            t = self.fresh()
            self.emit('let %s = %s;' % (t, ea))
            ea = t
        for l in pb:
            self.emit(l)
        return ea, eb

    def e_BinaryOperator(self, n, c):
        if self.ruby:
            h = self.tr.ruby.binop(self, n, c)
            if h is not None:
                return h
        op = n['opcode']
        if op == '=':
            return self.assign(c[0], c[1])
        if op == ',':
            e = self.discard(c[0])
            if e:
                self.emit(e + ';')
            return self.expr(c[1])
        if op in ('&&', '||'):
            a = self.cond(c[0])
            pb = self.block(lambda: setattr(self, '_b', self.cond(c[1])))
            b = self._b
            if not pb:
                return '(%s %s %s)' % (a, op, b)
            t = self.fresh('b')
            self.emit('let mut %s: bool = %s;' % (t, a))
            self.emit('if %s%s {' % ('' if op == '&&' else '!', t))
            for l in pb:
                self.emit('    ' + l)
            self.emit('    %s = %s;' % (t, b))
            self.emit('}')
            return t
        h = self.tr.handle_binop(self, op, c) or self.tr.heap_binop(self, op, c)
        if h is not None:
            return h
        # pointer arithmetic
        if self.is_ptr(qt(c[0])) or self.is_ptr(qt(c[1])):
            return self.ptr_binop(n, op, c)
        a, b = self.two(c[0], c[1])
        if op in '+-*' and self.spec.attr.get('wrap') == 'all' and self.rty(qt(n)) == 'usize':
            return 'w%s(%s, %s)' % ({'+': 'add', '-': 'sub', '*': 'mul'}[op], a, b)
        if op in '+-' and self.spec.attr.get('wrap') == 'all' and self.rty(qt(n)) == 'u32':
            return 'w%s32(%s, %s)' % ('add' if op == '+' else 'sub', a, b)
        if op == '-' and self.spec.attr.get('wrap') and self.rty(qt(n)) == 'usize':
            return 'usub(%s, %s)' % (a, b)
        return '(%s %s %s)' % (a, op, b)

    def ptr_binop(self, n, op, c):
        if op in ('==', '!='):
            if self.is_mut_ptr_expr(c[0]) and self.is_mut_ptr_expr(c[1]):
                (a, ra), (b, rb) = self.ptr(c[0]), self.ptr(c[1])
                if ra != rb:
                    # addresses in two objects: equal only if these are one and the same
                    return '%ssame_place(%s, %s, %s, %s)' % ('!' if op == '!=' else '', ra.replace('&mut *', '&*'), a, rb.replace('&mut *', '&*'), b)
            a, b = self.two(c[0], c[1])
            return '(%s %s %s)' % (a, op, b)
        if op == '+':
            if not self.is_ptr(qt(c[0])):
                c = [c[1], c[0]]
            a, b = self.two(c[0], c[1])
            b = '(%s as usize)' % b if self.rty(qt(c[1])) != 'usize' else b
            if self.is_mut_ptr_expr(c[0]):
                return '(%s + %s)' % (a, b)
            return '%s.add(%s)' % (a, b)
        raise Ext('pointer operator ' + op)

    def ptr(self, n):
        """A mutable pointer expression: (offset, memory root)."""
        u = self.unwrap(n, casts=True)
        k = u.get('kind')
        if k == 'DeclRefExpr':
            i = u['referencedDecl']['id']
            if self.ptrkind.get(i) == 'mut':
                return self.names[i], self.root[i]
            raise Ext('pointer %s has no known object' % u['referencedDecl'].get('name'))
        if k == 'BinaryOperator' and u['opcode'] == '+':
            a, b = kids(u)
            if not self.is_ptr(qt(a)):
                a, b = b, a
            off, root = self.ptr(a)
            be = self.expr(b)
            if self.rty(qt(b)) != 'usize':
                be = '(%s as usize)' % be
            return '(%s + %s)' % (off, be), root
        h = self.tr.ptr_hook(self, u)
        if h is not None:
            return h
        if k == 'UnaryOperator' and u['opcode'] == '&':
            x = self.unwrap(kids(u)[0])
            if x.get('kind') == 'ArraySubscriptExpr':
                a, b = kids(x)
                off, root = self.ptr(a)
                be = self.expr(b)
                if self.rty(qt(b)) != 'usize':
                    be = '(%s as usize)' % be
                return ('(%s + %s)' % (off, be) if be not in ('0usize', '(0i32 as usize)') else off), root
        raise Ext('pointer expression %s' % k)

    def nmem_ref(self, u):
        """(name, size) when u names a number in the memory that is passed along"""
        if self.spec.attr.get('nmem') and u.get('kind') == 'DeclRefExpr' and self.types.get(u['referencedDecl']['id']) == 'NRef':
            b = self.tr.num_name(qt(u))
            if not b:
                raise Ext('number of unknown type')
            return self.names[u['referencedDecl']['id']], self.tr.NUMS[b][0]
        return None

    def assign(self, l, r):
        lu = self.unwrap(l)
        nm = self.nmem_ref(lu)
        if nm:
            # a store to a number somewhere in memory
            e = self.value(r, self.rty(qt(l)))
            t = self.fresh('v')
            self.emit('let %s = %s;' % (t, e))
            self.emit('nwr%d(&mut *%s, %s.p, %s);' % (nm[1] * 8, self.spec.attr['nmem'], nm[0], t))
            return 'nrd%d(&*%s, %s.p)' % (nm[1] * 8, self.spec.attr['nmem'], nm[0])
        if self.is_ptr(qt(l)):
            if lu.get('kind') == 'DeclRefExpr' and self.ptrkind.get(lu['referencedDecl']['id']) == 'mut':
                off, root = self.ptr(r)
                i = lu['referencedDecl']['id']
                if self.root[i] != root:
                    raise Ext('pointer re-bound to another object')
                self.emit('%s = %s;' % (self.names[i], off))
                return self.names[i]
            e = self.expr(r)
            le = self.expr(l)
            self.store(le, e)
            return le
        ty = None
        try:
            ty = self.rty(qt(l))
        except Ext:
            pass
        h = self.tr.assign_hook(self, lu, r)
        if h is not None:
            return h
        e = self.value(r, ty)
        le = self.expr(l)
        self.bind_root(le, e)
        an = self.spec.anchors.get('assign:' + le.strip('(*)'))
        if an and not self.inl:
            # a fact about the assigned expression
            self.emit(an.replace('$rhs', e))
        self.store(le, e)
        return le

    def store(self, le, e):
        m = re.match(r'^([\w.]+)\.v\[(c__\d+)\]\.1$', le)
        if m and m.group(1).startswith('self.') and self.spec.attr.get('mapstore'):
            # a store through operator[] of a map: the keys stay
            g = self.fresh('g')
            v = self.fresh('v')
            self.emit('let %s = %s;' % (v, e))
            self.emit('let ghost %s = %s;' % (g, m.group(1)))
            self.emit('%s = %s;' % (le, v))
            self.emit('proof { assert(%s.same_keys(%s)); %s.lemma_same_keys(%s); }' % (m.group(1), g, m.group(1), g))
            return
        m = re.match(r'^w\.get_(\w+)\((.*)\)$', le)
        if self.ruby and m:
            t = self.fresh('v')
            self.emit('let %s = %s;' % (t, e))
            self.finish_call('w.set_' + m.group(1), None, [m.group(2), t], False, '()', 'set_' + m.group(1))
            return
        m = re.match(r'^rd(32|64)\((\w+), (\w+)\)$', le)
        if m and m.group(2) in self.bytevars:
            t = self.fresh('v')
            self.emit('let %s = %s;' % (t, e))
            self.finish_call('wr%s' % m.group(1), None, ['&mut *' + m.group(2), m.group(3), t], False, '()', 'wr' + m.group(1))
            return
        m = re.match(r'^(.*)\[(\w+)\]$', le)
        if m and m.group(1) in self.bytevars:
            t = self.fresh('v')
            self.emit('let %s = %s;' % (t, e))
            self.emit('%s.set(%s, %s);' % (m.group(1), m.group(2), t))
            return
        if m and m.group(1) in self.seqroot:
            self.emit('%s.set(%s, %s);' % (m.group(1), m.group(2), e))
        else:
            self.emit('%s = %s;' % (le, e))

    def e_CompoundAssignOperator(self, n, c):
        op = n['opcode'][:-1]
        lt, ct = None, None
        if self.is_ptr(qt(c[0])):
            le = self.expr(c[0])
            e = self.expr(c[1])
            if self.rty(qt(c[1])) != 'usize':
                e = '(%s as usize)' % e
            if self.is_mut_ptr_expr(c[0]):
                self.emit('%s = %s %s %s;' % (le, le, op, e))
            else:
                self.emit('%s = %s.add(%s);' % (le, le, e))
            return le
        lt = self.rty(qt(c[0]))
        ct = n.get('computeResultType', {})
        ct = INT.get(strip_cv(ct.get('desugaredQualType') or ct.get('qualType', '')), lt)
        e = self.expr(c[1])
        le = self.expr(c[0])
        if ct == lt and op in '+-*' and self.spec.attr.get('wrap') == 'all' and lt == 'usize':
            rhs = 'w%s(%s, %s)' % ({'+': 'add', '-': 'sub', '*': 'mul'}[op], le, e)
        elif ct == lt:
            rhs = '%s %s %s' % (le, op, e)
        else:
            rt = self.rty(qt(c[1]))
            if op in ('<<', '>>'):
                rhs = '((%s as %s) %s %s) as %s' % (le, ct, op, e, lt)
            else:
                rhs = '((%s as %s) %s %s) as %s' % (le, ct, op, e, lt)
        self.emit('%s = %s;' % (le, rhs))
        return le

    def incdec(self, n):
        c = kids(n)
        op = '+' if n['opcode'] == '++' else '-'
        le = self.expr(c[0])
        t = qt(c[0])
        if self.is_ptr(t):
            if not self.is_mut_ptr_expr(c[0]):
                self.emit('%s = %s.add(1);' % (le, le))
                return le
        self.store(le, '%s %s 1' % (le, op))
        return le

    def e_UnaryOperator(self, n, c):
        op = n['opcode']
        if op in ('++', '--'):
            if n.get('isPostfix'):
                le = self.expr(c[0])
                t = self.fresh()
                self.emit('let %s = %s;' % (t, le))
                self.incdec(n)
                return t
            return self.incdec(n)
        if op == '!':
            return '!(%s)' % self.expr(c[0])
        if op == '-':
            return '(-(%s))' % self.expr(c[0])
        if op == '~':
            return '!(%s)' % self.expr(c[0])
        if op == '+':
            return self.expr(c[0])
        if op == '*' and self.vals:
            h = self.tr.num_deref(self, c[0])
            if h is not None:
                return h
        if op == '*' and self.opt(qt(c[0])):
            return '(%s).unwrap()' % self.expr(c[0])
        if op == '*':
            u = self.unwrap(c[0], casts=True)
            if u.get('kind') == 'CXXThisExpr':
                return self.thisx
            return self.tr.deref(self, n, c[0])
        if op == '&':
            h = self.tr.addr_of(self, n, c[0])
            if h is not None:
                return h
        raise Ext('unary operator ' + op)

    def e_UnaryExprOrTypeTraitExpr(self, n, c):
        t = n.get('argType', {})
        t = t.get('desugaredQualType') or t.get('qualType') or (qt(c[0]) if c else '')
        sizes = {'usize': 8, 'u64': 8, 'i64': 8, 'u32': 4, 'i32': 4, 'u16': 2, 'i16': 2, 'u8': 1, 'i8': 1, 'bool': 1}
        r = self.rty(t)
        if r in sizes:
            return '%dusize' % sizes[r]
        h = self.tr.sizeof(r)
        if h:
            return h
        raise Ext('sizeof ' + t)

    def e_ArraySubscriptExpr(self, n, c):
        return self.tr.subscript(self, n, c)

    def e_CXXDefaultArgExpr(self, n, c):
        raise Ext('default argument outside call')

    def e_CXXConstructExpr(self, n, c):
        args = [x for x in c if x.get('kind') != 'CXXDefaultArgExpr']
        t = qt(n)
        try:
            r = self.rty(t)
        except Ext:
            r = None
        h = self.tr.construct(self, n, args, r, t)
        if h is not None:
            return h
        if len(args) == 1:
            st = qt(args[0])
            try:
                sr = self.rty(st)
            except Ext:
                sr = None
            if sr == r and r is not None:
                if (r.startswith('Vec<') or r in self.tr.clone_types) and self.is_place(args[0]) and n.get('valueCategory') == 'prvalue':
                    e = self.expr(args[0])
                    return 'dup_%s(%s)' % (self.tr.tyname(r), self.as_ref(args[0], e))
                return self.expr(args[0])
            if self.unwrap(args[0]).get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr'):
                return self.expr(args[0])
        if not args and r is not None:
            d = self.tr.default_value(r)
            if d is not None:
                return d
        raise Ext('construction of %s with %d arguments' % (t, len(args)))

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    # -- iterators
    def it_incdec(self, n):
        c = kids(n)
        le = self.expr(c[1])
        if self.root_of(le) and self.ends:
            if callee_name(n) != 'operator++':
                raise Ext('a step back of an iterator')
            self.emit('%s = next_ix(%s, %s.len());' % (le, le, self.items_of(self.root_of(le))))
            return le
        if self.root_of(le):
            self.emit('%s = %s_ix(%s, %s.len());' % (le, 'inc' if callee_name(n) == 'operator++' else 'dec', le, self.items_of(self.root_of(le))))
            return le
        self.emit('%s.%s();' % (le, 'inc' if callee_name(n) == 'operator++' else 'dec'))
        return le

    def e_CXXOperatorCallExpr(self, n, c):
        op = callee_name(n)
        args = c[1:]
        h = self.tr.operator(self, n, op, args)
        if h is not None:
            return h
        if op in ('operator++', 'operator--'):
            if len(args) == 2:   # postfix
                le = self.expr(args[0])
                t = self.fresh()
                self.emit('let %s = %s;' % (t, le))
                self.it_incdec(n)
                return t
            return self.it_incdec(n)
        if op == 'operator=':
            lu = self.unwrap(args[0])
            if lu.get('kind') == 'CallExpr' and callee_name(lu) == 'tie':
                return self.tie_assign(lu, args[1])
            return self.assign(args[0], args[1])
        t0 = None
        try:
            t0 = self.rty(qt(args[0]))
        except Ext:
            pass
        if op in ('operator*', 'operator->') and len(args) == 1:
            e = self.expr(args[0])
            r = self.root_of(e)
            if t0 == 'MX' or r:
                if not r:
                    raise Ext('iterator without a known container')
                return '%s[%s]' % (self.items_of(r), e)
            return '(*%s.get())' % e if t0 == "LIt<'a, TyRef>" else '%s.get()' % e
        if t0 and (t0 == 'MX' or t0.startswith('MIt') or t0.startswith('LIt')) and op in ('operator!=', 'operator=='):
            a, b = self.two(args[0], args[1])
            a, b = (x if (self.rty(qt(y)) == 'MX') else x + '.i' for x, y in ((a, args[0]), (b, args[1])))
            return '(%s %s %s)' % (a, op[-2:], b)
        if t0 and (t0.startswith('OpIt') or t0.startswith('It<') or t0.startswith('SIt')):
            if op in ('operator!=', 'operator=='):
                a, b = self.two(args[0], args[1])
                return '(%s.i %s %s.i)' % (a, op[-2:], b)
            if op in ('operator+', 'operator-'):
                t1 = self.rty(qt(args[1]))
                a, b = self.two(args[0], args[1])
                if t1 == t0:
                    return 'it_diff(%s, %s)' % (a, b)
                return '%s.%s(%s)' % (a, 'plus' if op == 'operator+' else 'minus', b)
            if op in ('operator+=', 'operator-='):
                b = self.expr(args[1])
                a = self.expr(args[0])
                self.emit('%s = %s.%s(%s);' % (a, a, 'plus' if op == 'operator+=' else 'minus', b))
                return a
        raise Ext('operator %s on %s' % (op, qt(args[0])))

    def tie_assign(self, tie, rhs):
        e = self.expr(rhs)
        t = self.fresh()
        self.emit('let %s = %s;' % (t, e))
        for i, a in enumerate(kids(tie)[1:]):
            u = self.unwrap(a, casts=True)
            if 'ignore' in (u.get('referencedDecl', {}) or {}).get('name', '') or 'swallow_assign' in qt(a) or 'ignore' in qt(a):
                continue
            if u.get('kind') == 'DeclRefExpr' and self.ptrkind.get(u['referencedDecl']['id']) == 'mut':
                self.emit('%s = %s.%d;' % (self.names[u['referencedDecl']['id']], t, i))
                continue
            self.emit('%s = %s.%d;' % (self.expr(a), t, i))
        return '()'

    # -- calls
    def call_args(self, args, ptypes, target):
        """Translate call arguments for a translated callee whose parameter kinds are known."""
        out = []
        for i, a in enumerate(args):
            kind = ptypes[i]
            mark = len(self.pre)
            es = self.arg(a, kind)
            if len(self.pre) > mark:
                # later effects: freeze earlier pure operands that mention locals
                eff = self.pre[mark:]
                del self.pre[mark:]
                for j, o in enumerate(out):
                    if o and not re.match(r'^(&mut |mem_|[0-9]|true$|false$|self\b|[a-z_0-9]+__\d+$)', o):
                        if re.match(r'^&', o):
                            continue
                        t = self.fresh('a')
                        self.emit('let %s = %s;' % (t, o))
                        out[j] = t
                self.pre += eff
            out += es
        return out

    def arg(self, a, kind):
        """kind: rust parameter type of the callee."""
        if kind == 'PTRMUT':
            u = self.unwrap(a, casts=True)
            off, root = self.ptr(a)
            return [root, off]
        if kind == 'PTRCONST':
            if self.is_mut_ptr_expr(a):
                off, root = self.ptr(a)
                return ['CPtr::of(&*%s, %s)' % (root, off)]
            return [self.expr(a)]
        if kind.startswith('&mut'):
            return [self.as_mut(a)]
        if kind.startswith('BYTES:'):
            u = self.unwrap(a, casts=True)
            while u.get('kind') == 'CXXConstructExpr' and len(kids(u)) == 1:
                u = self.unwrap(kids(u)[0], casts=True)
            if u.get('kind') != 'DeclRefExpr' or self.types.get(u['referencedDecl']['id']) != 'BYTES':
                raise Ext('a value that is no parameter')
            nm = self.names[u['referencedDecl']['id']]
            if kind == 'BYTES:mut':
                return ['&mut *' + nm]
            return ['&*' + nm if self.bytevars.get(nm) == 'mut' else nm]
        if kind == 'MVal':
            u = self.unwrap(a, casts=True)
            while u.get('kind') == 'CXXConstructExpr' and len(kids(u)) == 1:
                u = self.unwrap(kids(u)[0], casts=True)
            if u.get('kind') != 'DeclRefExpr' or self.types.get(u['referencedDecl']['id']) != 'MVal':
                raise Ext('a value that is no parameter')
            nm = self.names[u['referencedDecl']['id']]
            return ['&mut *mem_' + nm, nm]
        if kind.startswith('STREAM'):
            e = self.as_mut(a)
            return [e if e.startswith('&mut') else '&mut *' + e]
        if kind.startswith('&'):
            e = self.expr(a)
            return [self.as_ref(a, e)]
        v = self.value(a, kind)
        if kind == 'i32' and self.vals and not self.spec.attr.get('nmem'):
            u = self.unwrap(a, casts=True)
            if u.get('kind') == 'DeclRefExpr' and self.types.get(u['referencedDecl']['id']) == 'NRef' and self.tr.num_name(qt(u)) == 'int' and not v.startswith('nref_int'):
                return ['nref_int(%s)' % v]
        return [v]

    def finish_call(self, callee, recv, args, throws, retty, name):
        self.callno[name] = self.callno.get(name, 0) + 1
        no = self.callno[name]
        if "<'a>" in retty:
            # what the result may refer to must outlive it: no temporaries as arguments
            for i, a in enumerate(args):
                if re.match(r'^&[\w.]+\(.*\)$', a):
                    v = self.fresh('tmp')
                    self.emit('let %s = %s;' % (v, a[1:]))
                    args = args[:i] + ['&' + v] + args[i + 1:]
        if '&mut *w' in args:
            for i, a in enumerate(args):
                if re.search(r'\bw\.', a):
                    v = self.fresh('a')
                    self.emit('let %s = %s;' % (v, a))
                    args = args[:i] + [v] + args[i + 1:]
        self.anchor('call:%s#%d.before' % (name, no))
        e = '%s(%s)' % (callee, ', '.join(args))
        if throws:
            if self.catch:
                h = ' '.join([self.spec.anchors.get('call:%s#%d.err' % (name, no)) or ''] + self.catch[-1])
                e = 'match %s { Ok(v) => v, Err(_) => { %s } }' % (e, h)
            else:
                if not self.throws:
                    raise Ext('%s calls a throwing function but its contract says it does not throw' % self.spec.rust)
                thr = self.spec.anchors.get('call:%s#%d.err' % (name, no)) or self.spec.anchors.get('rethrow')
                if thr:
                    e = 'match %s { Ok(v) => v, Err(ex__) => { %s return Err(ex__); } }' % (e, thr)
                else:
                    e += '?'
        if retty == '()':
            self.emit(e + ';')
            res = '()'
        else:
            t = self.fresh('c')
            self.emit('let %s = %s;' % (t, e))
            res = t
        self.anchor('call:%s#%d.after' % (name, no), res)
        return res

    def e_CallExpr(self, n, c):
        name = callee_name(n)
        args = c[1:]
        h = self.tr.call(self, n, name, args)
        if h is not None:
            return h
        return self.translated_call(n, name, None, None, args)

    def e_CXXMemberCallExpr(self, n, c):
        me = self.unwrap(c[0])
        if me.get('kind') != 'MemberExpr':
            raise Ext('member call through ' + str(me.get('kind')))
        name = me['name']
        base = kids(me)[0]
        args = c[1:]
        h = self.tr.method(self, n, me, base, name, args)
        if h is not None:
            return h
        bt = strip_cv(qt(base).rstrip('*').strip())
        return self.translated_call(n, name, base, bt, args, me)

    def full_args(self, args, node, decl_id):
        """Replace default arguments by their declared default expression."""
        out = []
        for i, a in enumerate(args):
            if a.get('kind') == 'CXXDefaultArgExpr':
                d = self.idx.decls.get(decl_id)
                found = None
                # any redeclaration of the same name with a default for this position
                for x in self.idx.decls.values():
                    if d is not None and x.get('name') == d.get('name') and len(params_of(x)) == len(args):
                        p = params_of(x)[i]
                        if p.get('init') and kids(p):
                            found = kids(p)[0]
                if found is None:
                    raise Ext('unknown default argument')
                out.append(found)
            else:
                out.append(a)
        return out

    def translated_call(self, n, name, base, bt, args, me=None):
        cal = self.unwrap(kids(n)[0])
        did = me.get('referencedMemberDecl') if me else (cal.get('referencedDecl') or {}).get('id')
        ftype = (cal.get('referencedDecl') or {}).get('type', {})
        fobj = None
        if base is not None:
            u = self.unwrap(base, casts=True)
            if u.get('kind') == 'CXXThisExpr' and self.flat is not None:
                fobj = ['&mut *' + self.rn(a) if t.startswith('&mut') else self.rn(a) for a, t in self.flat]
            elif u.get('kind') == 'DeclRefExpr' and u['referencedDecl']['id'] in self.flatobj:
                fobj = self.flatobj[u['referencedDecl']['id']]
            elif self.link_of(u):
                fobj = ['&mut *' + self.rn(a) if t.startswith('&mut') else self.rn(a) for a, t in self.flat]
        if bt and self.links:
            bt = re.sub(r'<.*', '', bt)
        classes = [bt.split('::')[-1] if bt else None]
        if fobj is not None:
            d = (self.link_of(u) if self.links else None) or self.dyn
            if not (self.links and me is not None and self.qualified(me)):
                classes = d + [x for x in classes if x not in d]
        for cl in classes:
            cands = self.tr.known(name, cl, len(args), args, ftype, self, did)
            if self.links and fobj is not None:
                cands = self.tr.same_params(self, cands, did)
            if cands:
                break
            if self.links and fobj is not None and cl != classes[-1]:
                self.tr.not_overridden(self, cl, name, did)
        cands = [self.tr.dispatch(self, x, me, base) for x in cands]
        if len(cands) > 1 and fobj is not None:
            # the object is passed as its members: one that has these members
            m = [x.split(':')[0] for x in self.spec.attr.get('flat', '').split(',')]
            cands = [x for x in cands if [y.split(':')[0] for y in x.attr.get('flat', '').split(',')] == m] or cands
        if len(cands) > 1:
            raise Ext('ambiguous call to %s' % name)
        if not cands and base is not None and fobj is None and self.unwrap(base, casts=True).get('kind') == 'CXXThisExpr':
            h = self.tr.pure_virtual(self, base, name, args)
            if h is not None:
                return h
        if not cands:
            return self.inline_call(n, name, base, bt, args, did)
        s = cands[0]
        args = self.full_args(args, n, did)
        kinds = self.tr.param_kinds(s)
        rargs = self.world_args(s) + self.call_args(args, kinds, s)
        recv = None
        callee = s.attr.get('callee', s.rust)
        if s.attr.get('impl') and s.attr.get('static') == 'yes' and '::' not in callee:
            callee = '%s::%s' % (s.attr['impl'].split('~')[-1], callee)
        if fobj is not None and self.tr.flat_members(s) is not None:
            mine = [self.rn(a) for a, t in (self.flat or []) if t.startswith('&mut') and '&mut *' + self.rn(a) in fobj]
            for i, x in enumerate(rargs):
                if any('(*%s)' % m in x for m in mine) and '&mut' not in x:
                    v = self.fresh('arg')
                    self.emit('let %s = %s;' % (v, x))
                    rargs[i] = v
            rargs = fobj + rargs
        elif base is not None and s.attr.get('this'):
            rargs = [self.expr(base)] + rargs
        elif base is not None and s.attr.get('static') != 'yes':
            u = self.unwrap(base, casts=True)
            if u.get('kind') == 'CXXThisExpr':
                recv = self.thisx
            else:
                recv = self.expr(base)
            callee = '%s.%s' % (recv, s.rust.split('::')[-1])
        return self.finish_call(callee, recv, rargs, s.attr.get('throws', 'no') == 'yes', self.tr.ret_of(s), s.rust.split('::')[-1])

    def world_args(self, s):
        if not s.attr.get('world'):
            return []
        if s.attr['world'] != self.spec.attr.get('world'):
            raise Ext('call to %s, which changes types or buffers' % s.rust)
        return ['&mut *w']

    # -- helper functions without contract are inlined (so extracting a helper changes nothing)
    def inline_call(self, n, name, base, bt, args, did):
        node = None
        if did in self.idx.decls and body_of(self.idx.decls[did]):
            node = self.idx.decls[did]
            idx = self.idx
        else:
            cand = self.tr.find_helper(self, name, bt.split('::')[-1] if bt else None, len(args))
            if cand:
                node, idx = cand
        if node is None:
            raise Ext('call to %s, which has neither contract nor reachable body' % ((bt + '::' if bt else '') + name))
        if len(self.inl) > 3:
            raise Ext('inlining too deep (recursive helper %s)' % name)
        thisx, thiscls = self.thisx, self.cls
        if base is not None and self.unwrap(base, casts=True).get('kind') != 'CXXThisExpr':
            thisx, thiscls = self.lvalue(base), bt.split('::')[-1]
        body = body_of(node)
        tail = self.to_tail(kids(body))
        self.tmp += 1
        no = self.tmp
        for p, a in zip(params_of(node), args):
            pt = qt(p)
            if a.get('kind') == 'CXXDefaultArgExpr':
                raise Ext('default argument of inlined helper')
            r = self.rty(pt)
            nm = '%s_i%d' % (self.rn(p.get('name', 'p')), no)
            isref = pt.strip().endswith('&')
            isconst = pt.strip().startswith('const ')
            if r == 'PTR':
                if self.ptr_const(pt) and not self.is_mut_ptr_expr(a):
                    e = self.expr(a)
                    self.ptrkind[p['id']] = 'const'
                    self.emit('let mut %s = %s;' % (nm, e))
                else:
                    off, root = self.ptr(a)
                    self.ptrkind[p['id']] = 'mut'
                    if isref:
                        self.names[p['id']] = off
                        self.root[p['id']] = root
                        self.types[p['id']] = r
                        continue
                    self.root[p['id']] = root
                    self.emit('let mut %s: usize = %s;' % (nm, off))
                self.names[p['id']] = nm
                self.types[p['id']] = r
                continue
            if r in self.tr.stream_traits or (isref and not isconst) or (isref and not (r in INTS or self.tr.is_copy(r))):
                u = self.unwrap(a)
                e = self.expr(a)
                if u.get('kind') == 'DeclRefExpr' and u['referencedDecl']['id'] in self.types:
                    self.names[p['id']] = self.names.get(u['referencedDecl']['id'], e)
                    self.types[p['id']] = self.types[u['referencedDecl']['id']]
                    if u['referencedDecl']['id'] in self.alias:
                        self.alias[p['id']] = self.alias[u['referencedDecl']['id']]
                else:
                    self.alias[p['id']] = e
                    self.types[p['id']] = r
                continue
            e = self.value(a, r)
            self.emit('let mut %s: %s = %s;' % (nm, r, e))
            self.names[p['id']] = nm
            self.types[p['id']] = r
        # return type
        q = node.get('type', {}).get('qualType', '')
        save_node, save_ret = self.node, self.ret
        sp_ret = self.spec.attr.pop('ret', None)
        try:
            rt = self.ret_type(node)
        finally:
            if sp_ret is not None:
                self.spec.attr['ret'] = sp_ret
        var = self.fresh('inl')
        fr = {'n': no, 'var': var, 'ret': rt, 'ok': True}
        self.inl.append(fr)
        saved_loops, self.loops = self.loops, []
        saved_map, self.localmap = self.localmap, {}
        saved_idx, self.idx = self.idx, idx
        saved_this, self.thisx, self.cls = (self.thisx, self.cls), thisx, thiscls
        b = self.block(lambda: self.stmts(tail))
        self.thisx, self.cls = saved_this
        self.idx = saved_idx
        self.localmap = saved_map
        self.loops = saved_loops
        self.inl.pop()
        if rt != '()':
            self.emit('let %s: %s;' % (var, rt.replace("<'a>", "<'_>")))
        self.emit('{')
        for l in b:
            self.emit('    ' + l)
        self.emit('}')
        self.notes.append('helper %s inlined' % name)
        self.tr.inlined.add(name)
        return var if rt != '()' else '()'

    def to_tail(self, ss):
        """Rewrite so that every return is in tail position, or fail."""
        out = []
        for i, s in enumerate(ss):
            k = s.get('kind')
            if k == 'ReturnStmt':
                out.append(s)
                return out
            if not self.contains(s, ('ReturnStmt',)):
                out.append(s)
                continue
            if k == 'IfStmt':
                cc = kids(s)
                rest = ss[i + 1:]
                then = kids(cc[1]) if cc[1].get('kind') == 'CompoundStmt' else [cc[1]]
                els = (kids(cc[2]) if cc[2].get('kind') == 'CompoundStmt' else [cc[2]]) if len(cc) > 2 else []
                tl = self.leaves({'kind': 'CompoundStmt', 'inner': then})
                el = bool(els) and self.leaves({'kind': 'CompoundStmt', 'inner': els})
                nt = self.to_tail(then + ([] if tl else rest))
                ne = self.to_tail(els + ([] if el else rest))
                s2 = dict(s)
                s2['inner'] = [cc[0], {'kind': 'CompoundStmt', 'inner': nt}, {'kind': 'CompoundStmt', 'inner': ne}]
                out.append(s2)
                return out
            if k == 'CompoundStmt':
                return out + self.to_tail(kids(s) + ss[i + 1:])
            raise Ext('return inside %s of an inlined helper' % k)
        return out


def callee_name(n):
    c = kids(n)
    if not c:
        return None
    u = c[0]
    while u.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
        u = kids(u)[0]
    if u.get('kind') == 'DeclRefExpr':
        return u['referencedDecl'].get('name')
    if u.get('kind') == 'MemberExpr':
        return u.get('name')
    return None
