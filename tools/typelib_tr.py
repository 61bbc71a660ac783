"""Project-specific part of the translation: how typelib's classes, the C++ standard library and
boost helpers map to the runtime library in contracts/prelude.rs."""
import re, os, sys, json, hashlib, copy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cxx2verus import *
from ruby_tr import RubyTr

ENUMS = {}


class Translator:
    def __init__(self, repo, workdir):
        self.repo = repo
        self.ast = AST(repo, workdir)
        self.types = list(TYPES)
        self.copy_types = {'RV', 'NRef', 'BRef', 'EP', 'VRef', "RegIt<'a>", "OpIt<'a>", "It8<'a>", 'ContRef', "CPtr<'a>", "SIt<'a>", 'TyRef'}
        self.clone_types = {'MemoryLayout', 'SSet', 'Field', 'RegistryType', 'SMap<(usize, usize)>'}
        self.stream_traits = {'OutputStream', 'InputStream'}
        self.types += [
            (r'^(std::)?(list|vector)<(std::)?(string|basic_string<char>)>$', 'Vec<Vec<u8>>'),
            (r'^(Typelib::)?NameTokenizer$|^boost::tokenizer<(Typelib::)?NameSeparator.*>$', 'Vec<Vec<u8>>'),
            (r'^((Typelib::)?NameTokenizer|boost::tokenizer<(Typelib::)?NameSeparator.*>)::(const_)?(iterator|iter)$|^boost::token_iterator<(Typelib::)?NameSeparator.*>$|^boost::iterators::(detail::)?iterator_facade(_base)?<boost::(iterators::)?token_iterator<', "SIt<'a>"),
            (r'^(std::)?_List_(const_)?iterator<std::basic_string<char>>$|^(std::)?list<(std::)?(string|basic_string<char>)>::(const_)?iterator$', "SIt<'a>"),
            (r'^std::basic_(ostringstream|stringstream|ostream)<char>$|^std::(ostringstream|stringstream|ostream)$|^std::basic_(ostringstream|stringstream|ostream)<char, std::char_traits<char>(, std::allocator<char>)?>$', 'OStr'),
            (r'^(Typelib::)?(TypeBuilder::)?Modifier$', 'Modifier'),
            (r'^std::list<(Typelib::)?(TypeBuilder::)?Modifier>$|^(Typelib::)?(TypeBuilder::)?ModifierList$', 'Vec<Modifier>'),
            (r'^(Typelib::)?(TypeBuilder::)?ParsedTypename$', '(Vec<u8>, Vec<Modifier>)'),
            (r'^(Typelib::)?(Type::)?Category$', 'u32'),
            (r'^(std::)?pair<', 'TUPLE'),
            (r'^(Typelib::)?(Registry::)?RegistryType$', 'RegistryType'),
            (r'^(Typelib::)?Registry$', 'Registry'),
            (r'^utilmm::config_set$', 'Cfg'),
            (r'^(Typelib::)?(Registry::)?(RegistryIterator|Iterator)$|^boost::iterators::(detail::)?iterator_facade(_base)?<Typelib::RegistryIterator, ', "RegIt<'a>"),
            (r'^(Typelib::)?Field$', 'Field'),
            (r'^(const )?(Typelib::)?Field \*$|^(Typelib::)?Field const \*$', "Option<&'a Field>"),
            (r'^(Typelib::)?MetaData$', 'MetaData'),
            (r'^(Typelib::)?OutputStream$', 'OutputStream'),
            (r'^(Typelib::)?InputStream$', 'InputStream'),
            (r'^(Typelib::)?(MemLayout::)?(Init)?Operations$', 'usize'),
            (r'^(const )?(Typelib::)?Type \*$|^(Typelib::)?(Type|NullType|Numeric|Enum|Array|Compound|Pointer|OpaqueType|Indirect)$', 'TyRef'),
        ]
        self.specs = {}      # rust name -> Spec
        self.nodes = {}      # rust name -> (cls, node, idx)
        self.ruby = RubyTr(self)
        self.records = {'Field': 'Field'}   # classes represented by a structure of the same fields
        self.used_anchors = set()
        self.inlined = set()
        self.consts = {}
        self.externs = {}
        self.report = {}
        self.literals = {}   # string literals used by translated functions

    # ---- objects that only carry their members (visitors): passed as the list of the members
    def flat_members(self, spec):
        f = spec.attr.get('flat')
        if f is None:
            return None
        return [tuple(x.split(':', 1)) for x in f.replace('~', ' ').split(',')]

    def flat_object(self, fn, v, t, init):
        cls = re.sub(r'<.*', '', strip_cv(t)).split('::')[-1]
        sp = [s for s in self.specs.values() if 'flat' in s.attr and s.attr.get('class') == cls]
        if not sp or t.strip()[-1] in '&*':
            return None
        if init is None or init.get('kind') != 'CXXConstructExpr':
            raise Ext('initialisation of a %s' % cls)
        mem = self.flat_members(sp[0])
        args = kids(init)
        nodes = {id(x[1]): x[1] for x in fn.idx.find(cls, cls, len(args))}
        if not nodes and not args and fn.links and not [x for x in self.nodes[sp[0].rust][2].find(cls, cls) if not x[1].get('isImplicit')]:
            # the implicit constructor: nothing is assumed about the members
            nodes = {0: {'kind': 'CXXConstructorDecl', 'id': None, 'inner': [{'kind': 'CompoundStmt'}]}}
        if len(nodes) != 1:
            raise Ext('%d constructors of %s with %d arguments' % (len(nodes), cls, len(args)))
        ctor = list(nodes.values())[0]
        if kids(body_of(ctor)):
            raise Ext('the constructor of %s does more than initialise its members' % cls)
        ps = [p['id'] for p in params_of(ctor)]
        args = fn.full_args(args, init, ctor['id'])
        out = {}
        for i in kids(ctor):
            if i.get('kind') != 'CXXCtorInitializer':
                continue
            m = i.get('anyInit')
            if m is None:
                continue     # the base class, checked to be without state by the translation of its methods
            x = fn.unwrap(kids(i)[0], casts=True)
            if fn.links and not (x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] in ps):
                continue
            if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] in ps:
                a = args[ps.index(x['referencedDecl']['id'])]
                ty = dict(mem).get(m['name'], '')
                out[m['name']] = fn.as_mut(a) if ty.startswith('&mut') else fn.expr(a)
            else:
                out[m['name']] = fn.expr(x)
        miss = [m for m, _ in mem if m not in out]
        if fn.links:
            # nothing is assumed about the members the constructor leaves to others
            for m, ty in mem:
                if m in miss:
                    if m == fn.spec.attr.get('nmem'):
                        # memory is no member: it is passed along
                        out[m] = '&mut *' + m
                        continue
                    bare = ty.replace('&mut ', '')
                    v = fn.fresh(m)
                    fn.emit('let mut %s: %s = arbitrary_%s();' % (v, bare, self.tyname(bare)))
                    out[m] = '&mut ' + v if ty.startswith('&mut') else v
            miss = []
        if miss:
            raise Ext('%s does not initialise %s' % (cls, ', '.join(miss)))
        return [out[m] for m, _ in mem]

    # ---- streams that are structures with members (contracts/sinks.rs)
    STREAM_CLASS = r'^\w+(Output|Input|Counter)Stream$'

    def stream_object(self, fn, v, name, t, init):
        cls = strip_cv(t).split('::')[-1]
        if not re.match(self.STREAM_CLASS, cls) or t.strip()[-1] in '&*':
            return False
        sp = [s for s in self.specs.values() if s.attr.get('class') == cls and s.rust in self.nodes]
        if not sp:
            return False
        if init is None or init.get('kind') != 'CXXConstructExpr':
            raise Ext('initialisation of a %s' % cls)
        idx = self.nodes[sp[0].rust][2]
        args = kids(init)
        nodes = list({id(x[1]): x[1] for x in idx.find(cls, cls, len(args))}.values())
        if len(nodes) != 1:
            raise Ext('%d constructors of %s with %d arguments' % (len(nodes), cls, len(args)))
        ctor = nodes[0]
        if kids(body_of(ctor)):
            raise Ext('the constructor of %s does more than initialise its members' % cls)
        out = []
        for p, a in zip(params_of(ctor), args):
            pt = qt(p)
            nm = fn.fresh('ctor_' + p.get('name', 'p'))
            ua = fn.unwrap(a, casts=True)
            at = fn.types.get(ua['referencedDecl']['id'], '') if ua.get('kind') == 'DeclRefExpr' else ''
            r = None if at == '&mut OFile' else fn.rty(pt)
            fn.types[p['id']] = r
            if at == '&mut OFile' or (pt.strip().endswith('&') and not pt.strip().startswith('const ')):
                fn.alias[p['id']] = fn.expr(a)
                fn.types[p['id']] = 'REFMUT'
            elif r == 'PTR' and not fn.ptr_const(pt):
                off, root = fn.ptr(a)
                fn.names[p['id']], fn.root[p['id']], fn.ptrkind[p['id']] = off, root, 'mut'
            elif pt.strip().endswith('&'):
                fn.alias[p['id']] = fn.as_ref(a)
                fn.types[p['id']] = 'REF'
            else:
                fn.names[p['id']] = nm
                if r == 'PTR':
                    fn.ptrkind[p['id']] = 'const'
                fn.emit('let %s = %s;' % (nm, fn.expr(a)))
        for i in kids(ctor):
            if i.get('kind') != 'CXXCtorInitializer' or i.get('anyInit') is None:
                continue
            m = fn.rn(i['anyInit']['name'])
            x = fn.unwrap(kids(i)[0])
            ux = fn.unwrap(kids(i)[0], casts=True)
            k = fn.types.get(ux['referencedDecl']['id']) if ux.get('kind') == 'DeclRefExpr' else None
            if k == 'REFMUT':
                out.append('%s: &mut *%s' % (m, fn.alias[ux['referencedDecl']['id']]))
            elif ux.get('kind') == 'DeclRefExpr' and fn.ptrkind.get(ux['referencedDecl']['id']) == 'mut':
                i2 = ux['referencedDecl']['id']
                out.append('mem_%s: &mut *%s' % (m, fn.root[i2]))
                out.append('%s: %s' % (m, fn.names[i2]))
            else:
                out.append('%s: %s' % (m, fn.expr(x)))
        # arguments that stay borrowed come last
        out.sort(key=lambda e: '&mut' in e)
        vid = v['id']
        fn.names[vid], fn.types[vid] = name, cls
        g = ', ghost_: Ghost(Seq::empty())' if cls == 'ByteCounterStream' else ''
        fn.emit('let mut %s = %s { %s%s };' % (name, cls, ', '.join(out), g))
        return True

    CATS = {'NullType': 0, 'Array': 1, 'Pointer': 2, 'Numeric': 3, 'Enum': 4, 'Compound': 5, 'Opaque': 6, 'OpaqueType': 6, 'Container': 7}

    def dyncast(self, fn, n, c):
        to = strip_cv(qt(n)).split('::')[-1]
        if fn.rty(qt(c)) == 'TyRef' and to in self.CATS and n.get('valueCategory') == 'lvalue':
            # throws when the object is of another class
            return 'as_%s(%s)' % (to.lower(), fn.expr(c))
        return None

    HANDLES = ('TyRef', 'RegRef')

    def is_handle(self, fn, n):
        try:
            return fn.rty(qt(n)) in self.HANDLES
        except Ext:
            return False

    def handle_binop(self, fn, op, c):
        # comparison of addresses
        if op in ('==', '!=') and self.is_handle(fn, c[0]) and self.is_handle(fn, c[1]):
            a, b = fn.two(c[0], c[1])
            return '%shandle_eq(%s.id, %s.id)' % ('' if op == '==' else '!', a, b)
        return None

    def downcast(self, fn, n, c):
        # static_cast to a derived class: the accessors of the class then require the category
        return fn.expr(c) if self.is_handle(fn, n) and self.is_handle(fn, c) else None

    def dispatch(self, fn, s, me, base):
        '''virtual call: the function that selects the override by the category'''
        v = s.attr.get('virtual')
        if not v or me is None:
            return s
        b, e = me['range']['begin'].get('offset'), me['range']['end'].get('offset')
        u = fn.unwrap(base, casts=True)
        if u.get('kind') == 'CXXThisExpr' and u.get('implicit') and b != e:
            return s        # qualified: X::f()
        if u.get('kind') == 'CXXThisExpr' and not u.get('implicit'):
            raise Ext('call through this->')
        self.check_overrides(s, me['name'])
        s2 = copy.copy(s)
        s2.attr = dict(s.attr, callee=v)
        return s2

    def check_overrides(self, s, name):
        want = set(s.attr.get('overrides', '').split(','))
        have = set(c for c, x in self.ast.docs('typelib/typemodel.cc', 'Typelib::').classes_with(name))
        if have != want:
            raise Ext('the classes that implement %s are %s' % (name, ', '.join(sorted(have))))

    def pure_virtual(self, fn, base, name, args):
        for s in self.specs.values():
            if s.attr.get('dispatch') and s.attr.get('name') == name and s.rust in self.nodes:
                self.check_overrides(s, name)
                kinds = self.param_kinds(s)
                if len(kinds) != len(args):
                    continue
                recv = fn.expr(base)
                return fn.finish_call(s.attr['dispatch'], None, [recv] + fn.world_args(s) + fn.call_args(args, kinds, s), s.attr.get('throws', 'no') == 'yes', self.ret_of(s), name)
        return None

    def null(self, fn, n):
        if fn.rty_or_none(qt(n)) in self.HANDLES:
            return 'null_handle()'
        return 'None' if fn.opt(qt(n)) else '0usize'

    def nonnull(self, fn, n):
        if fn.rty_or_none(qt(n)) in self.HANDLES:
            return '(%s.id != 0)' % fn.expr(n)
        if (fn.vals or fn.ruby) and fn.rty_or_none(qt(n)) == 'usize':
            return '(%s != 0)' % fn.expr(n)
        return '(%s).is_some()' % fn.expr(n) if fn.opt(qt(n)) else None

    # ---- small queries used by Fn
    def is_copy(self, r):
        return r in ('TypIt', 'LayRef') or r in self.copy_types or r == 'MX' or r.startswith('MIt<') or r.startswith('LIt<')

    STR = r'^(std::)?(basic_)?string(<char>)?$'

    def set_elem(self, a):
        a = re.sub(r'^struct |^class ', '', a)
        '''sets of other things than strings'''
        if re.match(r'^(?:const )?(std::)?pair<(const )?(std::)?pair<(const )?(Typelib::)?Type( const)? \*, (const )?(Typelib::)?Type( const)? \*>, bool>$', a):
            return 'CStk'
        if re.match(r'^(?:const )?(Typelib::)?Type( const)? \* ?(const)?$', a):
            return 'TSet'
        return None

    # ---- vectors of elements of any type: their buffers live in a heap (world=heap)
    BYTES = r'^(std::)?vector<(unsigned char|signed char|u?int8_t)(, [^>]*>)? ?>( const)? ?\*?$|^void( const)? \*$'

    def heap_type(self, fn, t):
        if re.match(self.BYTES, t):
            return 'BRef'
        if re.match(r'^(unsigned char|uint8_t)( const)? \*$', t):
            return 'EP'
        if re.match(r'^(Typelib::)?Value$', t):
            return 'VRef'
        if re.match(r'^(Typelib::)?MemoryLayout$', t):
            return 'usize'
        if re.match(r'^(Typelib::)?(Container::)?DeleteIfPredicate$', t):
            return 'Pred'
        if re.match(r'^(const )?(Typelib::)?(Vector|Indirect|Container|Type)( const)?( \*)?$', t):
            return 'TyRef'
        return None

    def heap_new(self, fn, n, c):
        # placement new of an empty vector
        t = qt(n).rstrip('*').strip()
        where = [x for x in c if x.get('kind') != 'CXXConstructExpr']
        made = [x for x in c if x.get('kind') == 'CXXConstructExpr']
        if not n.get('isPlacement') or fn.rty_or_none(t) != 'BRef' or len(where) != 1 or len(made) != 1 or kids(made[0]):
            raise Ext('new')
        return fn.finish_call('w.construct', None, [fn.expr(where[0])], False, '()', 'new')

    def heap_binop(self, fn, op, c):
        if fn.vals and op == '+' and re.match(self.ADDR, strip_cv(qt(c[0]))):
            return '(%s + %s)' % fn.two(c[0], c[1])
        if not fn.heap:
            return None
        if op in ('==', '!=') and fn.rty_or_none(qt(c[0])) == 'BRef' and fn.rty_or_none(qt(c[1])) == 'BRef':
            a, b = fn.two(c[0], c[1])
            return '(%s.id %s %s.id)' % (a, op, b)
        if op != '+':
            return None
        if fn.rty_or_none(qt(c[0])) == 'EP':
            return '%s.add(%s)' % fn.two(c[0], c[1])
        return None

    def heap_call(self, fn, n, name, args):
        def ty(a):
            u = fn.unwrap(a, casts=True)
            if u.get('kind') == 'UnaryOperator' and u.get('opcode') == '&' and callee_name(fn.unwrap(kids(u)[0])) == 'operator[]' or fn.rty_or_none(qt(u)) == 'EP':
                return 'EP'
            return fn.rty_or_none(qt(a))
        ts = [ty(a) for a in args]
        if name in ('init', 'destroy') and ts == ['EP', 'usize']:
            return fn.finish_call('w.%s' % name, None, list(fn.two(args[0], args[1])), False, '()', name)
        if name == 'copy' and ts == ['EP', 'EP', 'usize']:
            return fn.finish_call('w.copy', None, [fn.expr(a) for a in args[:2]], False, '()', name)
        if name == 'copy' and ts == ['VRef', 'VRef']:
            a, b = fn.two(args[0], args[1])
            return fn.finish_call('w.copy_value', None, [a, b], False, '()', name)
        if name == 'compare' and ts == ['VRef', 'VRef']:
            a, b = fn.two(args[0], args[1])
            return fn.finish_call('w.compare', None, [a, b], False, 'bool', name)
        if name == 'compare' and ts == ['EP', 'EP', 'TyRef']:
            a, b, t = [fn.expr(x) for x in args]
            return fn.finish_call('w.compare', None, ['VRef { p: %s, t: %s }' % (a, t), 'VRef { p: %s, t: %s }' % (b, t)], False, 'bool', name)
        if name in ('memcpy', 'memmove') and ts[:2] == ['EP', 'EP']:
            return fn.finish_call('w.%s' % name, None, [fn.expr(a) for a in args], False, '()', 'memcpy')
        if name in ('min', 'max') and ts == ['usize', 'usize']:
            a, b = fn.two(args[0], args[1])
            return fn.finish_call('%s_usize' % name, None, [a, b], False, 'usize', name)
        return None

    def heap_method(self, fn, base, name, args, t):
        if t == 'BRef':
            if name in ('size', 'capacity') and not args:
                return 'w.%s(%s)' % (name, fn.expr(base))
            if name == 'empty' and not args:
                return '(w.size(%s) == 0)' % fn.expr(base)
            if name == 'max_size' and not args:
                return 'max_size()'
            if name == 'data' and not args:
                return fn.finish_call('w.at', None, [fn.expr(base), '0usize'], False, 'EP', 'at')
            if name == 'resize' and len(args) == 1:
                b = fn.expr(base)
                return fn.finish_call('w.resize', None, [b, fn.expr(args[0])], False, '()', 'resize_bytes')
            if name.startswith('~') and not args:
                return fn.finish_call('w.release', None, [fn.expr(base)], False, '()', 'release')
            if name == 'swap' and len(args) == 1:
                a, b = fn.two(base, args[0])
                return fn.finish_call('w.swap', None, [a, b], False, '()', 'swap')
        if t == 'VRef' and name in ('getType', 'getData') and not args:
            return '%s.%s' % (fn.expr(base), 't' if name == 'getType' else 'p')
        if t == 'Pred' and name == 'should_delete' and len(args) == 1:
            return fn.finish_call('%s.should_delete' % fn.expr(base), None, ['&*w', fn.expr(args[0])], False, 'bool', name)
        if t == 'TyRef' and name in ('hasElementLayout', 'isElementMemcpy', 'elementLayout') and not args:
            return '%s.%s()' % (fn.expr(base), name)
        return None

    ADDR = r'^(const )?(unsigned char|signed char|u?int8_t|void)( const)? ?\*$'

    def type_hook(self, fn, t):
        if fn.ruby:
            return self.ruby.type(t)
        if fn.value_obj:
            if re.match(r'^(Typelib::)?Value$', t):
                return "CVal<'a>" if fn.value_obj == 'const' else 'MVal'
            if re.match(r'^(std::)?(basic_)?(ostream|ios)(<char.*>)?$', t) or re.match(r'^(struct )?(_IO_)?FILE \*$', t):
                return 'OFile'
        if fn.vals:
            # values: an address and a type; nothing is known about where the memory is
            if re.match(self.ADDR, t):
                return 'usize'
            if re.match(r'^(std::)?list<(unsigned char|u?int8_t) ?\*(, [^>]*> ?)?>$', t):
                return 'Vec<usize>'
            if re.match(r'^(Typelib::)?Value$', t):
                return 'VRef'
            if re.match(r'^(std::)?(list<(std::)?(__cxx11::)?(basic_)?string(<char>)?>::iterator|_List_iterator<(std::)?(__cxx11::)?(basic_)?string(<char>)?>)$', t):
                return 'MX'
        if fn.heap:
            h = self.heap_type(fn, t)
            if h:
                return h
        if re.search(r'(^|::)ContainerFactory$', t) or re.match(r'^const (Typelib::)?Container &\(\*\)\(', t):
            return 'usize'
        if (fn.handle == 'TyRef' or fn.vals) and re.match(r'^(const )?(Typelib::)?Container( const)?( \*)?$', t):
            return 'TyRef'
        m = re.match(r'^(?:std::)?(map|set|list|vector|_Rb_tree_const_iterator|_Rb_tree_iterator|_List_const_iterator|_List_iterator)<(.*)>$', t)
        if not m:
            return None
        k, a = m.group(1), split_top(m.group(2))
        tt = self.set_elem(a[0])
        if k.startswith('_Rb_tree'):
            pp = re.match(r'^(?:std::)?pair<(.*)>$', strip_cv(a[0]))
            kv = split_top(pp.group(1)) if pp else []
            if len(kv) == 2 and self.set_elem(kv[0]) == 'TSet' and self.set_elem(kv[1]) == 'TSet' and tt != 'CStk':
                return 'MX'
        if tt and k == 'set':
            return tt
        if tt and k.startswith('_Rb_tree'):
            return "LIt<'a, TyRef>" if tt == 'TSet' else 'MX'
        if tt == 'TSet' and k == 'list':
            return 'Vec<TyRef>'
        if tt == 'TSet' and k in ('_List_const_iterator', '_List_iterator'):
            return "LIt<'a, TyRef>"
        if k == 'map' and len(a) >= 2 and tt == 'TSet' and self.set_elem(a[1]) == 'TSet':
            return 'PMap'
        if k == 'map' and re.match(self.STR, strip_cv(a[0])):
            return 'SMap<%s>' % fn.rty(a[1])
        if k == 'set' and re.match(self.STR, strip_cv(a[0])):
            return 'SSet'
        if k.startswith('_Rb_tree'):
            if re.match(self.STR, strip_cv(a[0])):
                return "SIt<'a>"
            p = re.match(r'^(?:std::)?pair<(.*)>$', strip_cv(a[0]))
            if p:
                kv = split_top(p.group(1))
                if not re.match(self.STR, strip_cv(kv[0])):
                    return None
                if k == '_Rb_tree_iterator':
                    fn.rty(kv[1])
                    return 'MX'
                return "MIt<'a, %s>" % fn.rty(kv[1])
            return None
        if k in ('list', 'vector') and strip_cv(a[0]).split('::')[-1] in self.records:
            return 'Vec<%s>' % self.records[strip_cv(a[0]).split('::')[-1]]
        if k in ('_List_const_iterator', '_List_iterator') and strip_cv(a[0]).split('::')[-1] in self.records:
            return "LIt<'a, %s>" % self.records[strip_cv(a[0]).split('::')[-1]] if k == '_List_const_iterator' and not fn.world else 'MX'
        return None

    def by_ref(self, r):
        return False

    def tyname(self, ty):
        return re.sub(r'\W+', '_', ty).strip('_').lower()

    def default_value(self, r):
        if r == 'BRef':
            return 'w.fresh()'
        if r == 'VRef':
            return 'VRef::none()'
        if r in ('CStk', 'TSet', 'PMap'):
            return r + '::new()'
        if r.startswith('Vec<'):
            return 'Vec::new()'
        if r in ('MemoryLayout', 'Modifier', 'OStr', 'SSet'):
            return r + '::new()'
        if r.startswith('SMap<'):
            return 'SMap::new()'
        if r.startswith('('):
            ds = [self.default_value(x) for x in split_top(r[1:-1])]
            return '(%s)' % ', '.join(ds) if all(ds) else None
        return None

    def string_lit(self, s):
        b = s.encode()
        if len(b) == 1:
            return 'str_chr(%du8)' % b[0]
        nm = 'lit' + ''.join('_%d' % x for x in b) if len(b) <= 24 else 'lit_%s' % hashlib.sha1(b).hexdigest()[:12]
        self.literals[nm] = b
        return nm + '()'

    def literal_fns(self):
        return '\n'.join('#[verifier::external_body]\npub fn %s() -> (r: Vec<u8>) ensures r@ == %s { unimplemented!() }' %
                         (k, 'seq![%s]' % ', '.join('%du8' % x for x in v) if v else 'Seq::<u8>::empty()') for k, v in sorted(self.literals.items()))

    def enum_const(self, name, ty):
        if ty in (None, 'usize'):
            return name
        return '(%s as %s)' % (name, ty)

    def global_const(self, name):
        return {'npos': 'NPOS', 'NamespaceMark': '47u8', 'NamespaceMarkString': 'str_chr(47u8)',
                'FLAG_SKIP': 'ES_SKIP', 'FLAG_ARRAY': 'ES_ARRAY', 'FLAG_END': 'ES_END', 'FLAG_SWAP_4': 'ES_SWAP_4', 'FLAG_SWAP_8': 'ES_SWAP_8', 'SizeOfEnum': 'ES_SIZEOFENUM'}.get(name)

    def sizeof(self, r):
        return None

    # private members of types, read through the accessors of the handle
    TYPE_MEMBERS = {'m_indirection': 'getIndirection', 'm_fields': 'getFields', 'm_dimension': 'getDimension', 'm_values': 'values', 'm_size': 'getSize', 'm_name': 'getName'}

    def member(self, fn, base, bt, name):
        cls = strip_cv(bt.rstrip('*').strip()).split('::')[-1]
        if cls in self.CATS or cls in ('Type', 'Indirect'):
            if fn.handle or base != fn.thisx:
                if name == 'm_category':
                    return '%s.%s()' % (base, 'getNumericCategory' if cls == 'Numeric' else 'getCategory')
                if fn.world and name in ('m_fields', 'm_size'):
                    return '%s.fieldrefs()' % base if name == 'm_fields' else 'w.getSize(%s)' % base
                if name in self.TYPE_MEMBERS:
                    return '%s.%s()' % (base, self.TYPE_MEMBERS[name])
        return None

    def assign_hook(self, fn, lu, r):
        if fn.ruby:
            return self.ruby.assign(fn, lu, r)
        return None

    def ptr_hook(self, fn, u):
        if fn.value_obj:
            if u.get('kind') == 'CXXMemberCallExpr' and callee_name(u) == 'getData':
                b = fn.unwrap(kids(kids(u)[0])[0], casts=True)
                if b.get('kind') == 'DeclRefExpr' and fn.types.get(b['referencedDecl']['id']) == 'MVal':
                    nm = fn.names[b['referencedDecl']['id']]
                    return nm + '.o', '&mut *mem_' + nm
            if u.get('kind') == 'MemberExpr' and fn.unwrap(kids(u)[0], casts=True).get('kind') == 'CXXThisExpr' and re.match(self.STREAM_CLASS, fn.cls or ''):
                return 'self.' + fn.rn(u['name']), '&mut *self.mem_' + fn.rn(u['name'])
        return None

    def byte_at(self, fn, n):
        '''&x[i] for a sequence of bytes: (kind, base expression, index expression)'''
        u = fn.unwrap(n, casts=True)
        if u.get('kind') != 'UnaryOperator' or u.get('opcode') != '&':
            return None
        x = fn.unwrap(kids(u)[0])
        if x.get('kind') == 'CXXOperatorCallExpr' and callee_name(x) == 'operator[]' and fn.rty(qt(kids(x)[1])) == 'Vec<u8>':
            a, b = fn.two(kids(x)[1], kids(x)[2])
            return 'vec', a, self.as_usize(fn, kids(x)[2], b)
        if x.get('kind') == 'ArraySubscriptExpr' and fn.rty(qt(kids(x)[0])) == 'PTR' and fn.ptr_const(qt(kids(x)[0])):
            a, b = fn.two(kids(x)[0], kids(x)[1])
            return 'cptr', a, self.as_usize(fn, kids(x)[1], b)
        return None

    def deref(self, fn, n, c):
        if self.is_handle(fn, n) and self.is_handle(fn, c):
            return fn.expr(c)
        if fn.heap and fn.rty_or_none(qt(c)) == 'BRef':
            return fn.expr(c)
        raise Ext('dereference of %s' % qt(c))

    def addr_of(self, fn, n, c):
        if fn.heap:
            u = fn.unwrap(c)
            if u.get('kind') == 'CXXOperatorCallExpr' and callee_name(u) == 'operator[]' and fn.rty_or_none(qt(kids(u)[1])) == 'BRef':
                a, b = fn.two(kids(u)[1], kids(u)[2])
                return fn.finish_call('w.at', None, [a, b], False, 'EP', 'at')
            if fn.rty_or_none(qt(c)) == 'BRef':
                return fn.expr(c)
        try:
            t = fn.rty(qt(c))
        except Ext:
            return None
        if t in self.HANDLES or fn.ruby and t == 'usize' and re.match(r'^(const )?(Typelib::)?Type$', qt(c)):
            return fn.expr(c)
        if t in self.records.values():
            return 'Some(%s)' % fn.as_ref(c)
        return None

    def reinterpret(self, fn, n, c, to, src):
        if fn.rty_or_none(to) in INTS and fn.rty_or_none(to) == fn.rty_or_none(src) and '*' not in to + src:
            # the same representation
            return fn.expr(c)
        if fn.bytes and n.get('valueCategory') == 'lvalue' and fn.rty_or_none(to) in ('u32', 'usize') and fn.rty_or_none(src) == 'u8':
            u = fn.unwrap(c, casts=True)
            if u.get('kind') == 'ArraySubscriptExpr':
                h = self.byte_index(fn, kids(u))
                if h is not None:
                    return 'rd%s(%s, %s)' % (('32' if fn.rty(to) == 'u32' else '64',) + h)
        if fn.vals and re.match(self.ADDR, strip_cv(to)) and re.match(self.ADDR, strip_cv(src)):
            return fn.expr(c)
        if fn.heap and fn.rty_or_none(to) in ('BRef', 'EP'):
            e = fn.expr(c)
            if fn.rty_or_none(to) == fn.rty_or_none(src) or fn.rty_or_none(to) == 'EP' and e.endswith('.p'):
                return e
            return None
        # bytecode word -> container handle
        if 'Container' in to and fn.rty(src) == 'usize':
            return 'container_at(%s)' % fn.expr(c)
        if fn.rty(to) == 'usize' and 'Container' in src:
            u = fn.unwrap(c, casts=True)
            if u.get('kind') == 'UnaryOperator' and u.get('opcode') == '&' and fn.rty(qt(kids(u)[0])) == 'ContRef':
                u = kids(u)[0]
            return '%s.handle()' % fn.expr(u)
        # address of a local 64 bit count seen as bytes
        u = fn.unwrap(c, casts=True)
        if fn.is_ptr(to) and u.get('kind') == 'UnaryOperator' and u.get('opcode') == '&':
            v = kids(u)[0]
            if fn.rty(qt(v)) == 'usize':
                return 'CPtr::of_word(%s)' % fn.expr(v)
        return None

    def init_list(self, fn, r, args):
        if r == 'RegistryType' and len(args) == 3:
            es = [fn.expr(args[0]), fn.expr(args[1]), fn.value(args[2], 'Vec<u8>')]
            return 'RegistryType { type_: %s, persistent: %s, source_id: %s }' % tuple(es)
        return None

    def byte_view(self, fn, init):
        '''the bytes of a value: in.getData()'''
        if not fn.bytes or init is None:
            return None
        u = fn.unwrap(init, casts=True)
        if u.get('kind') == 'CXXMemberCallExpr' and callee_name(u) == 'getData':
            b = fn.unwrap(kids(kids(u)[0])[0], casts=True)
            if b.get('kind') == 'DeclRefExpr' and fn.types.get(b['referencedDecl']['id']) == 'BYTES':
                return fn.names[b['referencedDecl']['id']]
        if u.get('kind') == 'DeclRefExpr' and fn.types.get(u['referencedDecl']['id']) == 'BYTES' and fn.is_ptr(qt(u)):
            return fn.expr(u)
        return None

    def byte_index(self, fn, c):
        b = fn.unwrap(c[0], casts=True)
        name = self.byte_view(fn, b)
        if name is None:
            return None
        i = fn.fresh('i')
        fn.emit('let %s = %s;' % (i, self.as_usize(fn, c[1], fn.expr(c[1]))))
        return name, i

    def subscript(self, fn, n, c):
        if fn.bytes:
            h = self.byte_index(fn, c)
            if h is not None:
                return '%s[%s]' % h
        raise Ext('array subscript')

    def construct(self, fn, n, args, r, t):
        if fn.vals and strip_cv(t).split('::')[-1] == 'Pointer' and len(args) == 1 and strip_cv(qt(args[0])).rstrip('& ').split('::')[-1] == 'Type':
            return 'temp_pointer(%s)' % fn.expr(args[0])
        if r and r.startswith('SMap<') and len(args) == 1 and fn.unwrap(args[0], casts=True).get('referencedDecl', {}).get('name') == 'nameSort':
            return 'SMap::new()'
        if r == 'VRef' and len(args) == 2:
            a, b = fn.two(args[0], args[1])
            return 'VRef { p: %s, t: %s }' % (a, b)
        if r == "RegIt<'a>" and len(args) == 2:
            return 'RegIt { m_registry: %s, m_iter: %s }' % (fn.as_ref(args[0]), fn.expr(args[1]))
        if r == "OpIt<'a>" and len(args) == 1 and re.search(r'normal_iterator<unsigned long \*,', qt(args[0])):
            # iterator to const_iterator
            u = fn.unwrap(args[0], casts=True)
            if u.get('kind') == 'CXXMemberCallExpr' and callee_name(u) in ('begin', 'end'):
                return fn.expr(u)
        if r == 'Field' and len(args) == 2:
            a = fn.value(args[0], 'Vec<u8>')
            return 'Field::new(%s, %s)' % (a, fn.expr(args[1]))
        if r and r.startswith('MIt<') and len(args) == 1 and fn.rty(qt(args[0])) == 'MX':
            e = fn.expr(args[0])
            return 'MIt::at(&%s, %s)' % (fn.root_of(e), e)
        if r and r.startswith('LIt<') and len(args) == 1 and fn.rty(qt(args[0])) == 'MX':
            e = fn.expr(args[0])
            return 'LIt::at(&%s, %s)' % (fn.root_of(e), e)
        if r and r.startswith('(') and len(args) == 1:
            try:
                src = fn.rty(qt(args[0]))
            except Ext:
                src = None
            if src and src != r and src.startswith('('):
                e = fn.expr(args[0])
                u = fn.unwrap(args[0], casts=True)
                a, b = split_top(src[1:-1]), split_top(r[1:-1])
                if u.get('kind') == 'CallExpr' and callee_name(u) == 'make_pair' and r == fn.ret:
                    return e
                v = fn.fresh('p')
                fn.emit('let %s = %s;' % (v, e))
                return '(%s)' % ', '.join('%s.%d' % (v, i) if x == y else '(%s.%d as %s)' % (v, i, y) for i, (x, y) in enumerate(zip(a, b)))
        if r == 'SSet' and len(args) >= 2 and all((fn.rty(qt(x)) or '').startswith('SIt') for x in args[:2]) and all(x.get('kind') == 'CXXDefaultArgExpr' for x in args[2:]):
            x, y = fn.two(args[0], args[1])
            v = fn.fresh('set')
            fn.emit('let mut %s = SSet::new();' % v)
            fn.emit('%s.insert_range(%s, %s);' % (v, x, y))
            return v
        if r == 'Vec<Vec<u8>>' and 'okenizer' in t and len(args) in (1, 2) and fn.rty(qt(args[0])) == 'Vec<u8>':
            if len(args) == 2 and args[1].get('kind') != 'CXXDefaultArgExpr':
                raise Ext('tokenizer with a separator of its own')
            return fn.finish_call('tokenize', None, [fn.as_ref(args[0])], False, 'Vec<Vec<u8>>', 'tokenize')
        if r == 'Vec<u8>' and 'string' in t:
            if len(args) == 1:
                u = fn.unwrap(args[0], casts=True)
                if u.get('kind') == 'StringLiteral':
                    return fn.expr(args[0])
                if u.get('kind') == 'DeclRefExpr' and self.global_const(u['referencedDecl']['name']) and fn.is_ptr(qt(u)):
                    return self.global_const(u['referencedDecl']['name'])
            if len(args) == 3 and fn.rty(qt(args[0])) == 'Vec<u8>':
                s = fn.as_ref(args[0])
                a, b = fn.two(args[1], args[2])
                return self.str_sub(fn, [s, self.as_usize(fn, args[1], a), self.as_usize(fn, args[2], b)])
            if len(args) == 2 and fn.rty(qt(args[0])) == 'Vec<u8>':
                s = fn.as_ref(args[0])
                a = fn.expr(args[1])
                return self.str_sub(fn, [s, self.as_usize(fn, args[1], a), 'NPOS'])
        return None

    def str_sub(self, fn, a):
        # a function whose contract excludes exceptions must show that the start is inside the string
        if fn.throws or fn.catch:
            return fn.finish_call('str_sub', None, a, True, 'Vec<u8>', 'str_sub')
        return fn.finish_call('str_sub_ok', None, a, False, 'Vec<u8>', 'str_sub')

    def as_usize(self, fn, n, e):
        return e if fn.rty(qt(n)) == 'usize' else '(%s as usize)' % e

    def operator(self, fn, n, op, args):
        if fn.ruby:
            h = self.ruby.operator(fn, n, op, args)
            if h is not None:
                return h
        if fn.value_obj and op == 'operator!' and len(args) == 1 and fn.rty(qt(args[0])) == 'OFile':
            return fn.expr(args[0]) + '.failed()'
        def ty(a):
            try:
                return fn.rty(qt(a))
            except Ext:
                return None
        if op in ('operator==', 'operator!=') and len(args) == 2 and ty(args[0]) == 'TyRef' and ty(args[1]) == 'TyRef' \
                and strip_cv(qt(args[0])).split('::')[-1] == 'Type':
            # Type::operator== under contract
            for s in self.specs.values():
                if s.attr.get('class') == 'Type' and s.attr.get('name') == op and s.rust in self.nodes:
                    a, b = fn.two(args[0], args[1])
                    return fn.finish_call(s.rust, None, [a, b], False, 'bool', s.rust)
        if op in ('operator==', 'operator!=') and len(args) == 2:
            # set.find(x) != set.end()
            def on_set(a):
                u = fn.unwrap(a, casts=True)
                while u.get('kind') == 'CXXConstructExpr' and len(kids(u)) == 1:
                    u = fn.unwrap(kids(u)[0], casts=True)
                if u.get('kind') != 'CXXMemberCallExpr':
                    return None, None, None
                b = kids(kids(u)[0])[0]
                return (callee_name(u), b, kids(u)[1:]) if ty(b) == 'TSet' else (None, None, None)
            x, y = on_set(args[0]), on_set(args[1])
            if x[0] == 'find' and y[0] == 'end' and fn.expr(x[1]) == fn.expr(y[1]):
                return '(%s.count(%s) %s 0)' % (fn.expr(x[1]), fn.expr(x[2][0]), '==' if op == 'operator==' else '!=')
        if ty(args[0]) == "RegIt<'a>":
            # boost::iterator_facade
            if op in ('operator*', 'operator->') and len(args) == 1:
                return '%s.dereference()' % fn.expr(args[0])
            if op in ('operator==', 'operator!=') and len(args) == 2:
                a, b = fn.two(args[0], args[1])
                return '%s%s.equal(%s)' % ('' if op == 'operator==' else '!', a, b)
        if op in ('operator==', 'operator!=') and (ty(args[0]) == 'Vec<u8>' or ty(args[1]) == 'Vec<u8>'):
            def sref(a):
                u = fn.unwrap(a, casts=True)
                if u.get('kind') == 'StringLiteral':
                    return '&' + fn.e_StringLiteral(u, [])
                if ty(a) == 'Vec<u8>':
                    return fn.as_ref(a)
                if u.get('kind') == 'DeclRefExpr' and self.global_const(u['referencedDecl']['name']):
                    return '&' + self.global_const(u['referencedDecl']['name'])
                raise Ext('string comparison operand')
            a = sref(args[0])
            b = sref(args[1])
            return '%sstr_eq(%s, %s)' % ('' if op == 'operator==' else '!', a, b)
        if op == 'operator<<' and ty(args[0]) == 'OStr':
            st = fn.expr(args[0])
            u = fn.unwrap(args[1], casts=True)
            t = ty(args[1])
            if u.get('kind') == 'StringLiteral':
                what = ('str', '&' + fn.e_StringLiteral(u, []))
            elif u.get('kind') == 'DeclRefExpr' and u['referencedDecl']['name'] == 'endl':
                what = ('chr', '10u8')
            elif t == 'Vec<u8>':
                what = ('str', fn.as_ref(args[1]))
            elif t == 'u8' and 'char' in strip_cv(qt(args[1])):
                what = ('chr', fn.expr(args[1]))
            elif t in INTS and t != 'bool':
                what = ('int', '(%s as i128)' % fn.expr(args[1]))
            else:
                raise Ext('output of %s' % qt(args[1]))
            fn.emit('%s.put_%s(%s);' % (st, what[0], what[1]))
            return st
        if op == 'operator[]' and (ty(args[0]) or '').startswith('SMap<'):
            b = fn.expr(args[0])
            k = fn.as_ref(args[1])
            return '%s.v[%s].1' % (b, fn.finish_call('%s.entry' % b, None, [k], False, 'MX', 'map_entry'))
        if op == 'operator[]':
            t = ty(args[0])
            if t == 'Vec<u8>' and 'string' in qt(args[0]):
                s = fn.as_ref(args[0])
                i = fn.expr(args[1])
                return 'str_at(%s, %s)' % (s, self.as_usize(fn, args[1], i))
            if t and t.startswith('Vec<'):
                a = fn.expr(args[0])
                i = fn.expr(args[1])
                return '%s[%s]' % (a, self.as_usize(fn, args[1], i))
        if op in ('operator==', 'operator!=') and len(args) == 2 and ty(args[0]) == 'SMap<i32>' and ty(args[1]) == 'SMap<i32>':
            a = fn.as_ref(args[0])
            b = fn.as_ref(args[1])
            return '%ssmap_eq(%s, %s)' % ('' if op == 'operator==' else '!', a, b)
        if op in ('operator==', 'operator!=') and len(args) == 2:
            t = ty(args[0])
            if t == 'Vec<u8>' and ty(args[1]) == 'Vec<u8>':
                a = fn.as_ref(args[0])
                b = fn.as_ref(args[1])
                return '%sstr_eq(%s, %s)' % ('' if op == 'operator==' else '!', a, b)
        if op == 'operator+' and len(args) == 2 and 'string' in qt(n):
            def part(a):
                t = ty(a)
                if t == 'Vec<u8>':
                    return fn.as_ref(a)
                u = fn.unwrap(a, casts=True)
                if u.get('kind') == 'StringLiteral':
                    return '&' + fn.e_StringLiteral(u, [])
                if t == 'u8':
                    return '&str_chr(%s)' % fn.expr(a)
                if u.get('kind') == 'DeclRefExpr' and self.global_const(u['referencedDecl']['name']):
                    return '&' + self.global_const(u['referencedDecl']['name'])
                raise Ext('string concatenation operand')
            a = part(args[0])
            b = part(args[1])
            t = fn.fresh('s')
            fn.emit('let %s = str_cat(%s, %s);' % (t, a, b))
            return t
        if op == 'operator+=' and ty(args[0]) == 'Vec<u8>':
            a = fn.expr(args[0])
            u = fn.unwrap(args[1], casts=True)
            if ty(args[1]) == 'Vec<u8>':
                b = fn.as_ref(args[1])
            elif u.get('kind') == 'StringLiteral':
                b = '&' + fn.e_StringLiteral(u, [])
            elif ty(args[1]) == 'u8':
                b = '&str_chr(%s)' % fn.expr(args[1])
            else:
                raise Ext('string += operand')
            fn.emit('%s = str_cat(&%s, %s);' % (a, a, b))
            return a
        return None

    def call(self, fn, n, name, args):
        if fn.ruby:
            h = self.ruby.call(fn, n, name, args)
            if h is not None:
                return h
        if name == 'includes' and len(args) == 4:
            # std::includes over the whole of two sets
            b = []
            for a, want in zip(args, ('begin', 'end', 'begin', 'end')):
                u = fn.unwrap(a, casts=True)
                while u.get('kind') == 'CXXConstructExpr' and len(kids(u)) == 1:
                    u = fn.unwrap(kids(u)[0], casts=True)
                if u.get('kind') != 'CXXMemberCallExpr' or callee_name(u) != want or fn.rty(qt(kids(kids(u)[0])[0])) != 'TSet':
                    raise Ext('includes of other than two sets')
                b.append(fn.expr(kids(kids(u)[0])[0]))
            if b[0] != b[1] or b[2] != b[3]:
                raise Ext('includes of other than two sets')
            return 'tset_includes(&%s, &%s)' % (b[0], b[2])
        if fn.heap:
            h = self.heap_call(fn, n, name, args)
            if h is not None:
                return h
        if name in ('max', 'min') and len(args) == 2:
            t = fn.rty(qt(n))
            if re.fullmatch(r'[ui](8|16|32|64|size)', t):
                a, b = fn.two(args[0], args[1])
                return '({ let mm_a: %s = %s; let mm_b: %s = %s; if %s { mm_b } else { mm_a } })' % (t, a, t, b, 'mm_a < mm_b' if name == 'max' else 'mm_b < mm_a')
        if name == 'get' and len(args) == 1:
            # the component is recognised by its type
            a = fn.unwrap(args[0], casts=True)
            t = fn.rty(qt(a))
            if t.startswith('('):
                r = fn.rty(qt(n))
                cs = [i for i, x in enumerate(split_top(t[1:-1])) if x.strip() == r]
                if len(cs) == 1:
                    return '%s.%d' % (fn.expr(a), cs[0])
            raise Ext('get of a component')
        if name in ('make_tuple', 'make_pair'):
            es = []
            for a in args:
                if fn.is_ptr(qt(a)):
                    if fn.is_mut_ptr_expr(a):
                        es.append(fn.ptr(a)[0])
                    else:
                        es.append(fn.expr(a))
                else:
                    try:
                        at = fn.rty(qt(a))
                    except Ext:
                        at = None
                    es.append(fn.value(a, at))
            return '(%s)' % ', '.join(self.coerce_tuple(fn, n, args, es))
        if fn.value_obj:
            if name == 'layout_of':
                a = fn.full_args(args, n, (fn.unwrap(kids(n)[0]).get('referencedDecl') or {}).get('id'))
                return fn.finish_call('layout_of', None, [fn.expr(x) for x in a], True, 'MemoryLayout', 'layout_of')
            if name == 'write' and len(args) == 3:
                a = [fn.expr(x) for x in args]
                return fn.finish_call('sys_write', None, ['&mut *' + a[0]] + a[1:], False, 'i64', 'write')
            if name == 'fwrite':
                a = [fn.expr(x) for x in args]
                return fn.finish_call('c_fwrite', None, a[:3] + ['&mut *' + a[3]], False, 'usize', 'fwrite')
            if name in ('memcpy', 'memmove'):
                d, s_ = self.byte_at(fn, args[0]), self.byte_at(fn, args[1])
                src = None
                if s_:
                    src = 'CPtr::of_vec(%s, %s)' % (s_[1], s_[2]) if s_[0] == 'vec' else '%s.add(%s)' % (s_[1], s_[2])
                if d and d[0] == 'vec':
                    return fn.finish_call('vec_put', None, ['&mut *' + d[1], d[2], src or fn.expr(args[1]), fn.expr(args[2])], False, '()', 'memcpy')
                if s_:
                    off, root = fn.ptr(args[0])
                    return fn.finish_call('mem_cpy', None, [root, off, src, fn.expr(args[2])], False, '()', 'memcpy')
        if name == 'memset':
            off, root = fn.ptr(args[0])
            v = fn.expr(args[1])
            sz = fn.expr(args[2])
            return fn.finish_call('mem_set', None, [root, off, '(%s as u8)' % v, sz], False, '()', 'memset')
        if name in ('memcpy', 'memmove'):
            off, root = fn.ptr(args[0])
            if fn.is_mut_ptr_expr(args[1]):
                o2, r2 = fn.ptr(args[1])
                src = ['CPtr::of(&*%s, %s)' % (r2, o2)]
            else:
                src = [fn.expr(args[1])]
            sz = fn.expr(args[2])
            return fn.finish_call('mem_cpy', None, [root, off] + src + [sz], False, '()', 'memcpy')
        if name == 'memcmp':
            def cp(a):
                if fn.is_mut_ptr_expr(a):
                    o, r = fn.ptr(a)
                    return 'CPtr::of(&*%s, %s)' % (r, o)
                return fn.expr(a)
            return fn.finish_call('mem_cmp', None, [cp(args[0]), cp(args[1]), fn.expr(args[2])], False, 'i32', 'memcmp')
        if name == 'copy' and len(args) == 3 and fn.rty(qt(args[0])).startswith('OpIt'):
            a = fn.expr(args[0])
            b = fn.expr(args[1])
            off, root = fn.ptr(args[2])
            return fn.finish_call('copy_words', None, [a, b, root, off], False, 'usize', 'std_copy')
        if name == 'lexical_cast' and len(args) == 1 and fn.rty(qt(n)) == 'i32' and fn.rty(qt(args[0])) == 'Vec<u8>':
            return fn.finish_call('str_to_i32', None, [fn.as_ref(args[0])], True, 'i32', 'lexical_cast')
        if name == 'lexical_cast' and len(args) == 1 and fn.rty(qt(n)) == 'Vec<u8>':
            u = fn.unwrap(args[0], casts=True)
            r = fn.types.get(u['referencedDecl']['id']) if u.get('kind') == 'DeclRefExpr' else None
            r = r if r == 'NRef' else fn.rty(qt(args[0]))
            if r == 'Vec<u8>':
                return fn.value(args[0], r)
            if r in ('u8', 'i8'):
                return 'str_chr(%s)' % fn.expr(args[0])
            if r in INTS:
                return 'num_str(%s as i128)' % fn.expr(args[0])
            if r == 'NRef':
                return 'nref_str(%s)' % fn.expr(args[0])
        if name == 'join' and len(args) == 2 and fn.rty(qt(args[0])) == 'Vec<Vec<u8>>':
            u = fn.unwrap(args[1], casts=True)
            a = fn.as_ref(args[0])
            return 'str_join(%s, %s)' % (a, '&' + fn.e_StringLiteral(u, []) if u.get('kind') == 'StringLiteral' else fn.as_ref(args[1]))
        if name == 'isalnum':
            return 'c_isalnum(%s)' % fn.expr(args[0])
        return None

    def coerce_tuple(self, fn, n, args, es):
        # make_pair(bool, unsigned) returned as pair<bool,int>: conversion of the components
        want = fn.ret if fn.ret.startswith('(') else None
        if not want:
            return es
        w = split_top(want[1:-1])
        out = []
        for i, a in enumerate(args):
            try:
                r = fn.rty(qt(a))
            except Ext:
                r = None
            if i < len(w) and r in INTS and w[i] in INTS and w[i] != r and r != 'bool':
                out.append('(%s as %s)' % (es[i], w[i]))
            else:
                out.append(es[i])
        return out

    def method(self, fn, n, me, base, name, args):
        if fn.ruby:
            h = self.ruby.method(fn, n, base, name, args)
            if h is not None:
                return h
        bt = qt(base)
        try:
            t = fn.rty(bt)
        except Ext:
            t = None
        if t and t.startswith('&'):
            t = t.lstrip('&mut ')
        if fn.heap:
            h = self.heap_method(fn, base, name, args, t)
            if h is not None:
                return h
        if fn.value_obj:
            if t in ("CVal<'a>", 'MVal') and not args and name == 'getType':
                return fn.expr(base) + '.t'
            if t == "CVal<'a>" and not args and name == 'getData':
                return fn.expr(base) + '.p'
            if t == 'OFile' and name == 'write' and len(args) == 2:
                b = fn.expr(base)
                a = [fn.expr(x) for x in args]
                return fn.finish_call('ostream_write', None, ['&mut *' + b] + a, False, '()', 'write')
            if t == 'OFile' and name in ('fail', 'bad') and not args or t == 'OFile' and name == 'operator!':
                return fn.expr(base) + '.failed()'
            if t == 'OFile' and name == 'good' and not args:
                return '!%s.failed()' % fn.expr(base)
            if t == 'TyRef' and name == 'canCastTo' and len(args) == 1:
                return 'can_cast(%s, %s)' % (fn.expr(base), fn.expr(args[0]))
            if t == 'TyRef' and name == 'getTrailingPadding' and not args:
                return fn.expr(base) + '.getTrailingPadding()'
        if t is None and name == 'get' and not args and 'tuples::cons' in bt:
            try:
                t = fn.rty(qt(fn.unwrap(base, casts=True)))
            except Ext:
                pass
        if t and t.startswith('(') and name == 'get' and not args:
            # the component is recognised by its type
            r = fn.rty(qt(n))
            cs = [i for i, x in enumerate(split_top(t[1:-1])) if x == r]
            if len(cs) == 1:
                return '%s.%d' % (fn.expr(base), cs[0])
        if fn.vals and t == 'VRef' and name in ('getType', 'getData') and not args:
            return '%s.%s' % (fn.expr(base), 't' if name == 'getType' else 'p')
        if t == 'CStk' and name == 'insert' and len(args) == 1:
            return fn.finish_call('%s.insert' % fn.expr(base), None, [fn.expr(args[0])], False, '(MX, bool)', 'set_insert')
        if t == 'TSet':
            b = fn.expr(base)
            if name == 'insert' and len(args) == 1:
                return fn.finish_call('%s.insert' % b, None, [fn.expr(args[0])], False, 'bool', 'set_insert')
            if name == 'insert' and len(args) == 2:
                x, y = fn.two(args[0], args[1])
                return fn.finish_call('%s.insert_range' % b, None, [x, y], False, '()', 'set_insert_range')
            if name == 'count' and len(args) == 1:
                return '%s.count(%s)' % (b, fn.expr(args[0]))
            if name == 'empty':
                return '(%s.v.len() == 0)' % b
            if name == 'size':
                return '%s.v.len()' % b
            if name == 'clear':
                return fn.finish_call('%s.clear' % b, None, [], False, '()', 'set_clear')
            if name == 'swap':
                return fn.finish_call('%s.swap' % b, None, [fn.as_mut(args[0])], False, '()', 'set_swap')
            if name in ('begin', 'end', 'cbegin', 'cend') and not args:
                return 'LIt::%s(&%s.v)' % (name.lstrip('c') if name != 'cend' else 'end', b)
        if fn.world and t == 'TyRef':
            if name == 'getSize' and not args:
                return 'w.getSize(%s)' % fn.expr(base)
            if name == 'setSize' and len(args) == 1:
                x, y = fn.two(base, args[0])
                fn.emit('w.setSize(%s, %s);' % (x, y))
                return '()'
            if name == 'getFields' and not args:
                return '%s.fieldrefs()' % fn.expr(base)
        if fn.world and strip_cv(bt.rstrip('*').strip()).split('::')[-1] == 'Field' and not fn.inl:
            x = fn.expr(base)
            if name in ('getType', 'getName') and not args:
                return '%s.%s()' % (x, name)
            if name == 'getOffset' and not args:
                return 'w.getOffset(%s)' % x
            if name == 'setOffset' and len(args) == 1:
                y = fn.expr(args[0])
                fn.emit('w.setOffset(%s, %s);' % (x, y))
                return '()'
            raise Ext('field method %s' % name)
        if t == "RegIt<'a>" and name in ('isAlias', 'getName', 'getSource', 'isPersistent', 'get_') and not args:
            return '%s.%s()' % (fn.expr(base), {'get_': 'dereference'}.get(name, name))
        if t == 'PMap':
            b = fn.expr(base)
            if name in ('find', 'count', 'erase') and len(args) == 1:
                if name == 'erase' and fn.rty(qt(args[0])) == 'MX':
                    return fn.finish_call('%s.erase_at' % b, None, [fn.expr(args[0])], False, '()', 'map_erase')
                c = fn.finish_call('%s.%s' % (b, name), None, [fn.expr(args[0])], False, 'MX', 'map_' + name)
                fn.itroot[c] = b
                return c
            if name == 'end' and not args:
                c = fn.fresh('ix')
                fn.emit('let %s: usize = %s.v.len();' % (c, b))
                fn.itroot[c] = b
                return c
            if name == 'insert' and len(args) == 1:
                c = fn.finish_call('%s.insert' % b, None, [fn.expr(args[0])], False, '(MX, bool)', 'map_insert')
                fn.itroot[c] = b
                return c
        if t and (t.startswith('SMap<') or t == 'SSet'):
            return self.map_method(fn, n, base, name, args, t)
        if t and t.startswith('Vec<'):
            return self.vec_method(fn, n, base, name, args, t, 'string' in bt)
        if t and t.startswith('(') and name == 'get':
            m = re.search(r'<(\d+)', '')
            # the template argument is only visible in the member's type; take it from the result type
            raise Ext('tuple get')
        if t in self.stream_traits or t == 'STREAM':
            s = fn.expr(base)
            if name == 'write':
                p = args[0]
                if fn.is_mut_ptr_expr(p):
                    off, root = fn.ptr(p)
                    pe = 'CPtr::of(&*%s, %s)' % (root, off)
                else:
                    pe = fn.expr(p)
                sz = fn.expr(args[1])
                return fn.finish_call('%s.write' % s, None, [pe, sz], True, '()', 'write')
            if name == 'read':
                p = fn.unwrap(args[0], casts=True)
                if p.get('kind') == 'UnaryOperator' and p.get('opcode') == '&' and fn.rty(qt(kids(p)[0])) == 'usize':
                    sz = fn.expr(args[1])
                    c = fn.finish_call('read_word', None, [s, sz], True, 'usize', 'read_word')
                    fn.emit('%s = %s;' % (fn.expr(kids(p)[0]), c))
                    return '()'
                off, root = fn.ptr(args[0])
                sz = fn.expr(args[1])
                return fn.finish_call('%s.read' % s, None, [root, off, sz], True, '()', 'read')
        if t == 'OStr' and name == 'str' and not args:
            return '%s.str()' % fn.expr(base)
        if t == 'TyRef' and (fn.handle or 'this' not in (fn.unwrap(base, casts=True).get('kind') or '').lower()):
            if name in self.TYPE_QUERIES and not args:
                return '%s.%s()' % (fn.expr(base), name)
        if t == 'TyRef' and name == 'mergeMetaData' and len(args) == 1:
            fn.emit('any_mergeMetaData(%s, %s);' % fn.two(base, args[0]))
            return '()'
        bu = fn.unwrap(base, casts=True)
        if name == 'set' and len(args) == 2 and bu.get('kind') == 'CXXMemberCallExpr' and callee_name(bu) == 'getMetaData' and 'MetaData' in bt:
            o = kids(kids(bu)[0])[0]
            if self.is_handle(fn, o):
                # the meta-data of a type is not part of what is modelled
                h = fn.expr(o)
                a, b = fn.as_ref(args[0]), fn.as_ref(args[1])
                fn.emit('handle_meta_set(%s, %s, %s);' % (h, a, b))
                return '()'
        if fn.vals and t == 'TyRef' and name == 'get' and len(args) == 1 and 'Enum' in bt and fn.rty(qt(n)) == 'Vec<u8>':
            b = fn.expr(base)
            return fn.finish_call('%s.enum_get' % b, None, fn.arg(args[0], 'i32'), True, 'Vec<u8>', 'get')
        if t == 'TyRef':
            h = self.pure_virtual(fn, base, name, args)
            if h is not None:
                return h
        if t == 'ContRef':
            return self.cont_method(fn, base, name, args)
        u = fn.unwrap(base, casts=True)
        try:
            ut = fn.rty(qt(u))
        except Ext:
            ut = None
        if ut == 'ContRef':
            return self.cont_method(fn, u, name, args)
        return None

    TYPE_QUERIES = ('getSize', 'getName', 'getCategory', 'getIndirection', 'getDimension', 'getNumericCategory', 'getFields', 'values', 'getFactory')

    def cont_method(self, fn, base, name, args):
        b = fn.expr(base)
        if name == 'getSize':
            return '%s.getSize()' % b
        if name == 'getIndirection' and not args:
            return '%s.getIndirection()' % b
        if name == 'getElementCount':
            return '%s.getElementCount(%s)' % (b, fn.arg(args[0], 'PTRCONST')[0])
        if name in ('init', 'clear', 'destroy'):
            off, root = fn.ptr(args[0])
            return fn.finish_call('%s.%s' % (b, name), None, [root, off], False, '()', 'cont_' + name)
        if name == 'copy':
            a = fn.arg(args[0], 'PTRMUT')
            c = fn.arg(args[1], 'PTRCONST')
            return fn.finish_call('%s.copy' % b, None, a + c, False, '()', 'cont_copy')
        if name == 'compare':
            a = fn.arg(args[0], 'PTRCONST')
            c = fn.arg(args[1], 'PTRCONST')
            return fn.finish_call('%s.compare' % b, None, a + c, False, 'bool', 'cont_compare')
        if name == 'dump':
            a = fn.call_args(args, ['PTRCONST', 'usize', 'STREAM', "OpIt<'a>", "OpIt<'a>"], None)
            return fn.finish_call('%s.dump' % b, None, a, True, "OpIt<'a>", 'cont_dump')
        if name == 'load':
            a = fn.call_args(args, ['PTRMUT', 'usize', 'STREAM', "OpIt<'a>", "OpIt<'a>"], None)
            return fn.finish_call('%s.load' % b, None, a, True, "OpIt<'a>", 'cont_load')
        return None

    def map_method(self, fn, n, base, name, args, t):
        b = fn.expr(base)
        rt = fn.rty(qt(n))

        def index(e):
            c = fn.fresh('ix')
            fn.emit('let %s: usize = %s;' % (c, e))
            fn.itroot[c] = b
            return c
        if name in ('size', 'empty') and not args:
            return '%s.v.len()' % b if name == 'size' else '(%s.v.len() == 0)' % b
        if name == 'clear':
            return fn.finish_call('%s.clear' % b, None, [], False, '()', 'map_clear')
        if name in ('begin', 'end', 'cbegin', 'cend') and not args:
            end = name in ('end', 'cend')
            if rt.startswith('SIt'):
                return 'SIt::%s(&%s.v)' % ('end' if end else 'begin', b)
            if rt == 'MX' and fn.ends:
                return index('END_IX' if end else 'first_ix(%s.v.len())' % b)
            if rt == 'MX':
                return index('%s.v.len()' % b if end else '0')
            return 'MIt::%s(%s)' % ('end' if end else 'begin', fn.as_ref(base))
        if name == 'find' and t != 'SSet':
            k = fn.as_ref(args[0])
            c = fn.finish_call('%s.find' % b, None, [k], False, 'MX', 'map_find')
            if rt == 'MX':
                fn.itroot[c] = b
                return c
            return 'MIt::at(%s, %s)' % (fn.as_ref(base), c)
        if name == 'lower_bound' and len(args) == 1 and t != 'SSet':
            k = fn.as_ref(args[0])
            c = fn.finish_call('%s.lower_bound' % b, None, [k], False, 'MX', 'map_lower_bound')
            if rt == 'MX':
                fn.itroot[c] = b
                return c
            return 'MIt::at(%s, %s)' % (fn.as_ref(base), c)
        if name == 'count':
            return '%s.count(%s)' % (b, fn.as_ref(args[0]))
        if name == 'insert' and len(args) == 1 and t == 'SSet':
            return fn.finish_call('%s.insert' % b, None, [fn.value(args[0], 'Vec<u8>')], False, 'bool', 'set_insert')
        if name == 'insert' and len(args) == 2 and t == 'SSet':
            x, y = fn.two(args[0], args[1])
            return fn.finish_call('%s.insert_range' % b, None, [x, y], False, '()', 'set_insert_range')
        if name == 'insert' and len(args) == 1:
            # a map with the name order keeps its keys in that order
            m = 'insert' if fn.ends else 'insert_ordered' if 'bool (*)' in qt(base) or strip_cv(qt(base)).split('::')[-1] == 'TypeMap' else 'insert'
            e = fn.expr(args[0])
            if fn.ends and re.match(r'\w+\.v\[\w+\]$', e):
                e = 'dup_entry(&%s)' % e
            c = fn.finish_call('%s.%s' % (b, m), None, [e], False, '(MX, bool)', 'map_insert')
            fn.itroot[c] = b
            return c
        if name == 'erase' and len(args) == 1 and (fn.rty(qt(args[0])) == 'Vec<u8>'):
            return fn.finish_call('%s.erase' % b, None, [fn.as_ref(args[0])], False, 'usize', 'map_erase')
        if name == 'erase' and len(args) == 1 and fn.rty(qt(args[0])) == 'MX':
            u = fn.unwrap(args[0], casts=True)
            while u.get('kind') == 'CXXConstructExpr' and len(kids(u)) == 1:
                u = fn.unwrap(kids(u)[0], casts=True)
            if u.get('kind') == 'CXXOperatorCallExpr' and callee_name(u) == 'operator++' and len(kids(u)) == 3:
                # erase(it++): what follows takes the place of the erased element
                v = fn.unwrap(kids(u)[1], casts=True)
                if v.get('kind') != 'DeclRefExpr':
                    raise Ext('erase of an iterator expression')
                if fn.ends:
                    i = fn.expr(v)
                    for o in sorted(set(fn.names.values())):
                        if o != i and fn.itroot.get(o) == b:
                            # the other iterators stay where they are
                            fn.emit('assert(%s == END_IX || %s < %s);' % (o, o, i))
                    fn.finish_call('%s.erase_at' % b, None, [i], False, '()', 'map_erase')
                    fn.emit('%s = here_ix(%s, %s.v.len());' % (i, i, b))
                    return '()'
                return fn.finish_call('%s.erase_at' % b, None, [fn.expr(v)], False, '()', 'map_erase')
            if fn.ends:
                raise Ext('erase of an iterator expression')
            if n.get('type', {}).get('qualType', 'void') != 'void' and rt == 'MX':
                e = fn.expr(args[0])
                fn.finish_call('%s.erase_at' % b, None, [e], False, '()', 'map_erase')
                fn.itroot[e] = b
                return e
            return fn.finish_call('%s.erase_at' % b, None, [fn.expr(args[0])], False, '()', 'map_erase')
        raise Ext('map method %s' % name)

    def last_place(self, fn, init):
        '''T& x = list.back(): the place itself'''
        u = fn.unwrap(init)
        if fn.vals and u.get('kind') == 'CXXMemberCallExpr' and callee_name(u) == 'back':
            base = kids(kids(u)[0])[0]
            if fn.rty(qt(base)) in ('Vec<usize>', 'Vec<Vec<u8>>'):
                b, i = fn.expr(base), fn.fresh('ix')
                fn.emit('let %s: usize = %s.len() - 1;' % (i, b))
                fn.seqroot.add(b)
                return '%s[%s]' % (b, i)
        return None

    def vec_method(self, fn, n, base, name, args, t, is_str):
        el = t[4:-1]
        if fn.vals and t == 'Vec<Vec<u8>>' and name in ('begin', 'end') and not args and 'const' not in qt(base).split('<')[0]:
            b, i = fn.expr(base), fn.fresh('ix')
            fn.emit('let %s: usize = %s;' % (i, '0' if name == 'begin' else b + '.len()'))
            fn.itroot[i] = b
            fn.seqroot.add(b)
            return i
        if name == 'pop_front' and not args:
            return fn.finish_call('vec_pop_front', None, [fn.as_mut(base)], False, '()', 'pop_front')
        if fn.world and el == 'Field' and name in ('begin', 'end') and not args:
            b = fn.expr(base)
            c, l = fn.fresh('ix'), fn.fresh('fl')
            fn.emit('let %s = %s;' % (l, b))
            fn.emit('let %s: usize = %s;' % (c, '0' if name == 'begin' else '%s.v.len()' % l))
            fn.itroot[c] = l
            return c
        if el in self.records.values() and name in ('back', 'front'):
            b = fn.expr(base)
            if name == 'front':
                return '%s[0]' % b
            i = fn.fresh('ix')
            fn.emit('let %s: usize = %s.len() - 1;' % (i, b))
            return '%s[%s]' % (b, i)
        if (el in self.records.values() or el == 'TyRef') and name in ('begin', 'end', 'cbegin', 'cend') and not args:
            return 'LIt::%s(%s)' % ('begin' if 'begin' in name else 'end', fn.as_ref(base))
        if name in ('size', 'length') and not args:
            return '%s.len()' % fn.expr(base)
        if name == 'empty':
            return '(%s.len() == 0)' % fn.expr(base)
        if name in ('begin', 'end', 'cbegin', 'cend') and t == 'Vec<Vec<u8>>':
            return 'SIt::%s(%s)' % (name.lstrip('c') if name != 'cend' else 'end', fn.as_ref(base))
        if name in ('begin', 'end', 'cbegin', 'cend') and t == 'Vec<usize>':
            return 'OpIt::%s(%s)' % (name.lstrip('c') if name != 'cend' else 'end', fn.as_ref(base))
        if name == 'push_back':
            e = fn.value(args[0], el)
            b = fn.expr(base)
            fn.emit('%s.push(%s);' % (b, e))
            return '()'
        if name == 'push_front':
            e = fn.value(args[0], el)
            return fn.finish_call('vec_push_front', None, [fn.as_mut(base), e], False, '()', 'push_front')
        if name == 'pop_back':
            return fn.finish_call('vec_pop_back', None, [fn.as_mut(base)], False, '()', 'pop_back')
        if name == 'back' and not args:
            return 'vec_back(%s)' % fn.as_ref(base)
        if name == 'clear':
            fn.emit('%s.clear();' % fn.expr(base))
            return '()'
        if name == 'resize' and len([a for a in args if a.get('kind') != 'CXXDefaultArgExpr']) == 1:
            e = fn.expr(args[0])
            return fn.finish_call('vec_resize_%s' % el, None, [fn.as_mut(base), e], False, '()', 'resize')
        if name == 'insert' and len(args) == 3:
            u = fn.unwrap(args[0], casts=True)
            while u.get('kind') == 'CXXConstructExpr':
                u = fn.unwrap(kids(u)[0], casts=True)
            if u.get('kind') == 'CXXMemberCallExpr' and callee_name(u) == 'end':
                b0 = fn.expr(kids(kids(u)[0])[0])
                if b0 != fn.expr(base):
                    raise Ext('insert at the end of another vector')
                a = fn.expr(args[1])
                b = fn.expr(args[2])
                src = fn.rty(qt(args[1]))
                if not src.startswith('OpIt') and src != "It8<'a>":
                    raise Ext('insert from ' + src)
                f = 'vec_append_%s_from_%s' % (el, 'words' if src.startswith('OpIt') else 'bytes')
                return fn.finish_call(f, None, [fn.as_mut(base), a, b], False, '()', 'insert')
        if name in ('begin', 'end') and t == 'Vec<u8>' and not is_str:
            return 'It8::%s(%s)' % (name, fn.as_ref(base))
        if is_str and name in ('find_first_not_of', 'find_first_of', 'find', 'find_last_of', 'find_last_not_of', 'rfind'):
            s = fn.as_ref(base)
            u = fn.unwrap(args[0], casts=True)
            if u.get('kind') == 'StringLiteral':
                a = '&' + fn.e_StringLiteral(u, [])
            elif fn.rty(qt(args[0])) == 'u8':
                a = '&str_chr(%s)' % fn.expr(args[0])
            else:
                a = fn.as_ref(args[0])
            rest = [x for x in args[1:] if x.get('kind') != 'CXXDefaultArgExpr']
            if rest:
                pos = self.as_usize(fn, rest[0], fn.expr(rest[0]))
            else:
                pos = '0usize' if name.startswith('find_first') or name == 'find' else 'NPOS'
            return 'str_%s(%s, %s, %s)' % (name, s, a, pos)
        if is_str and name == 'compare' and len(args) == 1:
            return 'str_compare(%s, %s)' % (fn.as_ref(base), fn.as_ref(args[0]))
        if is_str and name == 'compare' and len(args) == 3:
            a = self.as_usize(fn, args[0], fn.expr(args[0]))
            b = self.as_usize(fn, args[1], fn.expr(args[1]))
            return 'str_compare_at(%s, %s, %s, %s)' % (fn.as_ref(base), a, b, fn.as_ref(args[2]))
        if is_str and name == 'substr':
            s = fn.as_ref(base)
            rest = [x for x in args if x.get('kind') != 'CXXDefaultArgExpr']
            a = self.as_usize(fn, rest[0], fn.expr(rest[0])) if rest else '0usize'
            b = self.as_usize(fn, rest[1], fn.expr(rest[1])) if len(rest) > 1 else 'NPOS'
            return self.str_sub(fn, [s, a, b])
        raise Ext('vector method ' + name)

    # ---- contracted callees
    def known(self, name, cls, nargs, args, ftype, fn, did=None):
        out = []
        for s in self.specs.values():
            nm = s.attr.get('name', s.rust.split('::')[-1])
            if nm != name:
                continue
            if 'extern' in s.attr:
                pass
            sc = s.attr.get('class')
            if cls is not None and sc is not None and sc != cls:
                continue
            if (cls is None) != (sc is None) and not (cls is None and s.attr.get('static') == 'yes'):
                continue
            node = self.nodes.get(s.rust)
            if node is None:
                continue
            ps = params_of(node[1])
            if len(ps) != nargs:
                continue
            out.append(s)
        if len(out) > 1 and did:
            d = [s for s in out if self.nodes[s.rust][2] is fn.idx and did in (self.nodes[s.rust][1].get('id'), self.nodes[s.rust][1].get('previousDecl'))]
            out = d or out
        if len(out) > 1 and fn.links and did in fn.idx.decls:
            out = self.same_params(fn, out, did) or out
        if len(out) > 1:
            # overload resolution by parameter types
            best = []
            for s in out:
                ps = params_of(self.nodes[s.rust][1])
                ok = True
                for p, a in zip(ps, args):
                    if a.get('kind') == 'CXXDefaultArgExpr':
                        continue
                    try:
                        if fn.rty(qt(p)) != fn.rty(qt(a)):
                            ok = False
                        elif fn.rty(qt(p)) == 'TyRef':
                            ok = ok and strip_cv(qt(p)).split('::')[-1] == strip_cv(qt(a)).split('::')[-1]
                    except Ext:
                        ok = ok and strip_cv(qt(p)) == strip_cv(qt(a))
                if ok:
                    best.append(s)
            out = best
        return out

    NUMS = {'signed char': (1, 0), 'char': (1, 0), 'unsigned char': (1, 1), 'short': (2, 0), 'unsigned short': (2, 1), 'int': (4, 0), 'unsigned int': (4, 1), 'long': (8, 0), 'unsigned long': (8, 1),
            'long long': (8, 0), 'unsigned long long': (8, 1), 'float': (4, 2), 'double': (8, 2)}
    NUMCATS = ('SInt', 'UInt', 'Float')

    NUMNAMES = {'Enum::integral_type': 'int', 'Typelib::Enum::integral_type': 'int', 'int8_t': 'signed char', 'uint8_t': 'unsigned char', 'int16_t': 'short', 'uint16_t': 'unsigned short', 'int32_t': 'int', 'uint32_t': 'unsigned int', 'int64_t': 'long', 'uint64_t': 'unsigned long'}
    MANGLED = {'a': 'signed char', 'c': 'char', 'h': 'unsigned char', 's': 'short', 't': 'unsigned short', 'i': 'int', 'j': 'unsigned int', 'l': 'long', 'm': 'unsigned long', 'x': 'long long',
               'y': 'unsigned long long', 'f': 'float', 'd': 'double'}

    def num_name(self, t, node=None):
        """the arithmetic type under a non constant reference, a pointer, or no declarator"""
        t = re.sub(r'^(std|__gnu_cxx)::', '', t.strip().rstrip('&*').strip())
        t = self.NUMNAMES.get(t, t)
        if t in self.NUMS:
            return t
        m = re.search(r'ER([achstijlmxyfd])$', (node or {}).get('mangledName', ''))
        return self.MANGLED[m.group(1)] if m and len(params_of(node)) == 1 else None

    def num_ref(self, t, node=None):
        return t.strip().endswith('&') and self.num_name(t, node) is not None

    def sig_of(self, node):
        return [(self.num_name(qt(p), node) + ' &') if self.num_ref(qt(p), node) else strip_cv(qt(p)) for p in params_of(node)]

    def num_deref(self, fn, c):
        '''*reinterpret_cast<T*>(address): a number of that C++ type in memory'''
        u = fn.unwrap(c)
        t = qt(u).strip()
        if u.get('kind') == 'CXXReinterpretCastExpr' and t.endswith('*') and not re.search(r'\* ?\*$', t) and self.num_name(t):
            n = self.NUMS[self.num_name(t)]
            return 'NRef::at(%s, %dusize, %s)' % (fn.expr(kids(u)[0]), n[0], self.NUMCATS[n[1]])
        if u.get('kind') == 'CXXReinterpretCastExpr' and re.search(r'\* ?\*$', t):
            return 'ptr_at(%s)' % fn.expr(kids(u)[0])
        return None

    def same_params(self, fn, cands, did):
        d = fn.idx.decls.get(did)
        if d is None:
            if len(cands) == 1:
                cls, node, idx = self.nodes[cands[0].rust]
                if len(idx.find(cls, node['name'])) == 1:
                    return cands     # the only method of that name in its class
            raise Ext('a method without declaration')
        return [s for s in cands if self.sig_of(self.nodes[s.rust][1]) == self.sig_of(d)]

    def not_overridden(self, fn, cl, name, did):
        '''a class that is skipped in the search for the function a virtual call selects'''
        d = fn.idx.decls.get(did)
        for rel in [fn.idx] + [n[2] for n in self.nodes.values()]:
            for c, node in [(c, x) for c, nm, x in rel.funcs if nm == name and c == cl]:
                if d is None or self.sig_of(node) == self.sig_of(d):
                    raise Ext('%s::%s(%s) has no contract' % (cl, name, ', '.join(self.sig_of(node))))

    def param_kinds(self, s):
        cls, node, idx = self.nodes[s.rust]
        f = Fn(self, s, cls, node, idx)
        ks = []
        constptr = set(x for x in s.attr.get('constptr', '').split(',') if x)
        pn = s.attr.get('params', '')
        pnames = pn.split(',') if pn else None
        for i, p in enumerate(params_of(node)):
            t = qt(p)
            name = pnames[i] if pnames else p.get('name')
            if name in f.bytes:
                ks.append('BYTES:' + f.bytes[name])
                continue
            if name in f.ptypes:
                ks.append(f.ptypes[name])
                continue
            if f.vals and (self.num_ref(t, node) or name == s.attr.get('nval')):
                ks.append('NRef')
                continue
            r = f.rty(t)
            if r == 'PTR':
                ks.append('PTRCONST' if f.ptr_const(t) or name in constptr else 'PTRMUT')
                continue
            isref = t.strip().endswith('&')
            isconst = t.strip().startswith('const ') or (isref and r == s.attr.get('shared'))
            if r in self.stream_traits:
                ks.append('STREAM')
            elif isref and not isconst:
                ks.append('&mut ' + r)
            elif (isref and isconst and r not in INTS and not self.is_copy(r)) or self.by_ref(r):
                ks.append('&' + r)
            else:
                ks.append(r)
        return ks

    def ret_of(self, s):
        cls, node, idx = self.nodes[s.rust]
        f = Fn(self, s, cls, node, idx)
        return f.ret_type(node)

    def find_helper(self, fn, name, cls, nargs):
        for rel in [fn.idx.rel] + [x for x in ('typelib/typemodel.cc', 'typelib/registry.cc', 'typelib/typename.cc') if x != fn.idx.rel]:
            for filt in ('Typelib::', name):
                try:
                    idx = self.ast.docs(rel, filt)
                except Ext:
                    continue
                r = idx.find(cls, name, nargs)
                if len(r) == 1:
                    return r[0][1], idx
        return None

    # ---- resolution of contract entries to AST nodes
    def resolve(self, s):
        a = s.attr
        filt = a.get('filter') or 'Typelib::'
        name = a.get('name', s.rust.split('::')[-1])
        cls = a.get('class')
        n = len(a['params'].split(',')) if a.get('params') else (int(a['nparams']) if 'nparams' in a else None)
        types = a.get('types')
        if types:
            types = types.replace('~', ' ')
        if a['file'].startswith('@'):
            a['file'] = os.path.join(self.ast.work, a['file'][1:])
        idx = self.ast.docs(a['file'], filt)
        r = idx.find(cls, name, n, types)
        if len(r) != 1 and filt != name:
            idx2 = self.ast.docs(a['file'], name)
            r2 = idx2.find(cls, name, n, types)
            if len(r2) == 1:
                idx, r = idx2, r2
        if not r and a.get('assumed'):
            r = list({x[1]['id']: x for x in idx.find(cls, name, n, types, pure=True)}.values())
        if 'const' in a:
            r = [x for x in r if bool(re.search(r'\)\s*const\b', x[1].get('type', {}).get('qualType', ''))) == (a['const'] == 'yes')]
        if 'targs' in a:
            r = [x for x in r if idx.targs.get(x[1]['id']) == a['targs']]
        if len(r) != 1:
            raise Ext('%s: %d definitions of %s found in %s' % (s.rust, len(r), name, a['file']))
        return r[0][0], r[0][1], idx


def split_top(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        if ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
