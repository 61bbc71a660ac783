"""world=ruby: the memory table of the Ruby bindings.  Pointers, Ruby's VALUEs and objects are numbers, what they lead to
is in the world (contracts/c26.rs)."""
import re
from cxx2verus import Ext, qt, kids, strip_cv, callee_name

CLASSES = {'MemoryTableEntry': ('e', 'entry', ('refcount', 'owned', 'root_ptr')), 'MemoryZone': ('z', 'zone', ('ptr',))}
FLAG = {'bool': 'false', 'i32': '0i32', 'usize': '0usize'}


NUMS = {'RB_INT2FIX': ('int2fix', False, 'usize'), 'rb_int2num_inline': ('int2num', False, 'usize'), 'rb_uint2num_inline': ('uint2num', False, 'usize'),
        'rb_ll2num_inline': ('ll2num', False, 'usize'), 'rb_ull2num_inline': ('ull2num', False, 'usize'),
        'rb_num2int_inline': ('num2int', True, 'i32'), 'RB_NUM2UINT': ('num2uint', True, 'u32'), 'rb_num2ll_inline': ('num2ll', True, 'i64'), 'rb_num2ull_inline': ('num2ull', True, 'usize'),
        'rb_num2long_inline': ('num2ll', True, 'i64'), 'rb_num2ulong_inline': ('num2ull', True, 'usize'), 'rb_long2num_inline': ('ll2num', False, 'usize'), 'rb_ulong2num_inline': ('ull2num', False, 'usize')}


class RubyTr:
    def __init__(self, tr):
        self.tr = tr

    def type(self, t):
        t = re.sub(r'\b(struct|class) ', '', t)
        if re.search(r'\*( const)?$', t) or t in ('VALUE', 'ID', 'st_data_t'):
            return 'usize'
        if re.match(r'^(Typelib::)?(Type|Pointer|Array|Compound|OpaqueType|Container|Enum|Numeric)$|^((typelib_ruby::)?cxx2rb::)?RbRegistry$|^(Typelib::)?MemoryLayout$', t):
            return 'usize'
        if re.match(r'^(Typelib::)?Value$', t):
            return 'RV'
        if re.match(r'^RbMemoryLayout$', t):
            return 'LayRef'
        if re.match(r'^(MemoryTypes|TypeLayouts)::(const_)?iterator$|^(std::)?_Rb_tree_(const_)?iterator<(std::)?pair<const void \*const, ', t) or re.match(r'^(std::)?map<const void \*, .*>::(const_)?iterator$', t):
            return 'TypIt'
        return None

    def table(self, t):
        return 'lay' if re.search(r'RbMemoryLayout|TypeLayouts', t) else 'typ' if re.search(r'MemoryTypes|const void \*', t) else None

    def cls(self, t):
        return strip_cv(t.rstrip('*').strip()).split('::')[-1]

    def ctor(self, fn, cls, args):
        """The fields an object is constructed with, from the constructor in the source."""
        rel = fn.spec.attr['file']
        idx = self.tr.ast.docs(rel, cls)
        cands = [d for d in idx.decls.values() if d.get('kind') == 'CXXConstructorDecl' and d.get('name') == cls and not d.get('isImplicit')
                 and sum(1 for p in kids(d) if p.get('kind') == 'ParmVarDecl' and not p.get('init')) <= len(args) <= sum(1 for p in kids(d) if p.get('kind') == 'ParmVarDecl')]
        cands = list({d['id']: d for d in cands}.values())
        if len(cands) != 1:
            raise Ext('%d constructors of %s' % (len(cands), cls))
        d = cands[0]
        ps = [p for p in kids(d) if p.get('kind') == 'ParmVarDecl']
        body = [p for p in kids(d) if p.get('kind') == 'CompoundStmt']
        if not body or kids(body[0]):
            raise Ext('constructor of %s with a body' % cls)
        val = {}
        for p, a in zip(ps, args + [None] * len(ps)):
            if a is None or a.get('kind') == 'CXXDefaultArgExpr':
                a = [x for x in kids(p)][0]
            val[p['id']] = a
        out = {}
        for i in kids(d):
            if i.get('kind') != 'CXXCtorInitializer':
                continue
            f = i.get('anyInit', {}).get('name')
            x = kids(i)[0]
            u = fn.unwrap(x)
            while u.get('kind') == 'CXXConstructExpr' and len(kids(u)) == 1:
                u = fn.unwrap(kids(u)[0])
            out[f] = val[u['referencedDecl']['id']] if u.get('kind') == 'DeclRefExpr' and u['referencedDecl']['id'] in val else x
        return out

    def num(self, fn, n, want):
        e = fn.expr(n)
        if want == 'bool' and re.match(r'^\d', e):
            return 'true' if re.match(r'^0*[1-9]', e) else 'false'
        return e

    def new(self, fn, n, c):
        cls = self.cls(qt(n))
        if cls not in CLASSES or n.get('isArray') or n.get('isPlacement'):
            raise Ext('new %s' % cls)
        made = [x for x in c if x.get('kind') == 'CXXConstructExpr']
        init = self.ctor(fn, cls, kids(made[0]))
        k, nm, fields = CLASSES[cls]
        if set(init) != set(fields):
            raise Ext('fields of %s' % cls)
        args = [self.num(fn, init[f], 'bool' if f == 'owned' else '') for f in fields]
        return fn.finish_call('w.new_' + nm, None, args, False, 'usize', 'new_' + nm)

    def delete(self, fn, n, c):
        cls = self.cls(qt(c[0]))
        if cls not in CLASSES:
            raise Ext('delete %s' % cls)
        return fn.finish_call('w.delete_' + CLASSES[cls][1], None, [fn.expr(c[0])], False, '()', 'delete_' + CLASSES[cls][1])

    def member(self, fn, n, c):
        name = n['name']
        u = fn.unwrap(c[0], casts=True)
        if name == 'first' and u.get('kind') == 'CXXMemberCallExpr' and callee_name(u) == 'insert':
            return fn.expr(u)
        if name in ('first', 'second') and u.get('kind') == 'CXXOperatorCallExpr' and callee_name(u) == 'operator->' and fn.rty_or_none(qt(kids(u)[1])) == 'TypIt':
            it = fn.expr(kids(u)[1])
            return '%s.k' % it if name == 'first' else 'w.%s_second(%s)' % (self.table(qt(kids(u)[1])), it)
        cls = self.cls(qt(c[0]))
        if cls in CLASSES and name in CLASSES[cls][2]:
            return 'w.get_%s_%s(%s)' % (CLASSES[cls][0], name, fn.expr(c[0]))
        if cls == 'RbMemoryLayout' and name in ('refcount', 'layout'):
            return 'w.get_l_%s(%s)' % (name, fn.expr(c[0]))
        if cls == 'RbRegistry' and name == 'registry':
            return fn.expr(c[0])
        raise Ext('member %s of %s' % (name, cls))

    def var(self, fn, n):
        """&x or (T*)&x for a local pointer x"""
        u = fn.unwrap(n, casts=True)
        if u.get('kind') == 'UnaryOperator' and u.get('opcode') == '&':
            x = fn.unwrap(kids(u)[0])
            if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] in fn.names and fn.rty_or_none(qt(x)) == 'usize':
                return fn.names[x['referencedDecl']['id']]
        return None

    def binop(self, fn, n, c):
        # INT2FIX is a macro or a function, depending on the compiler
        if n['opcode'] != '|' or (fn.unwrap(c[1], casts=True).get('referencedDecl') or {}).get('name') != 'RUBY_FIXNUM_FLAG':
            return None
        l = fn.unwrap(c[0], casts=True)
        if l.get('kind') != 'BinaryOperator' or l['opcode'] != '<<' or fn.unwrap(kids(l)[1], casts=True).get('value') != '1':
            raise Ext('RUBY_FIXNUM_FLAG')
        x = fn.unwrap(kids(l)[0])
        while x.get('kind', '').endswith('CastExpr') and qt(x) in ('VALUE', 'unsigned long'):
            x = fn.unwrap(kids(x)[0])
        return fn.finish_call('int2fix', None, ['(%s as i64)' % fn.expr(x)], False, 'usize', 'int2fix')

    def walk(self, n):
        yield n
        for c in kids(n):
            yield from self.walk(c)

    def is_null(self, fn, n):
        u = fn.unwrap(n, casts=True)
        return u.get('kind') in ('GNUNullExpr', 'CXXNullPtrLiteralExpr') or u.get('kind') == 'IntegerLiteral' and u['value'] == '0'

    def raise_(self, fn):
        # rb_raise does not unwind: catch clauses do not see it
        saved, fn.catch = fn.catch, []
        fn.throw()
        fn.catch = saved

    def call(self, fn, n, name, args):
        name = re.sub(r'^rb_st_', 'st_', name or '')
        if name.startswith('st_') and len(args) >= 2 and not (fn.unwrap(args[0], casts=True).get('referencedDecl') or {}).get('name') == 'MemoryTable':
            raise Ext('%s on another table' % name)
        if name == 'st_lookup' and len(args) == 3:
            k = fn.expr(args[1])
            if self.is_null(fn, args[2]):
                return fn.finish_call('w.has', None, [k], False, 'i32', 'lookup')
            v = self.var(fn, args[2])
            if v is None:
                raise Ext('st_lookup into other than a local pointer')
            return fn.finish_call('w.lookup', None, [k, '&mut ' + v], False, 'i32', 'lookup')
        if name == 'st_insert' and len(args) == 3:
            a, b = fn.two(args[1], args[2])
            return fn.finish_call('w.insert', None, [a, b], False, 'i32', 'insert')
        if name == 'st_delete' and len(args) == 3 and self.is_null(fn, args[2]):
            v = self.var(fn, args[1])
            if v is None:
                raise Ext('st_delete of other than a local pointer')
            return fn.finish_call('w.delete', None, [v], False, 'i32', 'delete')
        if name == 'rb_raise':
            self.raise_(fn)
            return '()'
        if name == 'rb_data_object_wrap' and len(args) == 4:
            f = fn.unwrap(args[3], casts=True)
            while f.get('kind') == 'UnaryOperator' and f.get('opcode') == '&':
                f = fn.unwrap(kids(f)[0], casts=True)
            if not self.is_null(fn, args[2]):
                raise Ext('objects are marked')
            ok = (f.get('referencedDecl') or {}).get('name') == 'memory_zone_unref'
            return fn.finish_call('w.wrap', None, [fn.expr(args[1]), 'true' if ok else 'false'], False, 'usize', 'wrap')
        if name == 'rb_data_object_get' and len(args) == 1:
            return fn.finish_call('w.data', None, [fn.expr(args[0])], False, 'usize', 'data')
        if name in ('ruby_xmalloc', 'rb_xmalloc') and len(args) == 1:
            return fn.finish_call('w.xmalloc', None, [fn.expr(args[0])], False, 'usize', 'xmalloc')
        if name == 'ruby_xfree' and len(args) == 1:
            return fn.finish_call('w.xfree', None, [fn.expr(args[0])], False, '()', 'xfree')
        if name in ('init', 'destroy') and len(args) == 2:
            a, b = fn.two(args[0], args[1])
            return fn.finish_call('w.' + name, None, [a, b], False, '()', name)
        if name == 'layout_of':
            return fn.finish_call('layout_of', None, [fn.expr(args[0])], True, 'usize', name)
        if name == 'object' and len(args) == 1:
            c = self.cls(re.sub(r'&$', '', qt(n)).strip())
            if c == 'Value':
                return fn.finish_call('w.value_of', None, [fn.expr(args[0])], True, 'RV', 'value_of')
            f = {'Type': 'type_of', 'RbRegistry': 'registry_object'}.get(c)
            if not f:
                raise Ext('object<%s>' % c)
            return fn.finish_call(f, None, [fn.expr(args[0])], True, 'usize', f)
        if name == 'type_get_registry' and len(args) == 1:
            return 'registry_of(%s)' % fn.expr(args[0])
        if name == 'rb_iv_set' and len(args) == 3:
            s = fn.unwrap(args[1], casts=True)
            if s.get('kind') != 'StringLiteral':
                raise Ext('rb_iv_set')
            a, b = fn.two(args[0], args[2])
            return fn.finish_call('w.iv_set', None, [a, s['value'], b], False, 'usize', 'iv_set')
        if name == 'rb_funcall' and len(args) == 4:
            lits = {x['value'] for x in self.walk(args[1]) if x.get('kind') == 'StringLiteral'}
            u = fn.unwrap(args[2], casts=True)
            if lits != {'"wrap"'} or u.get('value') != '1':
                raise Ext('call of the Ruby method %s' % '/'.join(sorted(lits)))
            a, b = fn.two(args[0], args[3])
            return fn.finish_call('w.call_wrap', None, [a, b], False, 'usize', 'call_wrap')
        if name == 'type_wrap' and len(args) == 2:
            a, b = fn.two(args[0], args[1])
            return fn.finish_call('w.type_wrap', None, [a, b], True, 'usize', name)
        if name in ('RB_TEST', 'rb_test') and len(args) == 1:
            return 'rtest(%s)' % fn.expr(args[0])
        if name == 'rb_iv_get' and len(args) == 2:
            s = fn.unwrap(args[1], casts=True)
            if s.get('kind') != 'StringLiteral':
                raise Ext('rb_iv_get')
            return fn.finish_call('w.iv_get', None, [fn.expr(args[0]), s['value']], False, 'usize', 'iv_get')
        if name == 'rb_str_modify' and len(args) == 1:
            return fn.finish_call('w.str_modify', None, [fn.expr(args[0])], False, '()', 'str_modify')
        if fn.spec.attr.get('class', '').startswith('Ruby') and name in NUMS and len(args) == 1:
            f, thr, ret = NUMS[name]
            return fn.finish_call(f, None, [fn.expr(args[0])], thr, ret, f)
        if name == 'rb_ull2num_inline' and len(args) == 1:
            return fn.finish_call('ull2num', None, [fn.expr(args[0])], False, 'usize', 'ull2num')
        if name == 'rb_string_value_ptr' and len(args) == 1:
            v = self.var(fn, args[0])
            if v is None:
                raise Ext('StringValuePtr of other than a variable')
            return fn.finish_call('w.string_ptr', None, [v], False, 'usize', 'string_ptr')
        return None

    def pair(self, fn, n):
        u = fn.unwrap(n, casts=True)
        while u.get('kind') == 'CXXConstructExpr' and len(kids(u)) == 1:
            u = fn.unwrap(kids(u)[0], casts=True)
        if u.get('kind') == 'CallExpr' and callee_name(u) == 'make_pair':
            return kids(u)[1:]
        if u.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(kids(u)) == 2:
            return kids(u)
        raise Ext('insertion of other than a pair')

    def method(self, fn, n, base, name, args):
        if name in ('getData', 'getType') and not args and fn.rty_or_none(strip_cv(qt(base))) == 'RV':
            return '%s.%s()' % (fn.expr(base), name)
        bt = strip_cv(qt(base).rstrip('*').strip())
        t = self.table(bt) if re.search(r'map<|MemoryTypes|TypeLayouts', bt) else None
        if t:
            if name == 'find' and len(args) == 1:
                return fn.finish_call('w.%s_find' % t, None, [fn.expr(args[0])], False, 'TypIt', t + '_find')
            if name == 'count' and len(args) == 1:
                i = fn.finish_call('w.%s_find' % t, None, [fn.expr(args[0])], False, 'TypIt', t + '_find')
                return '(if %s.end { 0usize } else { 1usize })' % i
            if name in ('end', 'cend') and not args:
                return 'w.%s_end()' % t
            if name == 'erase' and len(args) == 1:
                if fn.rty_or_none(qt(args[0])) == 'TypIt':
                    i = fn.expr(args[0])
                else:
                    i = fn.finish_call('w.%s_find' % t, None, [fn.expr(args[0])], False, 'TypIt', t + '_find')
                    fn.emit('if !%s.end {' % i)
                    fn.emit('w.%s_erase(%s); }' % (t, i))
                    return '()'
                return fn.finish_call('w.%s_erase' % t, None, [i], False, '()', t + '_erase')
            if name == 'insert' and len(args) == 1:
                a, b = self.pair(fn, args[0])
                if t == 'typ':
                    return fn.finish_call('w.typ_insert', None, list(fn.two(a, b)), False, '()', 'typ_insert')
                u = fn.unwrap(b, casts=True)
                while u.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(kids(u)) == 1:
                    u = fn.unwrap(kids(u)[0], casts=True)
                if u.get('kind') not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') or self.cls(qt(u)) != 'RbMemoryLayout':
                    raise Ext('layout to insert')
                init = self.ctor(fn, 'RbMemoryLayout', kids(u))
                k = fn.expr(a)
                return fn.finish_call('w.lay_insert', None, [k, fn.expr(init['refcount']), fn.expr(init['layout'])], False, 'TypIt', 'lay_insert')
        if name == 'getSize' and not args and fn.rty_or_none(bt) == 'usize':
            return 'get_size(%s)' % fn.expr(base)
        if name == 'getName' and not args and fn.rty_or_none(bt) == 'usize':
            return 'type_name(%s)' % fn.expr(base)
        if name == 'get' and len(args) == 1 and re.search(r'Registry$', bt):
            u = fn.unwrap(base, casts=True)
            r = fn.expr(kids(u)[1]) if u.get('kind') == 'CXXOperatorCallExpr' else fn.expr(base)
            return 'reg_get(%s, %s)' % (r, fn.expr(args[0]))
        return None

    def operator(self, fn, n, op, args):
        if op in ('operator!=', 'operator==') and fn.rty_or_none(qt(args[0])) == 'TypIt':
            a, b = fn.two(args[0], args[1])
            return '%s%s.ne(%s)' % ('' if op == 'operator!=' else '!', a, b)
        return None

    def assign(self, fn, lu, r):
        if lu.get('kind') == 'UnaryOperator' and lu.get('opcode') == '*' and re.match(r'^void \*( const)? ?\*$', qt(kids(lu)[0])):
            a, b = fn.two(kids(lu)[0], r)
            return fn.finish_call('w.store_ptr', None, [a, b], False, '()', 'store_ptr')
        return None
