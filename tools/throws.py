"""Which C++ exceptions can leave each function, from the LLVM IR clang makes of the repository's current sources: calls, throw
expressions, landing pads and virtual tables are extracted, everything else (data, order, loops) is dropped.  A contract per
function is inferred here and every contract is then checked by Verus against the contracts of the callees."""
import os, re, sys, json, time, subprocess, glob, collections, concurrent.futures as cf

STD = {'_ZTISt9exception': [], '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt8bad_cast': ['_ZTISt9exception'], '_ZTISt10bad_typeid': ['_ZTISt9exception'],
       '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt13runtime_error': ['_ZTISt9exception']}
STD['_ZTISt17bad_function_call'] = ['_ZTISt9exception']
for _n in ('12length_error', '12out_of_range', '16invalid_argument', '12domain_error'):
    STD['_ZTISt' + _n] = ['_ZTISt11logic_error']
for _n in ('11range_error', '14overflow_error', '15underflow_error'):
    STD['_ZTISt' + _n] = ['_ZTISt13runtime_error']
END = 'the process ends'            # an exception met a function that must not throw: nothing catches that
FOREIGN = 'exception of a foreign library'


def compile_all(repo, work, sources, inc, jobs=8):
    os.makedirs(work, exist_ok=True)
    out, errs = [], []

    def one(f):
        o = work + '/' + os.path.relpath(f, repo).replace('/', '_') + '.ll'
        p = subprocess.run(['clang++', '-std=c++11', '-O0', '-w', '-flto', '-fwhole-program-vtables', '-fvisibility=hidden', '-DTYPELIB_HARDCODED_PLUGIN_PATH="/x"']
                           + inc + ['-S', '-emit-llvm', f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return f, o, p.returncode, p.stdout.decode(errors='replace')
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f, o, rc, t in ex.map(one, sources):
            if rc:
                errs.append('%s:\n%s' % (f, t[:3000]))
            out.append((os.path.relpath(f, repo), o))
    return out, '\n'.join(errs)


SYM = r'@(?:"(?:[^"\\]|\\.)*"|[\w.$-]+)'


class Func:
    __slots__ = ('name', 'mod', 'sites', 'pads', 'catching', 'key')


class Program:
    def __init__(self, mods):
        self.funcs, self.bases, self.vt, self.alias, self.taken, self.sigs = {}, dict(STD), collections.defaultdict(list), {}, set(), {}
        self.decl_nounwind, self.declared, self.vcalls, self.icalls = set(), set(), 0, 0
        self.passed = []            # (module, function whose address is an argument, callee)
        for rel, f in mods:
            self.module(rel, open(f).read())

    def key(self, mod, n, internal):
        return (mod + ':' + n) if n in internal else n

    def module(self, mod, text):
        attrs = {m.group(1): set(m.group(2).split()) for m in re.finditer(r'^attributes #(\d+) = \{([^}]*)\}', text, re.M)}
        nounwind = {k for k, v in attrs.items() if 'nounwind' in v}
        internal = set(re.findall(r'^define (?:internal|private)[^@]*(%s)' % SYM, text, re.M)) | set(re.findall(r'^(%s) = (?:internal|private)' % SYM, text, re.M))
        internal = {x[1:].strip('"') for x in internal}
        K = lambda s: self.key(mod, s[1:].strip('"'), internal)
        for m in re.finditer(r'^(%s) = .*\balias\b.*?ptr (%s)' % (SYM, SYM), text, re.M):
            self.alias[K(m.group(1))] = K(m.group(2))
        for m in re.finditer(r'^(@_ZTI[\w.]+) = [^\n]*\bconstant \{([^\n]*)', text, re.M):
            bs = re.findall(r'ptr (@_ZTI[\w.]+)', m.group(2).split('} {', 1)[-1])
            self.bases[m.group(1)[1:]] = [b[1:] for b in bs if b != m.group(1)]
        # virtual tables: !type metadata says which class's table starts where
        types = dict(re.findall(r'^!(\d+) = !\{i64 (\d+, [^}]*)\}', text, re.M))
        for m in re.finditer(r'^(@_ZTV[\w.]+|@_ZTC[\w.]+) = ([^\n]*)', text, re.M):
            init = m.group(2)
            arrs = re.findall(r'\[\d+ x ptr\] \[((?:[^\[\]]|\[[^\]]*\])*)\]', init)
            entries = []
            for a in arrs:
                for e in re.split(r', (?=ptr\b|ptr null)', a):
                    s = re.search(SYM, e)
                    entries.append(K(s.group(0)) if s and 'inttoptr' not in e else None)
            for t in re.findall(r'!type !(\d+)', init):
                d = types.get(t)
                mm = d and re.match(r'(\d+), !"(_ZTS[\w.]+)"$', d)
                if mm:
                    self.vt[mm.group(2)].append((entries, int(mm.group(1)) // 8, m.group(1)[5:] if m.group(1).startswith('@_ZTV') else None))
        for m in re.finditer(r'^declare ([^@\n]*)(%s)\(([^\n]*)' % SYM, text, re.M):
            n = K(m.group(2))
            self.declared.add(n)
            g = re.search(r'\) .*?#(\d+)', m.group(3))
            if 'nounwind' in m.group(3) or any(x in nounwind for x in re.findall(r'#(\d+)', m.group(3))):
                self.decl_nounwind.add(n)
        # global initialisers that mention functions (tables of callbacks)
        for m in re.finditer(r'^(%s) = ([^\n]*)' % SYM, text, re.M):
            if not m.group(1).startswith(('@_ZTV', '@_ZTI', '@_ZTC', '@_ZTT', '@llvm.')) and 'alias' not in m.group(2)[:60]:
                for s in re.findall(r'ptr (%s)' % SYM, m.group(2)):
                    self.taken.add(K(s))
        for m in re.finditer(r'^define ([^\n]*?)(%s)\(([^\n]*)\{\n(.*?)^\}' % SYM, text, re.M | re.S):
            n = K(m.group(2))
            if n in self.funcs:
                continue
            self.function(mod, n, m.group(1), m.group(3), m.group(4), K, nounwind)

    def signature(self, ret, args):
        r = re.findall(r'\b(void|ptr|i\d+|double|float|\{[^}]*\}|%[\w."]+)\s*$', ret.strip())
        args = re.sub(r'\([^()]*\)', '', re.sub(r'\([^()]*\)', '', args))
        a = [re.match(r'\s*(\S+)', x).group(1) for x in args.split(',') if x.strip() and not x.strip().startswith('...')]
        return (r[0] if r else '?', tuple(a))

    def function(self, mod, name, head, tail, body, K, nounwind):
        f = Func()
        f.name = f.key = name
        f.mod = mod
        f.sites, f.pads, f.catching = [], {}, False
        depth, i = 1, 0
        while i < len(tail) and depth:
            depth += {'(': 1, ')': -1}.get(tail[i], 0)
            i += 1
        self.sigs[name] = self.signature(head, tail[:i - 1])
        label, regs, made = '0', {}, {}
        lines = body.split('\n')
        k = 0
        while k < len(lines):
            l = lines[k]
            k += 1
            mm = re.match(r'^([\w.$-]+):', l)
            if mm:
                label = mm.group(1)
                continue
            s = l.strip()
            if not s:
                continue
            mm = re.match(r'(%\S+) = landingpad', s)
            if mm:
                clauses, cleanup = [], False
                while k < len(lines) and re.match(r'\s+(catch|filter|cleanup)\b', lines[k]):
                    c = lines[k].strip()
                    k += 1
                    if c.startswith('cleanup'):
                        cleanup = True
                    elif c.startswith('catch ptr null'):
                        clauses.append(None)
                    elif c.startswith('catch'):
                        clauses.append(re.search(SYM, c).group(0)[1:])
                    else:
                        clauses.append('filter')
                # the handler that ends the process
                rest = ' '.join(lines[k:k + 3])
                f.pads[label] = (clauses, '__clang_call_terminate' in rest)
                continue
            mm = re.match(r'(%\S+) = alloca %"?((?:class|struct)\.[^",]+?)"?(?:, align|$)', s)
            if mm:
                made[mm.group(1)] = re.sub(r'\.\d+$', '', mm.group(2).split('.', 1)[1])
                continue
            mm = re.match(r'(%\S+) = load ptr, ptr (%\S+),', s)
            if mm:
                src = regs.get(mm.group(2))
                regs[mm.group(1)] = ('fn', src[1], src[2]) if src and src[0] == 'slot' else ('vt', mm.group(2)) if src is None else None
                continue
            mm = re.match(r'%\S+ = call i1 @llvm\.(?:public\.)?type\.test\(ptr (%\S+), metadata !"(\w+)"\)', s)
            if mm:
                regs[mm.group(1)] = ('table', mm.group(2))
                continue
            mm = re.match(r'(%\S+) = getelementptr inbounds ptr, ptr (%\S+), i64 (\d+)', s)
            if mm and regs.get(mm.group(2), (0,))[0] == 'table':
                regs[mm.group(1)] = ('slot', regs[mm.group(2)][1], int(mm.group(3)))
                continue
            mm = re.match(r'(?:%\S+ = )?(?:tail |musttail |notail )?(call|invoke) (.*)', s)
            if not mm:
                for x in re.findall(SYM, s):
                    if re.match(r'(store|%\S+ = (select|phi)) ', s):
                        self.taken.add(K(x))
                continue
            kind, rest = mm.groups()
            unw = None
            if kind == 'invoke':
                unw = re.search(r'unwind label %([\w.$-]+)', lines[k]).group(1)
                k += 1
            if ' asm ' in ' ' + rest.split('(')[0] + ' ':
                continue
            cm = re.search(r'(%s|%%[\w.]+)\(' % SYM, rest)
            callee = cm.group(1)
            # arguments
            j, depth = cm.end(), 1
            while j < len(rest) and depth:
                depth += {'(': 1, ')': -1}.get(rest[j], 0)
                j += 1
            args, after = rest[cm.end():j - 1], rest[j:]
            vis = tuple(made[x] for x in re.findall(r'%[\w.]+', args) if x in made)
            nothrow = any(x in nounwind for x in re.findall(r'#(\d+)', after))
            if callee.startswith('@'):
                c = K(callee)
                if c.startswith('llvm.'):
                    continue
                if c == '__cxa_throw':
                    f.sites.append(('throw', re.findall(SYM, args)[0][1:], unw, ()))
                    continue
                if c == '__cxa_rethrow':
                    f.sites.append(('rethrow', None, unw, ()))
                    continue
                if c == '__cxa_begin_catch':
                    continue
                for x in re.findall(SYM, args):
                    self.taken.add(K(x))
                    self.passed.append((mod, K(x), c))
                if not nothrow or c in ('__clang_call_terminate',):
                    f.sites.append(('call', c, unw, vis))
                else:
                    f.sites.append(('call-nothrow', c, unw, vis))
            else:
                for x in re.findall(SYM, args):
                    self.taken.add(K(x))
                r = regs.get(callee)
                if r and r[0] == 'fn':
                    self.vcalls += 1
                    f.sites.append(('virtual' if not nothrow else 'virtual-nothrow', (r[1], r[2]), unw, vis))
                else:
                    self.icalls += 1
                    f.sites.append(('indirect' if not nothrow else 'indirect-nothrow', self.signature(rest[:cm.start()], args), unw, vis))
        self.funcs[name] = f

    # ---------------------------------------------------------------- resolution
    def derived(self, t, c):
        if c is None or t == c:
            return True
        if t == FOREIGN:
            return c == '_ZTISt9exception'
        return any(self.derived(b, c) for b in self.bases.get(t, ()))

    def resolve(self, n):
        seen = set()
        while n in self.alias and n not in seen and n not in self.funcs:
            seen.add(n)
            n = self.alias[n]
        return n

    # ------------------------------------------------- visitors: a virtual call inside one is resolved for the class of the visitor
    FAMILY = ('_ZTIN7Typelib11TypeVisitorE', '_ZTIN7Typelib12ValueVisitorE')

    def prepare(self):
        tis = sorted(t for t in self.bases if any(self.derived(t, b) for b in self.FAMILY))
        names = subprocess.run(['c++filt'], input='\n'.join('_ZTS' + t[4:] for t in tis).encode(), stdout=subprocess.PIPE).stdout.decode().split('\n')
        self.visitors = {n.replace('typeinfo name for ', ''): t[4:] for n, t in zip(names, tis)}
        self.familysites = {'_ZTS' + t[4:] for t in tis}
        self.roots = self.rubyroots()
        self.onlyruby = set(self.roots)
        self.used = set()
        # which functions depend on the visitor their callers made
        callers = collections.defaultdict(set)
        self.needs = set()
        for n, f in self.funcs.items():
            for s in f.sites:
                if s[0] in ('throw', 'rethrow') or self.visitor(s):
                    continue
                if s[0].startswith('virtual') and s[1][0] in self.familysites:
                    self.needs.add(n)
                for t in self.targets(s, None, n):
                    callers[t].add(n)
        todo = list(self.needs)
        while todo:
            for c in callers[todo.pop()]:
                if c not in self.needs:
                    self.needs.add(c)
                    todo.append(c)

    def rubyroots(self):
        """the functions of the Ruby extension whose address is handed to the interpreter"""
        out = set()
        for mod, x, c in self.passed:
            x = self.resolve(x)
            if mod.startswith('bindings_ruby') and x in self.funcs and (not c.startswith('_Z') or 'ruby8backward' in c):
                out.add(x)
        return sorted(out)

    def visitor(self, site):
        for c in site[3]:
            if c in self.visitors:
                return self.visitors[c]
        return None

    def targets(self, site, ctx=None, fn=None):
        k, what = site[:2]
        if k.startswith('call'):
            return [self.resolve(what)]
        if k.startswith('virtual'):
            tables = self.vt.get(what[0], ())
            if ctx and what[0] in self.familysites:
                own = [t for t in tables if t[2] == ctx]
                if not own and self.derived('_ZTI' + ctx, self.FAMILY[1]):
                    own = [t for t in tables if t[2] == 'N7Typelib12ValueVisitor12TypeDispatchE']
                tables = own or tables
            out = set()
            for entries, at, owner in tables:
                i = at + what[1]
                if i < len(entries) and entries[i]:
                    out.add(self.resolve(entries[i]))
            return sorted(out)
        if k.startswith('indirect'):
            out = {self.resolve(x) for x in self.taken}
            out = sorted(x for x in out if self.sigs.get(x) == what and x in self.funcs and x not in self.onlyruby)
            for who, pat, why in INDIRECT:
                if fn and re.match(who, fn):
                    self.used.add(why)
                    out = [x for x in out if re.match(pat, x)]
            return out
        return []

    def external(self, n):
        """the exceptions of a function that is not in the repository: an assumption"""
        if n in ('__cxa_bad_typeid',):
            return {'_ZTISt10bad_typeid'}
        m = re.match(r'_ZSt\d+__throw_(out_of_range|invalid_argument|bad_cast|bad_function_call|runtime_error|domain_error|range_error|overflow_error|underflow_error|bad_variant_access|bad_optional_access)', n)
        if m:
            k = m.group(1)
            return {'_ZTISt%d%s' % (len(k), k)}
        # positions given to text
        if re.match(r'_ZNK?St7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE(6substrE|2atE|5eraseEmm|6insertEm|7replaceEm|7compareEm|4copyE)', n):
            return {'_ZTISt12out_of_range'}
        if n in self.decl_nounwind:
            return set()
        if re.match(r'_ZNK?5boost', n):
            return {FOREIGN}
        return set()


# What is taken on trust.  ASSUMED: the contract of a function is this set of exceptions, its body is not looked at.
ASSUMED = [
    (r'_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_string', set(), 'joining strings throws nothing'),
    (r'__cxa_bad_cast$', {'_ZTISt8bad_cast'}, None),
    (r'_ZN5boost12lexical_castINSt7__cxx1112basic_string', set(), 'boost::lexical_cast of a number or a name to text succeeds'),
    (r'_ZN5boost15throw_exceptionINS_(10lock_error|21thread_resource_error)E', set(), 'the mutexes of the plugin manager can be made and locked'),
    (r'.*117getStringCategoryEN7Typelib', set(), 'a numeric is a signed, unsigned or floating point number: getStringCategory knows its category'),
]
# RESTRICT: these exceptions (None: none at all) do not come out of this call
RESTRICT = [
    (r'(?=bindings_ruby)\S+ (?!_ZNK?7Typelib)', r'__cxa_bad_cast$', ('_ZTISt8bad_cast',), 'the Ruby class of an object says the category of its type'),
    (r'.* _ZN7Typelib(11TypeVisitor8dispatch|12ValueVisitor)', r'__cxa_bad_cast$', ('_ZTISt8bad_cast',), 'an object of a category is of the class of that category'),
    (r'.* _Z9enum_keysm', r'_ZNK7Typelib4Enum3get', ('_ZTIN7Typelib4Enum14SymbolNotFoundE',), 'the symbols of an enumeration are found in it'),
    (r'bindings_ruby_ext_memory\.cc ', r'_ZN7Typelib7destroyE', None, 'destroying a value that was initialized with a layout does not throw (C07, C21)'),
    (r'bindings_ruby_ext_registry\.cc ', r'_ZN7Typelib8Registry3addEPN', ('_ZTIN5boost10wrapexceptINS_16bad_lexical_castEEE',), 'adding a type that is no array, pointer or container makes no alias for one'),
    (r'.* bindings_ruby_ext_registry.cc:_ZL\d+registry_add_standard', r'_ZN7Typelib3CXX16addStandardTypes', ('_ZTIN7Typelib7BadNameE', '_ZTIN7Typelib19InvalidIndirectNameE', '_ZTIN7Typelib9UndefinedE', '_ZTIN5boost10wrapexceptINS_16bad_lexical_castEEE'), 'the names of the standard types are valid'),
    (r'.* bindings_ruby_ext_specialized_types.cc:_ZL\d+container_(each|do_get)', r'', ('_ZTIN7Typelib13NullTypeFoundE',), 'no value of a container of null exists'),
]
# INDIRECT: which functions a call through a pointer can reach
INDIRECT = [
    (r'_ZN7Typelib9Container15createContainer|_ZNK7Typelib9Container8do_merge|.*ZN6Vector|.*ZN6String', r'_ZN(6Vector|6String)7factory', 'the container factories are Vector::factory and String::factory'),
    (r'lang_tlb_import\.cc:_ZN12_GLOBAL__N_17Factory5build', r'lang_tlb_import\.cc:.*load_', 'the table of XML nodes holds the loaders of the file'),
    (r'lang_tlb_import\.cc:.*getStringAttribute', r'$^', 'xmlFree does not throw'),
    (r'_ZN7Typelib13PluginManager10loadPlugin', r'lang_.*registerPlugins|registerPlugins', 'a plugin registers itself like the ones of the repository'),
]


class Analysis:
    def __init__(self, prog):
        self.p = prog
        prog.prepare()
        self.inst, self.todo, self.trusted, self.restricted = {}, [], {}, {}
        for r in prog.roots:
            self.instance(r, None)
        self.sites = {}
        while self.todo:
            i = self.todo.pop()
            n, ctx = i
            out = []
            f = prog.funcs[n]
            for s in f.sites:
                pad = f.pads.get(s[2]) if s[2] is not None else None
                if s[0] in ('throw', 'rethrow'):
                    out.append((s[0], s[1], (), pad, ()))
                    continue
                c = prog.visitor(s) or ctx
                ts, ext, cut = [], set(), set()
                for t in prog.targets(s, c, n):
                    for who, what, less, why in RESTRICT:
                        if re.match(who, f.mod + ' ' + n) and re.match(what, t):
                            cut |= {'*'} if less is None else set(less)
                            self.restricted.setdefault(why, set()).add((n, t, less))
                    a = self.assumption(t)
                    if a is not None:
                        ext |= a
                    elif t in prog.funcs:
                        ts.append(self.instance(t, c if t in prog.needs else None))
                    else:
                        ext |= prog.external(t)
                k = ('nothrow' if s[0].endswith('nothrow') else 'call', tuple(sorted(ext)), tuple(sorted(set(ts), key=str)), pad, tuple(sorted(cut)))
                if (ts or ext) and '*' not in cut and k not in out:
                    out.append(k)
            self.sites[i] = out
        self.infer()
        for why in list(self.restricted):
            keep = set()
            for n, t, less in self.restricted[why]:
                ex = set().union(*[self.C[i] for i in self.inst if i[0] == t] or [()]) if t in prog.funcs else (self.assumption(t) or prog.external(t))
                if (ex & set(less)) if less else ex:
                    keep.add((n, t))
            self.restricted[why] = keep

    def instance(self, n, ctx):
        i = (n, ctx)
        if i not in self.inst:
            self.inst[i] = len(self.inst)
            self.todo.append(i)
        return i

    def assumption(self, t):
        for pat, ex, why in ASSUMED:
            if re.match(pat, t):
                if why:
                    self.trusted.setdefault(why, set()).add(t)
                return ex
        return None

    def through(self, exs, pad, caught):
        """what leaves the function of the exceptions that reach a landing pad"""
        if not pad:
            return set(exs)
        out = set()
        for e in exs:
            if e != END and any(self.p.derived(e, c) for c in pad[0]):
                if pad[1]:
                    out.add(END)
                else:
                    caught.add(e)
            else:
                out.add(e)
        return out

    def infer(self):
        self.C = {i: set() for i in self.inst}
        self.caught = {i: set() for i in self.inst}
        users = collections.defaultdict(set)
        for i, ss in self.sites.items():
            for s in ss:
                for t in s[2]:
                    users[t].add(i)
        todo = set(self.inst)
        while todo:
            i = todo.pop()
            before = len(self.C[i]), -1
            while before != (len(self.C[i]), len(self.caught[i])):
                before = len(self.C[i]), len(self.caught[i])
                for k, ext, ts, pad, cut in self.sites[i]:
                    if k == 'throw':
                        ex = {ext}
                    elif k == 'rethrow':
                        ex = set(self.caught[i])
                    else:
                        ex = set(ext)
                        for t in ts:
                            ex |= self.C[t]
                        if k == 'nothrow':
                            ex &= {END}
                    ex -= set(cut)
                    self.C[i] |= self.through(ex, pad, self.caught[i])
                if before[0] != len(self.C[i]):
                    todo |= users[i]

    def why(self, i, e, depth=0, seen=()):
        out = ['  ' * depth + i[0] + (' for ' + i[1] if i[1] else '')]
        if depth > 40:
            return out
        for k, ext, ts, pad, cut in self.sites[i]:
            ex = {ext} if k == 'throw' else set(ext or ())
            for t in [None] + list(ts):
                es = ex if t is None else self.C[t]
                if e not in cut and e in self.through(es, pad, set()) and t not in seen:
                    if t is None or e not in self.C[t]:
                        return out + ['  ' * depth + ('  throws' if k == 'throw' else '  ends the process') + ' ' + str(t or '')]
                    return out + self.why(t, e, depth + 1, seen + (i,))
        return out

    # ------------------------------------------------------------------------------------------------ the text Verus gets
    def text(self):
        """One function per function (and visitor) that Ruby can reach: any number of its calls and throw expressions in any order,
        what its landing pads let through; ensures: the exceptions of its contract and no other; functions Ruby calls: none."""
        codes = {END: 1}
        for i in self.inst:
            for e in sorted(self.C[i] | self.caught[i]):
                codes.setdefault(e, len(codes) + 1)
        for ss in self.sites.values():
            for s in ss:
                for e in ([s[1]] if s[0] == 'throw' else s[1] or ()):
                    codes.setdefault(e, len(codes) + 1)
        self.codes = codes
        out = ['#![allow(unused)]', 'use vstd::prelude::*;', 'verus! {', '#[verifier::external_body] fn any() -> bool { unimplemented!() }']
        kinds, exts = {}, {}

        def oneof(es, r='r'):
            return ' || '.join(['%s == 0' % r] + ['%s == %d' % (r, codes[e]) for e in sorted(es, key=lambda e: codes[e])])

        def kind(clauses):
            k = tuple(sorted({str(c) for c in clauses}))
            if k not in kinds:
                kinds[k] = len(kinds)
                sat = [str(n) for e, n in codes.items() if e != END and any(self.p.derived(e, c) for c in clauses)]
                # a handler for the exceptions of these classes takes those, and only those, by the class hierarchy in the current source
                body = ' || '.join('e == ' + x for x in sat) or 'false'
                out.append('spec fn handled%d(e: u16) -> bool { %s }\nfn handles%d(e: u16) -> (b: bool) ensures b == handled%d(e) { %s }' % (kinds[k], body, kinds[k], kinds[k], body))
            return kinds[k]

        def ext(es):
            k = tuple(sorted(es))
            if k not in exts:
                exts[k] = len(exts)
                out.append('// assumed: ' + ', '.join(k) + '\n#[verifier::external_body] fn outside%d() -> (r: u16) ensures %s { unimplemented!() }' % (exts[k], oneof(k)))
            return exts[k]

        def pad(p):
            if not p:
                return 'return e;'
            k = kind(p[0])
            return 'if handles%d(e) { %s } else { return e; }' % (k, 'return 1;' if p[1] else 'caught = e;')
        self.lines = {}
        roots = set(self.p.roots)
        for i, k in sorted(self.inst.items(), key=lambda x: x[1]):
            n, ctx = i
            body = []
            for kind_, ex, ts, p, cut in self.sites[i]:
                if kind_ == 'throw':
                    body.append('if any() { let e: u16 = %d; %s }' % (codes[ex], pad(p)))
                    continue
                if kind_ == 'rethrow':
                    body.append('if any() { let e: u16 = caught; if e != 0 { %s } }' % pad(p))
                    continue
                calls = ['outside%d()' % ext(ex)] if ex else []
                calls += ['f%d()' % self.inst[t] for t in ts]
                c = ''.join('if any() { %s } else ' % x for x in calls[:-1]) + ('{ %s }' % calls[-1])
                b = 'let e: u16 = %s;' % c
                for x in cut:
                    b += ' assume(e != %d);' % codes[x] if x in codes else ''
                if kind_ == 'nothrow':
                    b += ' if e == 1 { return e; }'
                else:
                    b += ' if e != 0 { %s }' % pad(p)
                body.append('if any() { %s }' % b)
            post = oneof(set() if n in roots and ctx is None else self.C[i])
            t = '// %s%s\n#[verifier::exec_allows_no_decreases_clause]\nfn f%d() -> (r: u16)\n    ensures %s,\n{\n' % (n, ' for ' + ctx if ctx else '', k, post)
            if not body:
                t += '    0\n}'
            else:
                t += '    let mut caught: u16 = 0;\n    loop\n        invariant %s,\n    {\n        if any() { return 0; }\n        %s\n    }\n}' % (oneof(self.caught[i], 'caught'), '\n        '.join(body))
            out.append(t)
        out.append('// must NOT be provable\nproof fn vacuity_guard() ensures false { }\nfn main() {}\n}')
        return '\n'.join(out)


VERUS = '/opt/veriftools/verus/verus'
DIRS = ('typelib', 'utilmm', 'lang/csupport', 'lang/tlb', 'bindings/ruby/ext')


def run(repo, work, timeout=280, threads=4, rlimit=60, name='throws'):
    t0 = time.time()
    res = {'unit': name, 'verified': 0, 'errors': 0, 'failures': {}, 'not_extracted': {}, 'assumed': {}, 'extracted': [], 'broken': False, 'timed_out': False, 'stderr': '', 'path': '',
           'wall': 0, 'json': {}, 'notes': [], 'inlined': [], 'lines': 0}

    def end(**k):
        res.update(k)
        res['wall'] = time.time() - t0
        return res
    cfg = subprocess.run(['ruby', '-e', "c = RbConfig::CONFIG; puts c['rubyhdrdir'], c['rubyarchhdrdir']"], stdout=subprocess.PIPE).stdout.decode().split()
    src = sorted({f for d in DIRS for f in glob.glob('%s/%s/**/*.cc' % (repo, d), recursive=True)})
    inc = ['-I' + repo, '-I' + repo + '/typelib', '-I' + repo + '/bindings/ruby/ext'] + ['-I' + c for c in cfg]
    inc += subprocess.run(['pkg-config', '--cflags', 'libxml-2.0'], stdout=subprocess.PIPE).stdout.decode().split()
    mods, err = compile_all(repo, work + '/ir', src, inc)
    if err:
        return end(broken=True, stderr=err)
    a = Analysis(Program([(os.path.relpath(o, work + '/ir')[:-3], o) for f, o in mods]))
    if len(a.p.roots) < 20:
        return end(broken=True, stderr='the functions handed to Ruby were not found')
    text = a.text()
    path = work + '/throws.rs'
    open(path, 'w').write(text)
    try:
        p = subprocess.run([VERUS, path, '--output-json', '--time', '--rlimit', str(rlimit), '--num-threads', str(threads)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired:
        return end(timed_out=True)
    so, se = p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    try:
        js = json.loads(so[so.index('{'):])
    except ValueError:
        js = {}
    vr = js.get('verification-results', {})
    if not vr or vr.get('encountered-vir-error') or not (vr.get('verified') or vr.get('errors')):
        return end(broken=True, stderr=se, json=js)
    lines = text.split('\n')
    byid = {k: i for i, k in a.inst.items()}
    for b in re.split(r'\n(?=error)', '\n' + se):
        m = re.match(r'\n?error(?:\[\w+\])?: (.*)', b)
        if not m or 'aborting due to' in m.group(1):
            continue
        l = re.search(r'--> [^\n:]+:(\d+):', b)
        fn = 'unit'
        for k in range(int(l.group(1)) - 1 if l else 0, -1, -1):
            mm = re.match(r'(?:proof )?fn (\w+)', lines[k] if k < len(lines) else '')
            if mm:
                fn = mm.group(1)
                break
        if fn == 'vacuity_guard':
            res['failures']['lemma vacuity_guard'] = [b]
            continue
        i = byid.get(int(fn[1:])) if re.match(r'f\d+$', fn) else None
        if i:
            d = demangle([i[0].split(':')[-1]])[0]
            msg = [b]
            for e in sorted(a.C[i])[:4]:
                w = a.why(i, e)
                msg.append('%s can leave %s:\n%s' % (demangle([e.replace('_ZTI', '_ZTS')])[0].replace('typeinfo name for ', ''), d, '\n'.join(demangle(w))))
            res['failures'][d] = msg
        else:
            res['failures'][fn] = [b]
    names = demangle(sorted({n.split(':')[-1] for n, c in a.inst if a.p.funcs[n].mod and re.match(r'_Z', n.split(':')[-1]) and not re.match(r'_ZN?K?(St|S[absiod]|5boost|9__gnu_cxx|[a-z]*__)', n.split(':')[-1])}))
    res['extracted'] = sorted(x for x in {re.sub(r'\(.*', '', x) for x in names} if x and not re.match(r'RB_|RARRAY|RSTRING|RTYPED|ROBJECT|rb_|rbimpl|Check_Type', x))
    res['inlined'] = []
    res['assumed'] = {w: sorted({x[:120] for x in demangle(sorted(s))})[:10] for w, s in a.trusted.items()}
    res['assumed'].update({w: sorted({'%s in %s' % (x[:80], y[:80]) for x, y in zip(demangle([t for n, t in sorted(s)]), demangle([n.split(':')[-1] for n, t in sorted(s)]))})[:10] for w, s in a.restricted.items()})
    res['assumed'].update({w: [] for w in sorted(a.p.used)})
    unresolved = sum(1 for i in a.inst for s in a.p.funcs[i[0]].sites if s[0].startswith(('virtual', 'indirect')) and not a.p.targets(s, a.p.visitor(s) or i[1], i[0]))
    res['notes'] = ['%d functions and visitors reachable from %d functions handed to Ruby; %d virtual or indirect calls have no target in the repository' % (len(a.inst), len(a.p.roots), unresolved)]
    return end(verified=vr.get('verified', 0), errors=vr.get('errors', 0), stderr=se[-4000:], json=js, path=path, lines=len(lines))


def demangle(xs):
    if not xs:
        return []
    return subprocess.run(['c++filt'], input='\n'.join(xs).encode(), stdout=subprocess.PIPE).stdout.decode().rstrip('\n').split('\n')


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    r = run(sys.argv[1] if len(sys.argv) > 1 else '/repo', sys.argv[2] if len(sys.argv) > 2 else '/tmp/throws_work')
    for k, v in r['failures'].items():
        print('==', k)
        print('\n'.join(x[:3000] for x in v))
    print({k: (len(r[k]) if hasattr(r[k], '__len__') and not isinstance(r[k], str) else r[k]) for k in ('verified', 'errors', 'broken', 'timed_out', 'extracted', 'wall')}, r['notes'], r['stderr'][:1000] if r['broken'] else '')
    print(json.dumps(r['assumed'], indent=1)[:3000])
