# Random operations the library may refuse, on the real Ruby bindings: each returns or raises, never ends the interpreter.
# c30.rb SEED SECS MAXCASES REPLAY [CASE: the cases of the seed up to this one, whatever the time]
require 'typelib'
require 'json'
LAST = ARGV[4] && ARGV[4].to_i
$stdout.sync = true
SEED, SECS, MAXC, REPLAY = ARGV[0].to_i, ARGV[1].to_f, ARGV[2].to_i, ARGV[3]
Typelib.warn_about_helper_method_clashes = false
class Bad < StandardError; end

# what the bindings cannot describe the memory of
def holds(t, kind, seen = {})
    return true if t <= kind
    return false if t <= Typelib::PointerType
    if t <= Typelib::CompoundType then t.get_fields.any? { |_, _, ft, _| holds(ft, kind) }
    elsif t <= Typelib::ArrayType || t <= Typelib::ContainerType then holds(t.deference, kind)
    else false
    end
end
def opaque?(t) holds(t, Typelib::OpaqueType) end
def null?(t) holds(t, Typelib::NullType) end
def pointer?(t)
    return true if t <= Typelib::PointerType
    if t <= Typelib::CompoundType then t.get_fields.any? { |_, _, ft, _| pointer?(ft) }
    elsif t <= Typelib::ArrayType || t <= Typelib::ContainerType then pointer?(t.deference)
    else false
    end
end
def container?(t) holds(t, Typelib::ContainerType) end

class Case
    def initialize(rng, out) @rng, @out, @stats, @ops = rng, out, Hash.new(0), [] end
    attr_reader :stats
    def r(n) @rng.rand(n) end
    def note(*a) @out.puts "op #{a.map(&:to_s).join(' ')}" end

    def build
        @reg = Typelib::Registry.new(false)
        Typelib::Registry.add_standard_cxx_types(@reg)
        @reg.create_opaque('/O', 1 + r(16))
        @reg.create_null('/N')
        @reg.create_enum('/E') { |e| e.add 'A', 0; e.add 'B', 5 }
        names = %w{/int8_t /int32_t /double /uint64_t /E /int32_t* /O* /N* /char[5] /char[1] /char[0] /double[2] /std/vector</int32_t> /std/string}
        @reg.create_container('/std/vector', '/int32_t')
        @types = names.map { |n| @reg.build(n) }
        n = 3 + r(5)
        n.times do |i|
            case r(4)
            when 0, 1
                fields = (0..r(3)).map { pick_type }.reject { |t| t.name == '/N' || t.size == 0 }
                next if fields.empty?
                @types << @reg.create_compound("/C#{i}") { |c| fields.each_with_index { |t, k| c.add "f#{k}", t } }
            when 2
                t = pick_type
                @types << @reg.create_container('/std/vector', t) if t.size > 0
            when 3
                @types << @reg.build("#{pick_type.name}[#{1 + r(3)}]")
            end
            @types << @reg.get('/O') if i == 1
        end
    end
    def pick_type; @types[r(@types.size)] end

    # expect: true (must raise), false (must return), nil (may do either)
    def attempt(what, expect)
        note what
        x = yield
        @stats['returned'] += 1
        raise Bad, "#{what} returned, and should be refused" if expect
        x
    rescue Bad
        raise
    rescue StandardError, NotImplementedError => e
        @stats['refused'] += 1
        raise Bad, "#{what} raised #{e.class}: #{e.message}" if expect == false
        # what the interpreter says about a missing method or variable is not a refusal
        raise Bad, "#{what} raised #{e.class}: #{e.message}" if e.class == NameError || e.class == NoMethodError
        nil
    end

    def value(t)
        bad = opaque?(t) || null?(t)
        v = attempt("new #{t.name}", bad) { t.new }
        return unless v
        unless pointer?(t) || container?(t) || t <= Typelib::EnumType
            attempt("zero! #{t.name}", false) { v.zero! }
        end
        v
    end
    # a value whose pointers are null
    def nulled(t)
        return if container?(t) || t.size == 0
        attempt("from_buffer #{t.name}", opaque?(t) || null?(t) ? nil : false) { t.from_buffer("\0" * t.size, accept_pointers: true) }
    end

    def on_value
        t = pick_type
        v = r(3) == 0 ? nulled(t) : value(t)
        return unless v
        ptr, cont, nolay = pointer?(t), container?(t), opaque?(t) || null?(t)
        before = cont || ptr ? nil : v.to_byte_array
        (1 + r(3)).times do
            k = r(10)
            n = "#{t.name}"
            case k
            when 0
                attempt("to_byte_array #{n}", ptr || nolay) { v.to_byte_array }
            when 1
                attempt("to_byte_array accepting pointers #{n}", nolay) { v.to_byte_array(accept_pointers: true) }
            when 2
                b = "\0" * r(t.size + 2)
                attempt("from_buffer of #{b.size} bytes #{n}", nolay || ptr || b.size < t.size && !cont ? true : nil) { t.from_buffer(b) }
            when 3
                attempt("dup #{n}", ptr || nolay) { v.dup }
            when 4
                o = t.new
                attempt("copy #{n}", ptr || nolay) { Typelib.copy(o, v) }
            when 5
                o = t.new
                attempt("copy over a value of another type #{n}", nil) { Typelib.copy(o, pick_type.new) }
            when 6
                w = attempt("endian_swap #{n}", nil) { v.endian_swap }
            when 7
                attempt("marshalling_size #{n}", nolay) { v.marshalling_size }
            when 8
                attempt("memory_layout #{n}", ptr || nolay) { t.memory_layout }
            when 9
                attempt("compare #{n}", nolay ? true : nil) { v == t.new }
            end
        end
        if before
            attempt("bytes at the end #{t.name}", false) { v.to_byte_array }
            raise Bad, "a refused operation changed a #{t.name}" unless v.to_byte_array == before
        end
    end
    def on_string
        n = [0, 1, 1 + r(8)][r(3)]
        t = @reg.build("/char[#{n}]")
        c = @reg.create_compound("/S#{@ops.size}_#{r(1 << 40)}") { |x| x.add 'a', '/int32_t'; x.add 's', t if n > 0; x.add 'b', '/int32_t' }
        s = 'x' * r(n + 3)
        v = c.new
        v.zero!
        v.a, v.b = 0x11111111, 0x22222222
        if n > 0
            attempt("char[#{n}] = #{s.size} characters", s.size > n - 1) { v.s = s; v.to_byte_array }
            raise Bad, "setting a string changed its neighbours" unless v.a == 0x11111111 && v.b == 0x22222222
            raise Bad, "char[#{n}] reads #{v.s.inspect}, expected #{s.inspect}" if s.size < n && Typelib.to_ruby(v.s) != s
        else
            attempt("char[0] from #{s.size} characters", nil) { Typelib.from_ruby(s, t) }
            attempt("char[0] new", nil) { t.new }
            p = attempt('a null pointer to characters', false) { @reg.build('/char*').from_buffer("\0" * 8, accept_pointers: true) }
            attempt('characters through a null pointer', true) { Typelib::Type.to_string(p, true) }
            attempt('text into a pointer to characters', true) { Typelib.from_ruby(s, @reg.get('/char*')) }
        end
    end
    def on_vector
        ts = @types.select { |t| t <= Typelib::ContainerType }
        t = ts[r(ts.size)]
        return if t.name == '/std/string'
        v = value(t)
        return unless v
        et = t.deference
        nolay = pointer?(et)
        size = 0
        (1 + r(6)).times do
            case r(9)
            when 0, 1, 2
                e = attempt("element #{et.name}", nil) { et.new }
                next unless e
                ok = attempt("push #{t.name}", nolay ? nil : false) { v.push(e); true }
                size += 1 if ok
            when 3
                i = r(size + 2)
                attempt("get #{i} of #{size} #{t.name}", i >= size) { v[i] }
            when 4
                i = r(size + 2)
                e = attempt("element #{et.name}", nil) { et.new }
                next unless e
                attempt("set #{i} of #{size} #{t.name}", i >= size ? true : nil) { v[i] = e }
            when 5
                size = 0 if attempt("clear #{t.name}", nolay ? nil : false) { v.clear; true }
            when 6
                attempt("delete_if #{t.name}", nil) { v.delete_if { raise ArgumentError, 'stop' } }
                attempt("each #{t.name}", nil) { v.each { raise ArgumentError, 'stop' } }
            when 7
                next unless et <= Typelib::NumericType || et <= Typelib::CompoundType
                attempt("push a string #{t.name}", true) { v.push("zork") }
            when 8
                attempt("to_byte_array #{t.name}", pointer?(t)) { v.to_byte_array }
                attempt("dup #{t.name}", pointer?(t)) { v.dup }
            end
            got = attempt("length #{t.name}", false) { v.length }
            raise Bad, "#{t.name} has #{got} elements, expected #{size}" unless got == size
        end
    end
    def on_csv
        t = pick_type
        return if t.name == '/std/string'
        attempt("header #{t.name}", null?(t) || pointer?(t) ? nil : false) { t.to_csv }
        attempt("header of a null type", true) { @reg.get('/N').to_csv }
        return if pointer?(t)
        v = value(t)
        attempt("line #{t.name}", nil) { v.to_csv } if v
    end
    BADN = ['bad name', '/x<', '', '/', 'x', '/a//b', '/x[', '/x[]', '/x[-1]', '/int32_t[99999999999]', '/nope', '/int32_t**[', "/n\nl", '/<>', '/int32_t', '/O', '/E', '/N', '/std/vector<', '/std/vector</int32_t>', '/std/vector</nope>']
    def on_registry
        n = BADN[r(BADN.size)]
        t = pick_type
        before = @reg.to_xml
        case r(14)
        when 0 then attempt("alias #{n.inspect}", nil) { @reg.alias(n, t.name) }
        when 1 then attempt("alias to #{n.inspect}", @reg.include?(n) ? nil : true) { @reg.alias("/fine#{r(1 << 30)}", n) }
        when 2 then attempt("get #{n.inspect}", !@reg.include?(n)) { @reg.get(n) }
        when 3 then attempt("build #{n.inspect}", nil) { @reg.build(n) }
        when 4 then attempt("numeric #{n.inspect}", nil) { @reg.create_numeric(n, 4, :sint) }
        when 5 then attempt("opaque #{n.inspect}", nil) { @reg.create_opaque(n, 4) }
        when 6 then attempt("null #{n.inspect}", nil) { @reg.create_null(n) }
        when 7 then attempt("compound #{n.inspect}", nil) { @reg.create_compound(n) { |c| c.add 'a', '/int32_t' } }
        when 8 then attempt("compound with a field of type #{n.inspect}", nil) { @reg.create_compound("/fine#{r(1 << 30)}") { |c| c.add 'a', n } }
        when 9 then attempt("enum with two equal symbols", true) { @reg.create_enum("/fine#{r(1 << 30)}") { |e| e.add 'A', 1; e.add 'B', 2; e.add 'A', 2 + r(3) } }
        when 10 then attempt("enum #{n.inspect}", nil) { @reg.create_enum(n) { |e| e.add 'A', 1 } }
        when 11 then attempt("container of #{n.inspect}", nil) { @reg.create_container('/std/vector', n) }
        when 12 then attempt("unknown container", true) { @reg.create_container('/nope', '/int32_t') }
        when 13
            attempt("minimal #{n.inspect}", @reg.include?(n) ? nil : true) { @reg.minimal(n) }
            attempt("resize #{n.inspect}", true) { @reg.resize(n => 3) } unless @reg.include?(n)
        end
        attempt('the registry as XML', false) { @reg.to_xml }
    end
    def on_enum
        e = @reg.get('/E')
        attempt('symbol B', false) { e.value_of('B') }
        attempt('unknown symbol', true) { e.value_of('zork') }
        attempt('unknown value', true) { e.name_of(3 + r(2)) }
        attempt('huge value', true) { e.name_of(2**(32 + r(40))) }
        attempt('from an unknown symbol', true) { Typelib.from_ruby(:zork, e) }
        attempt('from an unknown value', true) { Typelib.from_ruby(17, e) }
    end
    # two definitions of the same names, and types that differ a little: comparing, casting, copying, merging
    def on_pairs
        g = (0..1).map do
            x = Typelib::Registry.new(false)
            Typelib::Registry.add_standard_cxx_types(x)
            syms = %w{A B C D}.sort_by { r(1000) }[0, 1 + r(3)]
            x.create_enum('/E') { |e| syms.each_with_index { |y, i| e.add y, r(2) == 0 ? i : i + r(2) * 10 } }
            fs = %w{a b c}.sort_by { r(1000) }[0, 1 + r(3)]
            x.create_compound('/C') { |c| fs.each { |f| c.add f, ['/int32_t', '/E', '/E', '/uint32_t', '/float'][r(5)] } }
            x.create_opaque('/O', 4 + r(2))
            x.create_numeric('/W', 4 << r(2), [:sint, :uint, :float][r(3)])
            r(2) == 0 ? x.create_null('/M') : x.create_opaque('/M', 4)
            n = ['/int32_t', '/E', '/C', '/W'][r(4)]
            x.create_container('/std/vector', n)
            x.build("/E[#{1 + r(2)}]")
            x.build("/C[#{1 + r(2)}]")
            x.build('/C*')
            x.alias(['/Al', '/Al2'][r(2)], ['/E', '/C', '/int32_t'][r(3)])
            x
        end
        ts = g.map { |x| x.each.to_a }
        6.times do
            a, b = r(2), r(2)
            t, u = ts[a][r(ts[a].size)], ts[b][r(ts[b].size)]
            u = g[b].get(t.name) if r(2) == 0 && g[b].include?(t.name)
            attempt("#{t.name} == #{u.name}", false) { t == u }
            c = attempt("#{t.name} casts to #{u.name}", false) { t.casts_to?(u) }
            attempt("dependencies of #{t.name}", false) { t.recursive_dependencies }
            attempt("memory layout of #{t.name}", nil) { t.memory_layout(accept_pointers: r(2) == 0, accept_opaques: r(2) == 0) }
            bad = [t, u].any? { |x| opaque?(x) || null?(x) || pointer?(x) }
            next if bad
            v, w = t.new, u.new
            attempt("copy #{u.name} from #{t.name}", !c) { Typelib.copy(w, v) } if t.size == u.size || !c
            attempt("compare #{u.name} with #{t.name}", nil) { Typelib.compare(w, v) } if t.size == u.size || !c
            attempt("cast #{t.name} to #{u.name}", !c) { v.cast(u) }
            attempt("convert #{t.name}", nil) { Typelib.from_ruby(v, u) } if t.size == u.size || !c
        end
        x, y = g
        same = nil
        attempt('names of aliases', false) { x.each.to_a.each { |t| x.aliases_of(t) } }
        attempt('reverse dependencies', false) { x.reverse_depends(x.get('/E')) }
        attempt('reverse dependencies of a type of another registry', true) { x.reverse_depends(y.get('/E')) }
        attempt('removing a type of another registry', true) { x.remove(y.get(['/E', '/C', '/int32_t'][r(3)])) }
        attempt('a field of a type of another registry', true) { x.create_compound('/F') { |b| b.add 'a', '/int32_t'; b.add 'f', y.get(['/E', '/C', '/int32_t'][r(3)]) } }
        attempt('a container of a type of another registry', true) { x.create_container('/std/vector', y.get('/C')) }
        attempt('source', false) { x.source_id_of(x.get('/E')) }
        n = ['/E', '/C', '/int32_t', '/nope', '', 'E', '/std/vector'][r(7)]
        attempt("removing the alias #{n.inspect}", true) { x.remove_alias(n) }
        k = x.include?('/Al') ? '/Al' : '/Al2'
        attempt('removing an alias', false) { x.remove_alias(k) } if r(2) == 0
        attempt('each', true) { x.each(['', '/', '/std', '/nope'][r(2)]) { raise ArgumentError, 'stop' } }
        attempt('each with aliases', false) { x.each(with_aliases: true) { |a, b| a } }
        if r(3) == 0
            z = x.minimal('/C')
            attempt('removing while enumerating', false) { z.each(['', '/'][r(2)], with_aliases: r(2) == 0) { |a, b| t = b || a; z.remove(t) if z.include?(t.name) && z.get(t.name) == t && r(2) == 0 } }
            attempt('clearing aliases while enumerating', false) { z.each(with_aliases: true) { |a, b| z.clear_aliases } }
            attempt('adding while enumerating', false) { z.each { |a| z.create_opaque("/op#{r(1 << 50)}", 3) if r(3) == 0 } }
        end
        attempt('merge', nil) { x.merge(y) }
        attempt('the merged registry as XML', false) { x.to_xml }
        attempt('remove', false) { x.remove(x.get(['/E', '/C', '/W'][r(3)])) }
        attempt('clear aliases', false) { x.clear_aliases }
        attempt('the registry as XML after all', false) { x.to_xml }
        m = y.get('/C').metadata
        attempt('metadata', false) { m.add('k', 'v', 'w'); m.get('k'); m.get('nope'); m.include?('k'); m.delete('nope'); m.clear; m.keys }
        n = BADN[r(BADN.size)]
        attempt("parts of #{n.inspect}", nil) { Typelib.split_typename(n) }
        attempt("parts of #{n.inspect}", nil) { Typelib.basename(n) }
        attempt("parts of #{n.inspect}", nil) { Typelib.namespace(n) }
    end
    def on_numbers
        n, bits, signed = [['/int8_t', 8, true], ['/uint64_t', 64, false], ['/int32_t', 32, true], ['/int64_t', 64, true]][r(4)]
        t = @reg.get(n)
        attempt("#{n} from text", true) { Typelib.from_ruby('abc', t) }
        attempt("#{n} from a huge number", true) { Typelib.from_ruby(2**(66 + r(60)), t) }
        attempt("#{n} from nil", true) { Typelib.from_ruby(nil, t) }
        attempt("#{n} from 3", false) { Typelib.from_ruby(3, t) }
        attempt("#{n} from infinity", true) { Typelib.from_ruby(Float::INFINITY, t) }
        a = @reg.build("#{n}[3]").new
        attempt('get past the end', true) { a[3 + r(5)] }
        attempt('set past the end', true) { a[3 + r(5)] = 1 }
        c = @types.find { |x| x <= Typelib::CompoundType && !opaque?(x) }
        if c
            v = c.new
            attempt('unknown field', true) { v['zork'] }
            attempt('set an unknown field', true) { v['zork'] = 1 }
            attempt('unknown raw field', true) { v.raw_get('zork') }
        end
        p = attempt('dereference a null pointer to a null type', nil) { @reg.get('/N*').from_buffer("\0" * 8, accept_pointers: true).deference }
    end
    # numbers no machine type stands for, and memory of a type that has no values
    def on_strange
        size, kind = [3, 5, 6, 7, 16, 32][r(6)], [:sint, :uint, :float][r(3)]
        n = "/w#{@ops.size}_#{r(1 << 40)}"
        t = attempt("a number of #{size} bytes", false) { @reg.create_numeric(n, size, kind) }
        v = attempt("new #{size}", false) { t.new }
        attempt('zero!', false) { v.zero! }
        attempt('to_byte_array', false) { v.to_byte_array }
        attempt('to_ruby', true) { v.to_ruby }
        attempt('from a number', true) { Typelib.from_ruby(3, t) }
        attempt('to_csv', nil) { v.to_csv }
        attempt('endian_swap', nil) { r(2) == 0 ? v.endian_swap : v.endian_swap! }
        attempt('dup', false) { v.dup }
        a = attempt('array', false) { @reg.build("#{n}[#{1 + r(3)}]").new }
        attempt('array get', nil) { a[0] }
        attempt('array set', nil) { a[0] = 3 }
        attempt('array set to a value', nil) { a.do_set(0, v) }
        attempt('array each', nil) { a.each { |x| x } }
        attempt('array to_simple_value', nil) { a.to_simple_value }
        c = attempt('compound', false) { @reg.create_compound("#{n}c") { |b| b.add 'a', '/int32_t'; b.add 'w', n }.new }
        attempt('field get', nil) { c.w }
        attempt('field set', nil) { c.w = 3 }
        attempt('field raw set', nil) { c.raw_set('w', v) }
        w = attempt('vector', false) { @reg.create_container('/std/vector', n).new }
        attempt('push a number', nil) { w.push 3 }
        attempt('push', nil) { w.push v }
        attempt('vector each', nil) { w.each { |x| x } }
        attempt('vector get', nil) { w[0] }
        # an array of structures that cannot be copied
        p = @reg.create_compound("#{n}p") { |b| b.add 'a', '/int32_t*'; b.add 'b', '/int32_t' }
        q = @reg.build("#{n}p[2]").new
        attempt('set to what cannot be copied', true) { q.do_set(r(2), p.new) }
        attempt('set to what cannot be copied', nil) { q[r(2)] = p.new }
        # null elements
        zone = @reg.build('/int64_t[4]').new
        z = attempt('array of null', false) { @reg.build('/N[3]').from_address(zone.zone_address) }
        attempt('null get', nil) { z[r(3)] }
        attempt('null set', true) { z.do_set(r(3), 1) }
        attempt('null each', nil) { z.each { |x| x } }
        attempt('null bytes', true) { z.to_byte_array }
        attempt('null size', nil) { z.marshalling_size }
        attempt('null csv', nil) { z.to_csv }
        attempt('null swap', nil) { r(2) == 0 ? z.endian_swap : z.endian_swap! }
        attempt('null equal', nil) { z == @reg.build('/N[3]').from_address(@reg.build('/int64_t[4]').new.zone_address) }
        attempt('null copy', true) { Typelib.copy(z, @reg.build('/N[3]').from_address(@reg.build('/int64_t[4]').new.zone_address)) }
        zone.size
    end
    def on_files
        attempt('import of nothing', true) { @reg.import('/nonexistent', 'tlb') }
        attempt('import of an unknown kind', true) { @reg.import('/nonexistent', 'zork') }
        attempt('export to an unknown kind', true) { @reg.export('zork') }
        q = Typelib::Registry.new(false)
        q.create_opaque('/E', 99)
        attempt('merge of a conflict', true) { @reg.merge(q) }
        attempt('alias that is not there', true) { @reg.remove_alias('/not_there') }
    end
    def on_xml
        x = attempt('export', false) { @reg.to_xml }
        (1 + r(3)).times do
            break if x.size < 20
            case r(8)
            when 0 then x = x[0, r(x.size)]
            when 1 then x[r(x.size), r(10)] = ''
            when 2
                at = x.enum_for(:scan, /"[^"]*"/).map { $~.offset(0) }
                next if at.empty?
                b, e = at[r(at.size)]
                x[b...e] = ['""', '"-1"', '"99999999999999999999"', '"x"', '"/x y"', '"/O"', '"/nope"', '"4"', '"sint"', '"/std/vector"'][r(10)] if b
            when 3
                at = x.enum_for(:scan, / [a-z_]+="[^"]*"/).map { $~.offset(0) }
                next if at.empty?
                b, e = at[r(at.size)]
                x[b...e] = '' if b
            when 4
                at = x.enum_for(:scan, /<[a-z]+/).map { $~.offset(0) }
                next if at.empty?
                b, e = at[r(at.size)]
                x[b...e] = '<' + %w{compound enum numeric pointer array container opaque null alias zork field value typelib}[r(13)] if b
            when 5
                lines = x.split("\n")
                next if lines.empty?
                lines[r(lines.size)], lines[r(lines.size)] = lines[r(lines.size)].to_s, lines[r(lines.size)].to_s
                x = lines.join("\n")
            when 6 then x[r(x.size)] = (1 + r(126)).chr
            when 7
                lines = x.split("\n")
                next if lines.empty?
                lines.delete_at(r(lines.size))
                x = lines.join("\n")
            end
            x = x.dup
        end
        q = Typelib::Registry.new(false)
        @out.puts "xml #{JSON.generate(x)}"
        attempt('merge of damaged XML', nil) { q.merge_xml(x) }
        attempt('export after that', false) { q.to_xml }
    end

    OPS = [:on_value] * 6 + [:on_string, :on_vector, :on_vector, :on_vector, :on_csv, :on_registry, :on_registry, :on_enum, :on_pairs, :on_pairs, :on_numbers, :on_strange, :on_strange, :on_files] + [:on_xml] * 3
    # values that are dropped are destroyed: that cannot be refused
    def deep(n) a = b = c = d = e = f = nil; n == 0 ? nil : deep(n - 1) end
    def collect
        note 'garbage collection'
        deep(60)
        GC.start
    end
    def run
        build
        (8 + r(20)).times do
            op = OPS[r(OPS.size)]
            @ops << op
            send(op)
            @stats[op.to_s] += 1
            collect if r(4) == 0
        end
        collect
    end
end

def one(seed)
    rd, wr = IO.pipe
    pid = fork do
        rd.close
        wr.sync = true
        STDERR.reopen("/dev/null") unless ENV['C30_STDERR']
        c = Case.new(Random.new(seed), wr)
        begin
            c.run
            wr.puts "done #{JSON.generate(c.stats)}"
        rescue StandardError, NotImplementedError => e
            wr.puts "bad #{JSON.generate([e.class == Bad ? e.message : "#{e.class}: #{e.message}", (e.backtrace || []).first(8)])}"
        end
        wr.close
        exit!(0)
    end
    wr.close
    out = rd.read.force_encoding('BINARY').lines.map(&:chomp)
    rd.close
    Process.wait(pid)
    st = $?
    return [nil, JSON.parse(out.last[5..-1]), out] if out.last && out.last.start_with?('done ')
    if out.last && out.last.start_with?('bad ')
        m, bt = JSON.parse(out.last[4..-1])
        return [m, bt, out]
    end
    op = out.reverse.find { |l| l.start_with?('op ') }
    ["the interpreter ended (#{st.signaled? ? "signal #{st.termsig}" : "status #{st.exitstatus}"}) in: #{op.to_s[3..-1]}", [], out]
end

def main
    t0 = Process.clock_gettime(Process::CLOCK_MONOTONIC)
    stats, cases = Hash.new(0), 0
    seed = SEED * 1_000_000
    while LAST ? seed < LAST : Process.clock_gettime(Process::CLOCK_MONOTONIC) - t0 < SECS && cases < MAXC
        seed += 1
        bad, info, out = one(seed)
        cases += 1
        if bad
            File.write(REPLAY, JSON.generate(property: 'C30', violation: bad.dup.force_encoding('UTF-8').scrub, seed: SEED, case: seed,
                                             history: out.last(40).map { |l| l.force_encoding('UTF-8').scrub }, backtrace: info))
            puts "violation: #{bad}"
            return 1
        end
        info.each { |k, v| stats[k] += v }
    end
    stats['cases'] = cases
    puts "STATS #{JSON.generate(stats)}"
    0
end
exit!(main)
