# Random histories of wrapping, field access, copying and garbage collection on the Ruby bindings, against a model.
# c26.rb SEED SECS MAXCASES REPLAY [CASE: the cases of the seed up to this one, whatever the time]
require 'typelib'
require 'fiddle'
require 'json'
LAST = ARGV[4] && ARGV[4].to_i
$stdout.sync = true
SEED, SECS, MAXC, REPLAY = ARGV[0].to_i, ARGV[1].to_f, ARGV[2].to_i, ARGV[3]
POISONED = begin
    Fiddle::Function.new(Fiddle::Handle::DEFAULT['__asan_address_is_poisoned'], [Fiddle::TYPE_VOIDP], Fiddle::TYPE_INT)
rescue Fiddle::DLError
    nil
end
Typelib.warn_about_helper_method_clashes = false
class Bad < StandardError; end
$log = []
$stats = Hash.new(0)

def registry
    r = Typelib::Registry.new(false)
    Typelib::Registry.add_standard_cxx_types(r)
    r.create_enum('/E') { |e| e.add 'A', 0; e.add 'B', 5; e.add 'C', -3 }
    r.create_compound('/In') { |c| c.a = '/int32_t'; c.b = '/double'; c.k = '/int16_t[3]' }
    r.create_container('/std/vector', '/int32_t')
    r.create_container('/std/vector', '/In')
    r.create_compound('/Mid') { |c| c.x = '/In'; c.v = '/std/vector</In>'; c.arr = '/In[3]'; c.e = '/E'; c.n = '/std/vector</int32_t>' }
    r.create_container('/std/vector', '/Mid')
    r.create_compound('/Top') { |c| c.m = '/Mid'; c.w = '/std/vector</Mid>'; c.u = '/uint64_t'; c.ms = '/Mid[2]' }
    r
end
R = registry
T = %w{/In /Mid /Top /std/vector</In> /std/vector</Mid> /In[3]}.map { |n| R.build(n) }

# model: a tree of hashes (compounds), arrays (arrays and vectors) and numbers
def zero(t)
    if t <= Typelib::CompoundType then t.get_fields.map { |n, _, ft| [n, zero(ft)] }.to_h
    elsif t <= Typelib::ArrayType then Array.new(t.length) { zero(t.deference) }
    elsif t <= Typelib::ContainerType then []
    elsif t <= Typelib::EnumType then :A
    else 0
    end
end
def clone(m)
    case m
    when Hash then m.map { |k, v| [k, clone(v)] }.to_h
    when Array then m.map { |v| clone(v) }
    else m
    end
end
def check(w, m, where)
    t = w.class
    if t <= Typelib::CompoundType
        t.get_fields.each do |n, _, ft|
            if m[n].kind_of?(Hash) || m[n].kind_of?(Array)
                check(w.raw_get(n), m[n], where)
            else
                x = w.get(n)
                raise Bad, "#{where}: field #{n} of #{t.name} is #{x.inspect}, expected #{m[n].inspect}" unless x == m[n]
            end
        end
    else
        raise Bad, "#{where}: #{t.name} has #{w.size} elements, expected #{m.size}" unless w.size == m.size
        m.each_with_index do |e, i|
            if e.kind_of?(Hash) || e.kind_of?(Array)
                check(w.raw_get(i), e, where)
            else
                x = w[i]
                x = Typelib.to_ruby(x)
                raise Bad, "#{where}: element #{i} of #{t.name} is #{x.inspect}, expected #{e.inspect}" unless x == e
            end
        end
    end
end

class Root
    attr_accessor :type, :model, :addr
    def initialize(type, model, addr); @type, @model, @addr = type, model, addr end
end
# what the script holds: a wrapper (or only its zone) of the part of a root a path leads to
class Held
    attr_accessor :w, :root, :path, :kind, :type
    def initialize(w, root, path, kind, type); @w, @root, @path, @kind, @type = w, root, path, kind, type end
    def model; path.inject(root.model) { |m, k| m[k] } end
    def inside_vector?
        m = root.type
        path.any? do |k|
            v = m <= Typelib::ContainerType
            m = (m <= Typelib::CompoundType) ? m[k] : m.deference
            v
        end
    end
end

class Case
    def initialize(rng); @rng, @held, @freed = rng, [], [] end
    attr_reader :held, :freed
    def r(n); @rng.rand(n) end
    def note(*a); $log << a.map(&:to_s).join(' '); end

    def wrapper(h)
        case h.kind
        when :value then h.w
        when :zone then h.type.from_memory_zone(h.w)
        when :pointer then h.w.deference
        end
    end

    def verify(h, where)
        return if h.kind == :value && h.w.invalidated?
        w = wrapper(h)
        check(w, h.model, "#{where} (#{h.kind} of #{h.type.name} at #{h.path.inspect})")
        if r(4) == 0
            same = w.class.wrap(w.to_byte_array)
            check(same, h.model, "#{where}: bytes and back")
            raise Bad, "#{where}: the value from its bytes differs" unless same == w
        end
    end

    def make
        t = T[r(T.size)]
        w = r(2) == 0 ? t.new : t.zero
        w.zero!
        root = Root.new(t, zero(t), w.zone_address)
        @held << Held.new(w, root, [], :value, t)
        note :new, t.name
    end

    def values; @held.select { |h| h.kind == :value && !h.w.invalidated? } end
    def pick; v = values; v[r(v.size)] unless v.empty? end

    def random_number(t)
        return r(2) * 4 - r(100) if t.name =~ /int16|int32|double/
        [2**63 + r(5), 2**64 - 1 - r(3), r(10)][r(3)]
    end

    def step_into
        return unless h = pick
        w, m, path = h.w, h.model, h.path
        (1 + r(3)).times do
            ks = m.kind_of?(Hash) ? m.keys : (0...m.size).to_a
            ks = ks.select { |k| m[k].kind_of?(Hash) || m[k].kind_of?(Array) }
            break if ks.empty?
            k = ks[r(ks.size)]
            w = w.raw_get(k)
            m, path = m[k], path + [k]
        end
        @held << Held.new(w, h.root, path, :value, w.class)
        note :access, path
    end

    def assign
        return unless h = pick
        w, m = h.w, h.model
        if m.kind_of?(Hash)
            ks = m.keys.reject { |k| m[k].kind_of?(Hash) || m[k].kind_of?(Array) }
            return if ks.empty?
            k = ks[r(ks.size)]
            t = w.class[k]
            v = t <= Typelib::EnumType ? [:A, :B, :C][r(3)] : random_number(t)
            w.set(k, v)
            m[k] = v
        else
            return if m.empty? || m[0].kind_of?(Hash) || m[0].kind_of?(Array)
            k = r(m.size)
            v = random_number(w.class.deference)
            w[k] = v
            m[k] = v
        end
        note :set, h.path, k, v
    end

    def vectors; values.select { |h| h.type <= Typelib::ContainerType } end
    def push
        vs = vectors
        return if vs.empty?
        h = vs[r(vs.size)]
        et = h.type.deference
        (1 + r(4)).times do
            if et <= Typelib::NumericType
                v = random_number(et)
                h.w << v
                h.model << v
            else
                src = values.select { |x| x.type == et && !(x.root.equal?(h.root)) }
                if src.empty? || r(2) == 0
                    e = et.new
                    e.zero!
                    m = zero(et)
                else
                    s = src[r(src.size)]
                    e, m = s.w, s.model
                end
                h.w << e
                h.model << clone(m)
            end
        end
        forget_under(h)
        note :push, h.path
    end
    # only cached wrappers are told when elements move: the others are given up
    def forget_under(h)
        n = h.path.size
        @held.reject! { |x| !x.equal?(h) && x.root.equal?(h.root) && x.path.size > n && x.path[0, n] == h.path && (x.kind != :value || x.w.invalidated?) }
    end
    def shrink
        vs = vectors
        return if vs.empty?
        h = vs[r(vs.size)]
        return if h.model.empty?
        case r(2)
        when 0
            h.w.clear
            h.model.clear
            n = h.path.size
            @held.reject! { |x| !x.equal?(h) && x.root.equal?(h.root) && x.path.size > n && x.path[0, n] == h.path }
        when 1
            kept, i = [], 0
            n = h.path.size
            flags = h.model.map { r(2) == 0 }
            h.w.delete_if { |el| (flags[(i += 1) - 1]).tap { kept << el if r(3) == 0 && el.kind_of?(Typelib::Type) } }
            raise Bad, "delete_if asked for #{i} of #{flags.size} elements" unless i == flags.size
            h.root.then { j = -1; h.model.delete_if { flags[j += 1] } }
            # uncached wrappers of elements that may be gone: kept as garbage only
            @junk = kept
            @held.reject! { |x| !x.equal?(h) && x.root.equal?(h.root) && x.path.size > n && x.path[0, n] == h.path }
        end
        note :shrink, h.path
    end
    def dup
        return unless h = pick
        w = h.w.dup
        root = Root.new(h.type, clone(h.model), w.zone_address)
        raise Bad, "a copy of #{h.type.name} shares the memory of its source" if w.zone_address == h.w.zone_address
        @held << Held.new(w, root, [], :value, h.type)
        note :dup, h.path
    end
    def copy
        return unless h = pick
        from = values.select { |x| x.type == h.type && !x.root.equal?(h.root) }
        return if from.empty?
        s = from[r(from.size)]
        Typelib.copy(h.w, s.w)
        if h.path.empty?
            h.root.model = clone(s.model)
        else
            h.path[0..-2].inject(h.root.model) { |m, k| m[k] }[h.path[-1]] = clone(s.model)
        end
        n = h.path.size
        @held.reject! { |x| !x.equal?(h) && x.root.equal?(h.root) && x.path.size > n && x.path[0, n] == h.path && x.inside_vector? }
        note :copy, h.path
    end
    def zone
        return unless h = pick
        return if h.inside_vector?
        @held << Held.new(h.w.to_memory_ptr, h.root, h.path, :zone, h.type)
        note :zone, h.path
    end
    def pointer
        return unless h = values.find { |x| x.path.empty? }
        p = h.w.to_ptr
        p.instance_variable_set(:@points_to, nil)
        @held << Held.new(p, h.root, [], :pointer, h.type)
        note :pointer
    end
    def again
        return unless h = pick
        return if h.inside_vector?
        w = h.type.from_address(h.w.zone_address)
        check(w, h.model, 'from_address')
        z = h.w.to_memory_ptr
        raise Bad, "a zone is a #{z.class}" unless z.kind_of?(Typelib::MemoryZone)
        raise Bad, "the zone of a wrapper moved" unless z.zone_address == h.w.zone_address
        note :again, h.path
    end
    def forget
        return if @held.empty?
        (1 + r(5)).times { @held.delete_at(r(@held.size)) unless @held.empty? }
        note :forget
    end
    def collect
        case r(5)
        when 0 then GC.start
        when 1 then GC.start(full_mark: true, immediate_sweep: false)
        when 2 then GC.start(full_mark: false, immediate_sweep: false)
        when 3 then r(3000).times { Object.new }
        when 4
            GC.stress = true
            begin
                step_into
            ensure
                GC.stress = false
            end
        end
        note :collect
    end
    def string
        s = 'ab' * (2 + r(40)) + r(1000).to_s
        z = s.dup.to_memory_ptr
        GC.start if r(3) == 0
        t = R.build('/uint8_t[4]')
        w = t.from_memory_zone(z)
        got = (0...4).map { |i| w.raw_get(i).to_ruby }
        raise Bad, "the memory of a string reads #{got.inspect}, expected #{s.bytes[0, 4].inspect}" unless got == s.bytes[0, 4]
        note :string
    end

    # what belongs to a registry of its own: types, their metadata and values, kept while the registry is forgotten
    def other(n)
        return other(n - 1) if n > 0
        g = Typelib::Registry.new(false)
        Typelib::Registry.add_standard_cxx_types(g)
        c = g.create_compound('/Q') { |b| b.add 'a', '/int32_t'; b.add 'b', '/double[2]' }
        g.create_compound('/Q2') { |b| b.add 'q', c; b.add 'p', '/Q*' }
        sz = c.size
        c.metadata.add 'key', 'of the type ' + 'x' * r(60)
        c.field_metadata['b'].add 'key', 'of the field ' + 'y' * r(60)
        g.create_container('/std/vector', '/Q')
        what = case r(8)
               when 0 then m = c.metadata; e = m.get('key'); lambda { m.get('key') == e && m.keys == ['key'] }
               when 1 then m = c.field_metadata['b']; e = m.get('key'); lambda { m.get('key') == e }
               when 2 then lambda { c.name == '/Q' && c.fields.map { |f, _| f } == %w{a b} && c.size == sz }
               when 3 then t = c['b']; lambda { t.name == '/double[2]' && t.length == 2 && t.deference.name == '/double' }
               when 4 then v = g.build('/Q[2]').new; v.zero!; f = v[1]; f.a = 17; v = nil if r(2) == 0; lambda { f.a == 17 && f.class.name == '/Q' }
               when 5 then v = g.get('/std/vector</Q>').new; lambda { v.length == 0 && v.class.deference.name == '/Q' }
               when 6 then t = g.minimal('/Q2').get('/Q2'); lambda { t.fields.size == 2 && t['p'].deference.name == '/Q' }
               when 7 then gone = g.remove(c); t = gone.find { |x| x.name == '/Q' } || c; m = t.metadata; lambda { t.size == sz && m.keys == ['key'] && gone.size > 1 }
               end
        @others << what
        nil
    end
    def types
        @others ||= []
        other(r(30)) if @others.size < 6
        @others.delete_at(r(@others.size)) if r(4) == 0
        clear_stack(100)
        GC.start if r(3) == 0
        @others.each { |o| raise Bad, 'what belongs to a registry changed while it was referred to' unless o.call }
        note :types
    end

    OPS = [:types] + [:make] * 3 + [:step_into] * 6 + [:assign] * 5 + [:push] * 4 + [:shrink] * 2 + [:dup, :copy, :zone, :zone, :pointer, :again] + [:forget] * 3 + [:collect] * 3 + [:string]
    def run
        make
        (10 + r(50)).times do
            op = OPS[r(OPS.size)]
            before = @held.map { |h| h.root.addr }
            send(op)
            @all = (@all || {})
            @held.each { |h| @all[h.root.addr] = true }
            @held.each { |h| verify(h, "after #{op}") if r(5) == 0 }
            $stats["op_#{op}"] += 1
        end
        @held.each { |h| verify(h, 'at the end') }
        @all.keys
    end
end

NUMS = { '/int8_t' => [8, true], '/uint8_t' => [8, false], '/int16_t' => [16, true], '/uint16_t' => [16, false], '/int32_t' => [32, true], '/uint32_t' => [32, false], '/int64_t' => [64, true], '/uint64_t' => [64, false] }
CODES = { '/int8_t' => 'c', '/uint8_t' => 'C', '/int16_t' => 's', '/uint16_t' => 'S', '/int32_t' => 'l', '/uint32_t' => 'L', '/int64_t' => 'q', '/uint64_t' => 'Q' }
def conversions(rng)
    NUMS.each do |n, (bits, signed)|
        lo, hi = signed ? [-2**(bits - 1), 2**(bits - 1) - 1] : [0, 2**bits - 1]
        vs = [lo, hi, 0, 1, lo + 1, hi - 1, hi / 2, hi / 2 + 1, lo + rng.rand(hi - lo + 1), lo + rng.rand(hi - lo + 1)]
        vs.each do |v|
            t = R.build("#{n}[2]")
            a = t.new
            a.zero!
            a[1] = v
            raise Bad, "#{n}: #{v} is stored as #{a.to_byte_array.inspect}" unless a.to_byte_array == [0, v].pack(CODES[n] + '*')
            x = a[1]
            x = x.to_ruby if x.kind_of?(Typelib::Type)
            raise Bad, "#{n}: #{v} reads #{x.inspect}" unless x == v && x.kind_of?(Integer)
            raise Bad, "#{n}: the neighbour of a number that is set changes" unless Typelib.to_ruby(a[0]) == 0
            s = Typelib.from_ruby(v, R.get(n))
            back = Typelib.to_ruby(s)
            raise Bad, "#{n}: #{v} converts to #{back.inspect}" unless back == v
        end
    end
    [0.0, -0.0, 1.5, Float::INFINITY, -Float::INFINITY, Float::NAN, rng.rand, -rng.rand * 1e300, Float::MIN, Float::MAX, 4.9e-324].each do |v|
        a = R.build('/double[2]').new
        a.zero!
        a[1] = v
        x = Typelib.to_ruby(a[1])
        raise Bad, "/double: #{v} reads #{x}" unless [x].pack('E') == [v].pack('E')
        f = [v].pack('f').unpack1('f')
        b = R.build('/float[2]').new
        b.zero!
        b[1] = f
        x = Typelib.to_ruby(b[1])
        raise Bad, "/float: #{f} reads #{x}" unless x == f || (x.nan? && f.nan?)
    end
    e = R.build('/E[2]').new
    e.zero!
    { A: 0, B: 5, C: -3 }.each do |s, v|
        e[1] = s
        raise Bad, "/E: #{s} is stored as #{e.to_byte_array.inspect}" unless e.to_byte_array == [0, v].pack('l*')
        x = Typelib.to_ruby(e[1])
        raise Bad, "/E: #{s} reads #{x.inspect}" unless x == s
    end
end

def one(seed)
    rng = Random.new(seed)
    $log = []
    conversions(rng) if seed % 20 == 0
    Case.new(rng).run
end
def clear_stack(n); a = b = c = d = e = f = nil; n == 0 ? nil : clear_stack(n - 1) end

def main
    t0 = Process.clock_gettime(Process::CLOCK_MONOTONIC)
    # builds every type and fills the method caches
    one(SEED * 1_000_000)
    GC.start
    cases, owned = 0, {}
    seed = SEED * 1_000_000
    while LAST ? seed < LAST : Process.clock_gettime(Process::CLOCK_MONOTONIC) - t0 < SECS && cases < MAXC
        seed += 1
        addrs = one(seed)
        cases += 1
        addrs.each { |a| owned[a] = true }
        if cases % 40 == 0
            addrs = nil
            clear_stack(200)
            GC.start
            GC.start
            # everything was dropped: a few objects may be kept by what looks like references on the stack
            n = Typelib::MemoryZone.table_size
            raise Bad, "#{n} zones are still registered after everything was dropped" if n > 60
            if POISONED
                left = owned.keys.count { |a| POISONED.call(a) == 0 }
                $stats['released'] += owned.size - left
                raise Bad, "#{left} of #{owned.size} values were not released after everything was dropped" if left > 12 + owned.size / 10
            end
            owned = {}
        end
    end
    $stats['cases'] = cases
    puts "STATS #{JSON.generate($stats)}"
    0
rescue StandardError => e
    File.write(REPLAY, JSON.generate(property: 'C26', violation: "#{e.class}: #{e.message}", seed: SEED, case: seed, history: $log.last(80), backtrace: (e.backtrace || []).first(12)))
    puts "violation: #{e.class}: #{e.message}"
    1
end
exit!(main)
