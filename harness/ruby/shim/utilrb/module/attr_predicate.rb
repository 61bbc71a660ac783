class Module
    def attr_predicate(name, writable = false)
        base = name.to_s.sub(/\?$/, '')
        define_method("#{base}?") { !!instance_variable_get("@#{base}") }
        define_method("#{base}=") { |v| instance_variable_set("@#{base}", v) } if writable
    end
end
