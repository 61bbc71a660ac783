module Kernel
    def self.validate_options(options, defaults)
        options = options.to_hash
        defaults = defaults.each_with_object({}) { |k, h| h[k] = nil } if defaults.kind_of?(Array)
        unknown = options.keys - defaults.keys
        raise ArgumentError, "unknown options #{unknown}" unless unknown.empty?
        defaults.merge(options)
    end
    def validate_options(o, d); Kernel.validate_options(o, d) end
    def self.filter_options(options, defaults)
        known = defaults.merge(options.select { |k, _| defaults.key?(k) })
        [known, options.reject { |k, _| defaults.key?(k) }]
    end
end
