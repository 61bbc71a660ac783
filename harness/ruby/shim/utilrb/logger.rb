module Logger
    WARN = 2
    def self.Root(name, level)
        Module.new do
            def warn(*a); end
            def debug(*a); end
            def info(*a); end
        end
    end
end
