class String
    def camelcase(*) ; split('_').map(&:capitalize).join end
end
