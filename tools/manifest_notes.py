# per-property TECH/NOTE/NA overrides
