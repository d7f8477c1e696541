CONSTANT Depth = 3
SPECIFICATION SSpec
INVARIANTS ComposedActs OutputsCarryOver PowerUnchanged DetUnchanged
