CONSTANT Depth = 5
SPECIFICATION SSpec
INVARIANTS ComposedActs OutputsCarryOver PowerUnchanged DetUnchanged
