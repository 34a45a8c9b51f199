SPECIFICATION Spec
INVARIANTS RoundTrip PrefixRefused Lengths Normal Emit
CHECK_DEADLOCK FALSE
