SPECIFICATION Spec
CONSTANT Limbs = {0, 1, 127, 32768, 65535}
INVARIANTS Roundtrip Shortest Truncated Ranges LongTooBig ZigZagInverse ZigZagSmall Address
