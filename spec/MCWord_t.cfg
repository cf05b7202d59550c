SPECIFICATION Spec
CONSTANT Limbs = {0, 1, 127, 128, 16383, 16384, 32767, 32768, 65534, 65535}
INVARIANTS Roundtrip Shortest Truncated Ranges LongTooBig ZigZagInverse ZigZagSmall Address
