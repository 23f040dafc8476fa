INIT Init
NEXT Next
CONSTANT Nums = {0, 1, 2, 35, 36, 32767, 32768, 32769, 65535, 65536, 1073741823, 1073741824, 1073709056, 1000000007, 2147483646, 2147483647, 12345678}
Smalls = {0, 1, 2, 10, 35, 36, 700, 26, 32767}
INVARIANTS Iso AddOk SubOk OrderOk MulDiv
CHECK_DEADLOCK FALSE
