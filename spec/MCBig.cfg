CONSTANT Vals = {0, 1, 2, 7, 9999, 10000, 10001, 19999, 65536, 99999, 100000, 123456, 200000, 9999999, 99999999, 100000000, 100010001, 500000000, 999999999, 1000000000, 1073741823}
CONSTANT Ks = {1, 2, 3, 4, 7, 10, 95, 100, 105, 999, 1000, 9999, 10000, 10001, 12345, 199999, 200000}
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
