SPECIFICATION Spec
CONSTANTS Seeds = {"000102030405060708090a0b0c0d0e0f", "000102030405060708090a0b0c0d0e", "fffcf9f6f3f0edeae7e4e1dedbd8d5d2cfccc9c6c3c0bdbab7b4b1aeaba8a5a29f9c999693908d8a8784817e7b7875726f6c696663605d5a5754514e4b484542", "fffcf9f6f3f0edeae7e4e1dedbd8d5d2cfccc9c6c3c0bdbab7b4b1aeaba8a5a29f9c999693908d8a8784817e7b7875726f6c696663605d5a5754514e4b48454200"}
 Macs = {"426974636f696e2073656564", "00"}
 Idx = {"0", "1", "0'", "2147483647'", "2147483647"}
 MaxPath = 3
 MaxOps = 5
 Depths = {0, 1, 2, 3, 5, 46, 47, 48, 49, 63, 64, 128, 254, 255, 256}
VIEW View
INVARIANT Assoc
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
