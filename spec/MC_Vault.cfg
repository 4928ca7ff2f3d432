SPECIFICATION Spec
CONSTANTS Ks = {"0000000000000000000000000000000000000000000000000000000000000000", "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f", "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e", "000102030405060708090a0b0c0d0e0f"}
 Ivs = {"00000000000000000000000000000000", "000102030405060708090a0b0c0d0e0f", "000102030405060708090a0b0c0d0e", ""}
 Pts = {"", "00", "10", "000102030405060708090a0b0c0d0e", "10101010101010101010101010101010", "000102030405060708090a0b0c0d0e0f10", "000102030405060708090a0b0c0d0e0f000102030405060708090a0b0c0d0e0f"}
 Pws = {"", "00", "70617373776f7264", "0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f303132333435363738393a3b3c3d3e3f404142434445"}
 MaxOps = 3
VIEW View
INVARIANT NoOther
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
