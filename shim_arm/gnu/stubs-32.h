// empty: the x86 headers of the C library are read for an ARM target
