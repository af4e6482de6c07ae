/* io.h of the Microsoft C runtime; see shim.h */
