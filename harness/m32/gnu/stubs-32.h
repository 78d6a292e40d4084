/* the 32 bit C library is not installed: its headers ask for this file, nothing of it is linked */
