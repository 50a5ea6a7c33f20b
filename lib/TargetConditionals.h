// stands for the header of the Apple SDKs; current compilers define its macros themselves
