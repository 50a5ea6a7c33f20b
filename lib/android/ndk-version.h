#define __NDK_MAJOR__ 26 // stands for the header of the Android NDK
