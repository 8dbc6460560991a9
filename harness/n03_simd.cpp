// the part of N03 that needs AVX2
#define N03_SIMD
#include "n03_assign.cpp"
