#define BYTES_C14
#include "C13.cpp"
