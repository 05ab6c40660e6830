#define C26_SOLVE
#include "C25.cpp"
