// Eigenvalues in an energy range: the contracts of C11 for the call with a range
#define ENERGY_RANGE
#include "C11.cpp"
