#define MODE 24
#include "c23.cpp"
