#define MODE 25
#include "c23.cpp"
