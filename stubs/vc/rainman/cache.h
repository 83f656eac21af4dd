#pragma once
#include "rainman.h"
