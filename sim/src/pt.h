// picotm's C headers for use from C++
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <csetjmp>
#include <csignal>
#include "picotm/compiler.h"
#undef PICOTM_NOTHROW
#define PICOTM_NOTHROW
