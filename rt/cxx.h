// Force-included into the C++ sources, which are compiled without exceptions: a throw ends the path.
#pragma once
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <new>
#include <atomic>
extern "C" void env_throw(void);
extern "C" void sx_abort(void);
struct env_thrown { template<class T> void operator=(const T &) { env_throw(); } };
#define throw env_thrown() =
#define abort sx_abort
