// Virtual files: on the IR side streams read and write this table, in the
// native replay the harness writes real files in its scratch directory.
#pragma once
#include <cstddef>
struct VFile { char name[256]; const char* data; size_t n; int state; /* 0 unused 1 exists 2 directory */ char* out; size_t on, cap; bool broken; };
extern "C" VFile g_vfs[16];
