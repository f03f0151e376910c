#pragma once
#include <vector>
namespace absl {
inline std::vector<char*> ParseCommandLine(int argc, char** argv) { std::vector<char*> r; for (int i = 0; i < argc; i++) r.push_back(argv[i]); return r; }
}
