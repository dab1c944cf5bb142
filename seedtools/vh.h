// minimal stand-in used by the demonstrations
#ifndef VH_H
#define VH_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <functional>
#include <unistd.h>
#include <sys/stat.h>
namespace vh {
inline std::string newDir() { static int n = 0; std::string d = std::string(getenv("DEMO_DIR")) + "/d" + std::to_string(n++); mkdir(d.c_str(), 0755); return d; }
inline void fail(const std::string &m) { printf("BROKEN: %s\n", m.c_str()); fflush(stdout); _exit(1); }
inline void expect(bool b, const std::string &m) { if (!b) fail(m); }
}
#endif
