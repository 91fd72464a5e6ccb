// Shared prelude for the harnesses: standard headers first, then private members opened.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cmath>
#include <condition_variable>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <Eigen/Eigenvalues>
#include <Eigen/StdVector>
#include "sx.h"
inline bool sx_and(bool a, bool b) { return bool(int(a) & int(b)); }
inline bool sx_or(bool a, bool b) { return bool(int(a) | int(b)); }
inline bool sx_imp(bool a, bool b) { return bool(int(!a) | int(b)); }
inline bool sx_iff(bool a, bool b) { return int(a) == int(b); }
inline std::string nm(const char* p, int i) { return std::string(p) + std::to_string(i); }
inline std::string nm(const char* p, int i, int j) { return std::string(p) + std::to_string(i) + "_" + std::to_string(j); }
