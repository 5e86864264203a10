#include <cstddef>
#include <string>
using std::size_t;
#include "Symmetry.hpp"
