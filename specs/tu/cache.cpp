// instantiates the cache template so that its members are extracted
#include "Cache.hpp"
#include <string>
template class Cache<std::string, int>;
template class Cache<int, double>;
