#include <span>
#include <cstddef>
