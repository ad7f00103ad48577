#include "nest.hpp"
namespace nest { std::vector<shape_fn> shapes_left() { return shapes<comb::left>(); } }
