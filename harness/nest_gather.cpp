#include "nest.hpp"
namespace nest { std::vector<shape_fn> shapes_gather() { return shapes<comb::gather>(); } }
