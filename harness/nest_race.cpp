#include "nest.hpp"
namespace nest { std::vector<shape_fn> shapes_race() { return shapes<comb::race>(); } }
