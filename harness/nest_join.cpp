#include "nest.hpp"
namespace nest { std::vector<shape_fn> shapes_join() { return shapes<comb::join>(); } }
