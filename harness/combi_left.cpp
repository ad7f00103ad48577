#include "combi.hpp"
namespace combi { std::vector<starter> table_left() { return table<comb::left>(); } }
