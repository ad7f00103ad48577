#include "combi.hpp"
namespace combi { std::vector<starter> table_gather() { return table<comb::gather>(); } }
