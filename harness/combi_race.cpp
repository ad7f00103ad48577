#include "combi.hpp"
namespace combi { std::vector<starter> table_race() { return table<comb::race>(); } }
