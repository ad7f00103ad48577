#include "combi.hpp"
namespace combi { std::vector<starter> table_join() { return table<comb::join>(); } }
