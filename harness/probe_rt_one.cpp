// does the one-algorithm overload of AlgorithmReducibleRecursionAndTempering::search compile?
#include "gens.hpp"
#include <MTToolBox/AlgorithmReducibleRT.hpp>
using namespace gens;
bool probe(MTToolBox::AlgorithmReducibleRecursionAndTempering<uint32_t, Gen<uint32_t>> &a, Gen<uint32_t> &g, MTToolBox::AlgorithmTempering<uint32_t> &t) { return a.search(g, t, false, std::cout); }
