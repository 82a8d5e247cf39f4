// can the class of mt2.cpp be used apart from its program?
#include "gens.hpp"
#include "mt2_class.hpp"
using mt2p::MT32Search;
std::string probe(MTToolBox::ParameterGenerator &p) { MT32Search a(521, 1, 5u), b(521, 1, 3, 1u, 2u, 3u, 4u), c(a); c.setUpParam(p); c.add(b); c.setTemperingPattern(1, 1, 0); c.setUpTempering(); c.setReverseOutput(); c.isReverseOutput(); c.isZero(); c.setZero(); return c.getParamString(); }
