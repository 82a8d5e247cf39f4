// the 128-bit word of samples/dSFMTdc, which is a copy of its own: same checks, under other names
#define MTToolBox MTToolBox_d
#define gens gens_d
#undef W128_HEADER
#define W128_HEADER W128_HEADER_D
#include "gens.hpp"
#include "c17_words.hpp"
PBT_CHECK(words_dsfmt, 200000, 2000000) { c.desc << "samples/dSFMTdc/w128.hpp "; words128(c); }
