// the generator class of samples/MTDC/mt2.cpp, taken out of the program (include after all other headers)
#ifndef MT2_CLASS_HPP
#define MT2_CLASS_HPP
#include <MTToolBox/TemperingCalculatable.hpp>
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
#include <MTToolBox/Sequential.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmPrimitivity.hpp>
#include <sstream>
#include <string>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <vector>
#include <memory>
#include <algorithm>
#include <stdexcept>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <errno.h>
#include <stdlib.h>
#include <stdint.h>
#include <inttypes.h>
#include <time.h>
#include <getopt.h>
#include <limits.h>
namespace mt2p {
#define main mt2_main
#include "MTDC/mt2.cpp"
#undef main
}
#endif
