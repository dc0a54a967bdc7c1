#pragma once
#include "params.hpp"
inline std::string peek_(void* p) { return dumpparams(*(trv::ParameterSet*) p); }
