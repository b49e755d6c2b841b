#include <fstream>
#include <sstream>
#include "hydro.h"
// one assignment of a parameter file: name and value as written
X void w_set(const std::string & n, const std::string & v) { param::set_param(n, v); }
