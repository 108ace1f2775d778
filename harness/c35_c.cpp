#include "c35_tu.hpp"
C35_DEFINE(api_c)
