#include "../../w32.hpp"
