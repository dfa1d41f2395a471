#include "verif_sophus.hpp"
