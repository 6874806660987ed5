#include "../../model.hpp"
