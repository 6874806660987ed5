#include "model.hpp"
