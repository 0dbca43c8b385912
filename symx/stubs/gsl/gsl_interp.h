#include "gsl_stub.hpp"
