// src/physics/common_outputs.cpp over the model of its integrators
#include "mfem_common_integ.hpp"
#include "src/physics/common_outputs.cpp"
