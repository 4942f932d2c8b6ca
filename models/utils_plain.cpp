// src/utils/utils.cpp without the model of MFEM's forms
#define FORMS_PLAIN
#include "src/utils/utils.cpp"
