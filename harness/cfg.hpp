// Build option prelude: selects the OpenMPS options for this build without touching the sources.
#pragma once
#include <array>
#include <iostream>
#ifdef CFG_3D
#define DIM3
#endif
#include "defines.hpp"
#ifdef CFG_NOSPP
#undef MPS_SPP
#endif
#ifdef CFG_NOHL
#undef MPS_HL
#endif
#ifdef CFG_NOHS
#undef MPS_HS
#endif
#ifdef CFG_NOECS
#undef MPS_ECS
#endif
#ifdef CFG_NODS
#undef MPS_DS
#endif
#ifdef CFG_GC
#define MPS_GC
#endif
#ifdef CFG_EXP
#define PRESSURE_EXPLICIT
#endif
#ifdef CFG_CG
#define CENTRAL_GRAVITY
#endif
#ifdef CFG_NOVCL
#undef USE_VIENNACL
#undef VIENNACL_WITH_OPENMP
#endif
