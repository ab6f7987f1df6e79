// Registers a part of the library's classes (compiled separately to keep the builds short).
#include "ode_num_int/alg/NewtonSolver.h"
#include "ode_num_int/ode/reg/OdeStepMappingClassesRegistrator.h"
#include "ode_num_int/ode/reg/OdeSolverOutputClassesRegistrator.h"
#include "reg.h"
namespace ctm { namespace math { namespace {
typedef VectorData<double> VD;
void reg() {
    { OdeStepMappingClassesRegistrator<VD> r; (void)r; }
    { OdeSolverOutputClassesRegistrator<VD> r; (void)r; }
}
struct Add { Add() { vf::registrations().push_back(&reg); } } add;
} } }
