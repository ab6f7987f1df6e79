// Registers a part of the library's classes (compiled separately to keep the builds short).
#include "ode_num_int/ode/reg/OdeEventControllerClassesRegistrator.h"
#include "ode_num_int/ode/reg/OdeSolverCommonClassesRegistrator.h"
#include "reg.h"
namespace ctm { namespace math { namespace {
typedef VectorData<double> VD;
void reg() {
    { OdeEventControllerClassesRegistrator<VD> r; (void)r; }
    { OdeSolverCommonClassesRegistrator<VD> r; (void)r; }
}
struct Add { Add() { vf::registrations().push_back(&reg); } } add;
} } }
