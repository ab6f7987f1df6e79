// Registers a part of the library's classes (compiled separately to keep the builds short).
#include "ode_num_int/ode/reg/OdeTestModelClassesRegistrator.h"
#include "reg.h"
namespace ctm { namespace math { namespace {
typedef VectorData<double> VD;
void reg() {
    { testmodels::OdeTestModelClassesRegistrator<VD> r; (void)r; }
}
struct Add { Add() { vf::registrations().push_back(&reg); } } add;
} } }
