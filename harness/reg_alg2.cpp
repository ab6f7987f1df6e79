// Registers a part of the library's classes (compiled separately to keep the builds short).
#include "ode_num_int/alg/reg/AlgebraicSolverClassesRegistrator.h"
#include "reg.h"
namespace ctm { namespace math { namespace {
typedef VectorData<double> VD;
void reg() {
    { ImplementationRegistrator<JacobianBroydenUpdateNewtonDescentDirection<VD>> r; (void)r; }
    { ImplementationRegistrator<JacobianFakeBroydenUpdateNewtonDescentDirection<VD>> r; (void)r; }
    { ImplementationRegistrator<JacobianLazyFakeBroydenUpdateNewtonDescentDirection<VD>> r; (void)r; }
    { ImplementationRegistrator<JacobianHartUpdateNewtonDescentDirection<VD>> r; (void)r; }
}
struct Add { Add() { vf::registrations().push_back(&reg); } } add;
} } }
