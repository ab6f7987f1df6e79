// Registers a part of the library's classes (compiled separately to keep the builds short).
#include "ode_num_int/alg/reg/AlgebraicSolverClassesRegistrator.h"
#include "reg.h"
namespace ctm { namespace math { namespace {
typedef VectorData<double> VD;
void reg() {
    { ImplementationRegistrator<DefaultJacobianProvider<VD>> r; (void)r; }
    { ImplementationRegistrator<SparseJacobianProvider<VD>> r; (void)r; }
    { ImplementationRegistrator<SimpleErrorEstimator<VD>> r; (void)r; }
    { ImplementationRegistrator<JacobianWidthBasedTrimmer<VD>> r; (void)r; }
    { ImplementationRegistrator<JacobianThresholdBasedTrimmer<VD>> r; (void)r; }
    { ImplementationRegistrator<SimpleNewtonDescentDirection<VD>> r; (void)r; }
    { ImplementationRegistrator<ConstJacobianNewtonDescentDirection<VD>> r; (void)r; }
    { ImplementationRegistrator<SimpleNewtonLinearSearch<VD>> r; (void)r; }
    { ImplementationRegistrator<NewtonIterationPerformerImpl<VD>> r; (void)r; }
    { ImplementationRegistrator<NewtonSolver<VD>> r; (void)r; }
}
struct Add { Add() { vf::registrations().push_back(&reg); } } add;
} } }
