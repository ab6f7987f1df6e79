// Newton solver under observation.
#pragma once
#include "alg_common.h"
#include "ode_num_int/alg/NewtonSolver.h"
#include "ode_num_int/alg/SparseJacobianProvider.h"
#include "ode_num_int/alg/JacobianWidthBasedTrimmer.h"
#include "ode_num_int/alg/JacobianThresholdBasedTrimmer.h"
#include "ode_num_int/alg/ConstJacobianNewtonDescentDirection.h"
#include "ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h"
#include "ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h"
#include "ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h"
#include "ode_num_int/alg/JacobianHartUpdateNewtonDescentDirection.h"
#include "ode_num_int/lu/util.h"
namespace vf {
typedef ctm::math::NewtonSolver<VD> Newton;
typedef ctm::math::NewtonDescentDirection<VD> DDir;
typedef ctm::math::JacobianProvider<VD> JProv;
static const char* const ddirNames[] = {"simple", "const", "broyden", "fake-broyden", "lazy-fake-broyden", "hart"};
inline std::shared_ptr<DDir> makeDDir(int k, unsigned lazy = 10) {
    using namespace ctm::math;
    switch (k) {
        case 0: return std::make_shared<SimpleNewtonDescentDirection<VD>>();
        case 1: return std::make_shared<ConstJacobianNewtonDescentDirection<VD>>();
        case 2: return std::make_shared<JacobianBroydenUpdateNewtonDescentDirection<VD>>();
        case 3: return std::make_shared<JacobianFakeBroydenUpdateNewtonDescentDirection<VD>>();
        case 4: { auto d = std::make_shared<JacobianLazyFakeBroydenUpdateNewtonDescentDirection<VD>>();
                  ctm::OptionalParameters::Parameters p; p["lazy_iterations"] = lazy; d->setParameters(p); return d; }
        default: return std::make_shared<JacobianHartUpdateNewtonDescentDirection<VD>>();
    }
}
inline std::shared_ptr<JProv> makeJProv(bool sparse) {
    using namespace ctm::math;
    if (sparse) return std::make_shared<SparseJacobianProvider<VD>>();
    return std::make_shared<DefaultJacobianProvider<VD>>();
}
} // namespace vf
