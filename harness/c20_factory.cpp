// C20: factories and registration.
#include "ode_common.h"
#include "ode_num_int/OdeNumIntClassesRegistrator.h"
#include "ode_num_int/OdeTestModelClassesRegistrator.h"
#include "ode_num_int/ExtrapolatorStepSequenceRomberg.h"
#include "ode_num_int/ExtrapolatorStepSequenceBulirsch.h"
#include "ode_num_int/ExtrapolatorStepSequenceHarmonic.h"
using namespace vf;
using namespace ctm;
using namespace ctm::math;

namespace {
typedef std::set<std::string> Ids;
struct Entry { std::string name; Ids ids; std::function<std::vector<std::string>()> types; std::function<std::shared_ptr<void>(const std::string&, std::string& typeId, std::string& cls)> make; std::map<std::string, std::string> cls;
    std::function<bool(const std::string&)> has; std::function<bool(const std::string&, const std::string&)> independent; };
template<class I> Entry entry(const std::string& name, const std::map<std::string, std::string>& cls) {
    Entry e; e.name = name; e.cls = cls; for (auto& k : cls) e.ids.insert(k.first);
    e.types = [] { return Factory<I>::registeredTypes(); };
    e.has = [](const std::string& id) { return Factory<I>::isTypeRegistered(id); };
    e.make = [](const std::string& id, std::string& tid, std::string& c) { auto p = Factory<I>::newInstance(id); if (p) { I& r = *p; c = typeid(r).name(); tid = TypeIdGetter<I>::typeId(p); } return std::shared_ptr<void>(p); };
    return e;
}
#define T(C) {typeIdOf<C>()}
template<class C> std::string nm() { return typeid(C).name(); }

const std::vector<Entry>& library() {
    static const std::vector<Entry> l = {
        entry<OdeSolver<VD>>("solver", {{"euler", nm<OdeSolverExplicitEuler<VD>>()}, {"rk4", nm<OdeSolverRK4<VD>>()}, {"dopri_45", nm<OdeSolverDOPRI45<VD>>()}, {"dopri_56", nm<OdeSolverDOPRI56<VD>>()}, {"dopri_78", nm<OdeSolverDOPRI78<VD>>()},
            {"rosenbrock_w1", nm<OdeSolverRosenbrock_W1<VD>>()}, {"rosenbrock_sw2_4", nm<OdeSolverRosenbrock_SW2_4<VD>>()}, {"gragg", nm<OdeSolverGragg<VD>>()}, {"extrapolator", nm<OdeSolverExtrapolator<VD>>()}, {"i_euler", nm<OdeSolverImplicitEuler<VD>>()}}),
        entry<OdeEventController<VD>>("event controller", {{"linear", nm<LinearOdeEventController<VD>>()}}),
        entry<ErrorNormCalculator<VD>>("error norm", {{"inf", nm<ErrorInfNormCalculator<VD>>()}}),
        entry<OdeStepSizeController<VD>>("step size controller", {{"simple", nm<OdeStepSizeSimpleController<VD>>()}}),
        entry<OdeSolverOutputOption<VD>>("output", {{"stats_full", nm<OdeSolverStatisticsOutput<VD>>()}, {"con_general", nm<OdeSolverStepGeneralConsoleOutput<VD>>()}, {"con_solution", nm<OdeSolverStepSolutionConsoleOutput<VD>>()}, {"con_solution_columnwise", nm<OdeSolverStepSolutionColumnwiseOutput<VD>>()}}),
        entry<OdeInitState<VD>>("initial state", {{"specified", nm<SpecifiedOdeInitState<VD>>()}}),
        entry<OdeStepMapping<VD>>("step mapping", {{"euler", nm<OdeStepMappingEuler<VD>>()}}),
        entry<JacobianProvider<VD>>("jacobian", {{"default", nm<DefaultJacobianProvider<VD>>()}, {"sparse", nm<SparseJacobianProvider<VD>>()}}),
        entry<JacobianTrimmer<VD>>("trimmer", {{"width", nm<JacobianWidthBasedTrimmer<VD>>()}, {"threshold", nm<JacobianThresholdBasedTrimmer<VD>>()}}),
        entry<ErrorEstimator<VD>>("error estimator", {{"simple", nm<SimpleErrorEstimator<VD>>()}}),
        entry<NewtonDescentDirection<VD>>("descent direction", {{"simple", nm<SimpleNewtonDescentDirection<VD>>()}, {"broyden", nm<JacobianBroydenUpdateNewtonDescentDirection<VD>>()}, {"fake-broyden", nm<JacobianFakeBroydenUpdateNewtonDescentDirection<VD>>()},
            {"lazy-fake-broyden", nm<JacobianLazyFakeBroydenUpdateNewtonDescentDirection<VD>>()}, {"hart", nm<JacobianHartUpdateNewtonDescentDirection<VD>>()}, {"const", nm<ConstJacobianNewtonDescentDirection<VD>>()}}),
        entry<NewtonLinearSearch<VD>>("linear search", {{"simple", nm<SimpleNewtonLinearSearch<VD>>()}}),
        entry<NewtonIterationPerformer<VD>>("iteration performer", {{"default", nm<NewtonIterationPerformerImpl<VD>>()}}),
        entry<NewtonSolverInterface<VD>>("algebraic solver", {{"newton", nm<NewtonSolver<VD>>()}}),
        entry<ExtrapolatorStepSequence>("step sequence", {{"romberg", nm<ExtrapolatorStepSequenceRomberg>()}, {"bulirsch", nm<ExtrapolatorStepSequenceBulirsch>()}, {"harmonic", nm<ExtrapolatorStepSequenceHarmonic>()}}),
        entry<OdeRhs<VD>>("right-hand side", {{"oscillator", nm<testmodels::Oscillator<VD>>()}, {"coupled_nl_osc", nm<testmodels::CoupledNonlinearOscillators<VD>>()}, {"stiff_1d", nm<testmodels::StiffOde1D<VD>>()}, {"sliding_point", nm<testmodels::SlidingPoint<VD>>()}, {"bouncing_ball", nm<testmodels::BouncingBall<VD>>()}})};
    return l;
}
void libraryTypes(Case& c) {
    auto& g = c.rng;
    auto& e = library()[c.index() % library().size()];
    c.desc << e.name;
    auto t = e.types(); Ids have(t.begin(), t.end());
    c.require(have == e.ids && t.size() == e.ids.size(), "ids", "the registered types of " + e.name + " differ: " + [&] { std::string r; for (auto& x : t) r += x + " "; return r; }());
    std::set<void*> all; std::vector<std::shared_ptr<void>> keep;
    for (int k = 0; k < 20; ++k) {
        std::string id = g.pick(t), tid, cls;
        c.desc << " " << id;
        auto p = e.make(id, tid, cls);
        if (!p) c.die("null", "no instance of '" + id + "'");
        c.require(cls == e.cls.at(id), "class", "'" + id + "' is an instance of " + cls);
        c.require(tid == id, "type-id", "an instance of '" + id + "' says it is '" + tid + "'");
        c.require(e.has(id), "registered", "'" + id + "' is not registered");
        c.require(all.insert(p.get()).second, "shared", "two instances of '" + id + "' are one");
        keep.push_back(p);
        // a type that is not registered
        std::string bad = g.chance(.3) ? "" : id; if (!bad.empty()) { unsigned i = g.u(0, unsigned(bad.size() - 1)); if (g.chance(.5)) bad[i] = char(bad[i] ^ 0x20); else bad += g.pick(std::vector<char>{' ', 'x', '.'}); }
        if (e.ids.count(bad)) continue;
        bool thrown = false; try { e.make(bad, tid, cls); } catch (const std::exception& x) { thrown = true; c.require(std::string(x.what()).find(bad) != std::string::npos, "message", "the message does not name the type: " + std::string(x.what())); }
        c.require(thrown, "unknown", "an instance of the unknown type '" + bad + "' was made");
        c.require(!e.has(bad), "unknown-registered", "'" + bad + "' is registered");
        c.require(e.types() == t, "registry-changed", "asking for the unknown type '" + bad + "' changed the registry");
        c.count("instances"); c.count("refused types");
    }
    c.nontrivial(e.name + std::to_string(g.u64() % 32));
}

// A factory of our own, with types registered at random times
struct Iface : Factory<Iface> { virtual int number() const = 0; int state = 0; };
struct Other : Factory<Other> { virtual int number() const = 0; };
template<int N> struct Impl : Iface, Other, FactoryMixin<Impl<N>, Iface> { int number() const override { return N; } };
template<int N> struct Impl2 : Other, FactoryMixin<Impl2<N>, Other> { int number() const override { return N; } };
struct Gen { template<int N> static std::shared_ptr<Iface> make() { return std::make_shared<Impl<N>>(); } };
void ownFactory(Case& c) {
    auto& g = c.rng;
    // the registry lives as long as the process: the model does too
    static std::map<std::string, int> model, model2;
    static std::map<int, std::string> mixin;
    for (int k = 0; k < 25; ++k) {
        int op = g.i(0, 5);
        std::string id = std::string(1, char('a' + g.i(0, 5))) + (g.chance(.3) ? "" : std::to_string(g.i(0, 400)));
        if (op == 0 && !model.count(id)) {
            int n = g.i(0, 3), cap = g.i(0, 1000);
            c.desc << " +" << id << ":" << n;
            if (g.chance(.5)) { Factory<Iface>::registerType(id, [cap, n]() -> std::shared_ptr<Iface> { auto p = n == 0 ? Gen::make<0>() : n == 1 ? Gen::make<1>() : n == 2 ? Gen::make<2>() : Gen::make<3>(); p->state = cap; return p; }); model[id] = n + 10 * cap; }
            else { if (n == 0) Impl<0>::Registrator r(id); else if (n == 1) Impl<1>::Registrator r(id); else if (n == 2) Impl<2>::Registrator r(id); else Impl<3>::Registrator r(id); model[id] = n; mixin[n] = id; }
            c.count("registrations");
        }
        else if (op == 1 && !model2.count(id)) {
            int n = g.i(0, 1); c.desc << " *" << id;
            if (n == 0) Impl2<0>::Registrator r(id); else Impl2<1>::Registrator r(id);
            model2[id] = n; c.count("registrations");
        }
        else {
            if (!model.empty() && g.chance(.7)) { auto i = model.begin(); std::advance(i, long(g.u(0, unsigned(model.size() - 1)))); id = i->first; }
            c.desc << " " << id;
            auto i = model.find(id);
            bool thrown = false; std::shared_ptr<Iface> p;
            try { p = Factory<Iface>::newInstance(id); } catch (const cxx::exception&) { thrown = true; }
            c.require(thrown == (i == model.end()), "new", "'" + id + "': " + (thrown ? "refused" : "made although not registered"));
            if (p && i != model.end()) {
                c.require(p->number() == i->second % 10 && p->state == i->second / 10, "wrong", "'" + id + "' makes number " + std::to_string(p->number()));
                int n = p->number();
                c.require(TypeIdGetter<Iface>::typeId(p) == (mixin.count(n) ? mixin[n] : ""), "id", "the instance says it is '" + TypeIdGetter<Iface>::typeId(p) + "'");
                c.count("instances");
            }
            auto j = model2.find(id);
            thrown = false; std::shared_ptr<Other> q;
            try { q = Factory<Other>::newInstance(id); } catch (const cxx::exception&) { thrown = true; }
            c.require(thrown == (j == model2.end()), "new-other", "'" + id + "' in the other factory: " + (thrown ? "refused" : "made although not registered"));
            if (q) c.require(q->number() == j->second, "wrong-other", "'" + id + "' in the other factory makes number " + std::to_string(q->number()));
            c.require(Factory<Iface>::isTypeRegistered(id) == (i != model.end()) && Factory<Other>::isTypeRegistered(id) == (j != model2.end()), "is-registered", "isTypeRegistered(" + id + ")");
        }
        std::vector<std::string> want, want2; for (auto& m : model) want.push_back(m.first); for (auto& m : model2) want2.push_back(m.first);
        c.require(Factory<Iface>::registeredTypes() == want && Factory<Other>::registeredTypes() == want2, "types", "the lists of registered types differ from the registrations made");
    }
    c.nontrivial(std::to_string(model.size()) + "," + std::to_string(model2.size()));
}
// storage per type
template<int N> struct Tag {};
void perType(Case& c) {
    auto& g = c.rng;
    static std::map<int, int> model; static std::map<int, std::string> model2; static std::map<int, const void*> where;
    for (int k = 0; k < 20; ++k) {
        int n = g.i(0, 5), v = g.i(1, 999);
        auto at = [&](int n) -> int& { switch (n) { case 0: return PerTypeStorage::value<Tag<0>, int>(); case 1: return PerTypeStorage::value<Tag<1>, int>(); case 2: return PerTypeStorage::value<Tag<2>, int>(); default: return PerTypeStorage::value<Tag<3>, int>(); } };
        auto sat = [&](int n) -> std::string& { return n ? PerTypeStorage::value<Tag<1>, std::string>() : PerTypeStorage::value<Tag<0>, std::string>(); };
        if (n < 4) {
            int& r = at(n);
            if (where.count(n)) c.require(where[n] == &r, "moved", "the value of a type moved");
            else { where[n] = &r; r = 0; model[n] = 0; }
            c.require(r == model[n], "value", "the value of type " + std::to_string(n) + " is " + std::to_string(r) + " instead of " + std::to_string(model[n]));
            if (g.chance(.5)) { r = v; model[n] = v; }
        }
        else {
            auto& r = sat(n - 4);
            c.require(r == model2[n - 4], "string", "the text of type " + std::to_string(n) + " is " + r);
            if (g.chance(.5)) { r = "text" + std::to_string(v); model2[n - 4] = r; }
        }
        for (auto& m : model) c.require(at(m.first) == m.second, "shared", "the values of two types are not independent");
        c.count("storage accesses");
    }
    c.nontrivial(std::to_string(g.u64() % 50));
}
void run(Ctx& ctx) {
    ctx.rule("every registry holds exactly the types registered, every instance is new and of the registered class, unknown types are refused");
    { OdeNumIntClassesRegistrator<VD> r; (void)r; testmodels::OdeTestModelClassesRegistrator<VD> m; (void)m; }
    ctx.expectAtLeast("instances", 2000); ctx.expectAtLeast("refused types", 1000); ctx.expectAtLeast("registrations", 200);
    ctx.section("library", 320, 6400, libraryTypes);
    ctx.section("own", 400, 1500, ownFactory);
    ctx.section("storage", 200, 5000, perType);
}
}
VF_MAIN(run)
