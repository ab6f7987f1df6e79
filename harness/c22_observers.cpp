// C22: observer lists and notified properties.
#include "common.h"
#include "ode_num_int/infra/cxx_observers.h"
#include "ode_num_int/infra/def_prop_class.h"
#include "ode_num_int/infra/def_getset.h"
#include "ode_num_int/ode/interfaces/OdeRhs.h"
#include <deque>
#include <tuple>
using namespace vf;
using namespace ctm;
using namespace ctm::cxx;

namespace {
struct Call { int who; double a; std::string b; };
inline bool operator==(const Call& x, const Call& y) { return x.who == y.who && x.a == y.a && x.b == y.b; }
struct Fault : std::runtime_error { Fault() : std::runtime_error("fault") {} };

template<class L> bool call(const L& l, double a, const std::string& b, std::true_type) { return l(a, b); }
template<class L> bool call(const L& l, double a, const std::string& b, std::false_type) { l(a, b); return false; }
// A list of observers against an ordered model
template<class List, bool Terminating> void listHistory(Case& c) {
    auto& g = c.rng;
    typedef typename List::cb_type Cb;
    struct Item { int id, who; bool answer; };
    std::vector<Call> calls;
    std::deque<List> lists(2);
    std::vector<Item> model[2];
    typedef ScopedIdentifiedElement<Cb> Scoped;
    struct Sc { std::unique_ptr<Scoped> s; int list, who; };
    std::vector<Sc> scoped;
    std::map<int, bool> answers; int throwing = -1;
    int next = 0; bool forwarded = false;
    auto observer = [&](int who) { return [&calls, &answers, &throwing, who](double a, const std::string& b) { calls.push_back({who, a, b}); if (who == throwing) throw Fault(); return answers[who]; }; };
    for (int k = 0; k < 40; ++k) {
        int l = g.i(0, 1), op = g.i(0, 9);
        auto& m = model[l];
        if (op <= 2) {
            int who = next++; answers[who] = g.chance(.3);
            int id = lists[l].add(observer(who));
            for (auto& i : m) c.require(i.id != id, "id", "the identifier " + std::to_string(id) + " is given to two observers");
            m.push_back({id, who, answers[who]}); c.desc << " +" << l << ":" << who; c.count("added");
        }
        else if (op == 3 && !m.empty()) {
            unsigned i = g.u(0, unsigned(m.size() - 1));
            int who = m[i].who; bool isScoped = false; for (auto& s : scoped) if (s.who == who) isScoped = true;
            if (isScoped || m[i].who < 0) continue;
            lists[l].remove(m[i].id); c.desc << " -" << l << ":" << who; m.erase(m.begin() + i); c.count("removed");
        }
        else if (op == 4) {
            int who = next++; answers[who] = g.chance(.3);
            auto e = makeScopedIdentifiedElement(lists[l], observer(who));
            std::unique_ptr<Scoped> p(new Scoped(std::move(e)));
            // its identifier is not known: it is found by order
            m.push_back({-1, who, answers[who]}); scoped.push_back({std::move(p), l, who}); c.desc << " s" << l << ":" << who; c.count("scoped");
        }
        else if (op == 5 && !scoped.empty()) {
            unsigned i = g.u(0, unsigned(scoped.size() - 1));
            auto& mm = model[scoped[i].list]; int who = scoped[i].who;
            c.desc << " f" << who;
            if (g.chance(.5)) { scoped[i].s->finish(); scoped[i].s->finish(); }
            else if (g.chance(.5)) { std::unique_ptr<Scoped> q(new Scoped(std::move(*scoped[i].s))); scoped[i].s.reset(); }
            scoped.erase(scoped.begin() + i);
            mm.erase(std::find_if(mm.begin(), mm.end(), [&](const Item& x) { return x.who == who; }));
        }
        else if (op == 6 && g.chance(.2)) {
            bool any = false; for (auto& s : scoped) if (s.list == l) any = true;
            if (any) continue;
            bool fw = false; for (auto& i : m) if (i.who < 0) fw = true;
            lists[l].clear(); m.clear(); if (fw) forwarded = false; c.desc << " clear" << l;
        }
        else if (op == 7 && !forwarded && l == 0 && g.chance(.3)) {
            int id = forwardObservers(lists[0], lists[1]); m.push_back({id, -1, false}); forwarded = true; c.desc << " fwd"; c.count("forwarding");
        }
        else {
            double a = g.uni(-1, 1); std::string b = std::to_string(g.i(0, 99));
            bool faulty = g.chance(.15) && next > 0; throwing = faulty ? g.i(0, next - 1) : -1;
            std::vector<Call> want; bool wantAny = false, wantThrow = false;
            std::function<void(int)> expand = [&](int l) { for (auto& i : model[l]) { if (wantThrow) return; if (i.who < 0) expand(1); else { want.push_back({i.who, a, b}); wantAny = wantAny || i.answer; if (i.who == throwing) wantThrow = true; } } };
            expand(l);
            calls.clear(); bool got = false, thrown = false;
            const List& cl = lists[l];
            try { got = call(cl, a, b, std::integral_constant<bool, Terminating>()); } catch (const Fault&) { thrown = true; }
            if (thrown != wantThrow) c.die("throw", wantThrow ? "an exception thrown by an observer was lost" : "an unexpected exception");
            if (!(calls == want)) { std::string s; for (auto& x : calls) s += std::to_string(x.who) + " "; s += " instead of "; for (auto& x : want) s += std::to_string(x.who) + " "; c.die("calls", "the observers called are " + s); }
            if (Terminating && !thrown) c.require(got == wantAny, "answer", "the answer is " + std::to_string(got));
            c.desc << " !" << l << (faulty ? "x" : ""); c.count("notifications"); c.count("calls", long(calls.size())); if (thrown) c.count("throwing observers");
            c.nontrivial(std::to_string(want.size()) + "," + std::to_string(wantAny) + std::to_string(thrown) + std::to_string(g.u64() % 16));
            throwing = -1;
        }
        for (int q = 0; q < 2; ++q) {
            c.require(lists[q].empty() == model[q].empty(), "empty", "list " + std::to_string(q));
            c.require(size_t(std::distance(lists[q].begin(), lists[q].end())) == model[q].size(), "size", "list " + std::to_string(q) + " has a wrong number of elements");
            // identifiers of elements added by scope: learnt from the list, they must not change
            size_t i = 0; for (auto& e : lists[q]) { auto& it = model[q][i++]; if (it.id == -1) it.id = e.first; c.require(it.id == e.first, "id-changed", "the identifier of an element changed"); }
        }
    }
    scoped.clear();
    for (int q = 0; q < 2; ++q) { size_t own = 0; for (auto& i : model[q]) { (void)i; ++own; } (void)own; }
}
} // namespace
namespace {
void observers(Case& c) { listHistory<Observers<double, const std::string&>, false>(c); }
void terminating(Case& c) { listHistory<TerminatingObservers<double, const std::string&>, true>(c); }

CTM_DEF_NOTIFIED_PROP_CLASS(Holder, std::shared_ptr<int>, std::shared_ptr<int>, value, setValue, onChange, offChange)
CTM_DEF_PROP_CLASS(Plain, std::string, const std::string&, text, setText)
CTM_DEF_PROP_REF_CLASS(Ref, std::vector<int>, items, constItems)
class Fields {
    CTM_DECL_THIS_CLASS_ALIAS(Fields)
    CTM_DECL_SIMPLE_CLASS_FIELD(int, a, setA, 7)
    CTM_DECL_SIMPLE_CLASS_FIELD(std::string, b, setB, "x")
};
template<class F> int add0(Holder& h, F f) { return h.onChange_0(f); }
template<class F> int add1(Holder& h, F f) { return h.onChange_1(f); }
template<class F> int addF(Holder& h, F f) { return h.onChange(f); }
void rem(Holder& h, int id) { h.offChange(id); }
typedef ctm::math::VectorData<double> VD;
typedef ctm::math::OdeRhsHolder<VD> RhsHolder;
template<class F> int add0(RhsHolder& h, F f) { return h.onOdeRhsChanged_0(f); }
template<class F> int add1(RhsHolder& h, F f) { return h.onOdeRhsChanged_1(f); }
template<class F> int addF(RhsHolder& h, F f) { return h.onOdeRhsChanged(f); }
void rem(RhsHolder& h, int id) { h.offOdeRhsChanged(id); }
struct R0 : ctm::math::OdeRhs<VD> {
    unsigned secondOrderVarCount() const override { return 0; }
    unsigned firstOrderVarCount() const override { return 1; }
    void rhs(V&, real_type, const V&) const override {}
};
template<class H, class Set, class Get, class Mk> void holderHistory(Case& c, H& h, Set set, Get get, Mk mk) {
    auto& g = c.rng;
    struct Ob { int id, who, kind; };
    std::vector<Ob> model; std::vector<std::pair<int, const void*>> calls;
    int next = 0;
    auto now = get(h);
    c.require(!now, "initial", "the initial value is not empty");
    for (int k = 0; k < 40; ++k) {
        int op = g.i(0, 5);
        if (op == 0 && model.size() < 12) {
            int who = next++, kind = g.i(0, 3), id = 0;
            auto rec = [&calls, who, &h, get](const void* p) { calls.push_back({who, p}); };
            typedef decltype(now) P;
            switch (kind) {
            case 0: id = add0(h, [rec, &h, get]() { rec(get(h).get()); }); break;
            case 1: id = add1(h, std::function<void(P)>([rec, &h, get](P p) { rec(p == get(h) ? p.get() : nullptr); })); break;
            case 2: id = addF(h, [rec, &h, get]() { rec(get(h).get()); }); break;
            default: id = addF(h, [rec](P p) { rec(p.get()); });
            }
            for (auto& o : model) c.require(o.id != id, "id", "an identifier is given to two observers");
            model.push_back({id, who, kind}); c.desc << " +" << who << "/" << kind; c.count("added");
        }
        else if (op == 1 && !model.empty()) { unsigned i = g.u(0, unsigned(model.size() - 1)); rem(h, model[i].id); c.desc << " -" << model[i].who; model.erase(model.begin() + i); c.count("removed"); }
        else {
            auto v = g.chance(.2) ? now : g.chance(.1) ? decltype(now)() : mk();
            calls.clear();
            set(h, v); now = v;
            std::vector<std::pair<int, const void*>> want; for (auto& o : model) want.push_back({o.who, v.get()});
            c.desc << " =" << (v ? 1 : 0);
            if (calls != want) { std::string s; for (auto& x : calls) s += std::to_string(x.first) + " "; c.die("calls", "on a change the observers called are " + s + " of " + std::to_string(want.size()) + ", or they got a wrong value"); }
            c.count("notifications"); c.count("calls", long(calls.size()));
        }
        c.require(get(h) == now, "value", "the property does not have the value set");
    }
    c.nontrivial(std::to_string(model.size()) + "h" + std::to_string(g.u64() % 64));
}
void holders(Case& c) {
    auto& g = c.rng;
    if (g.chance(.5)) { Holder h; holderHistory(c, h, [](Holder& h, std::shared_ptr<int> v) { h.setValue(v); }, [](const Holder& h) { return h.value(); }, [] { return std::make_shared<int>(1); }); }
    else { RhsHolder h; holderHistory(c, h, [](RhsHolder& h, std::shared_ptr<ctm::math::OdeRhs<VD>> v) { h.setOdeRhs(v); }, [](const RhsHolder& h) { return h.odeRhs(); }, [] { return std::shared_ptr<ctm::math::OdeRhs<VD>>(std::make_shared<R0>()); }); }
    Plain p, p2("q"); Ref r, r2(std::vector<int>{1}); Fields f;
    c.require(p.text().empty() && p2.text() == "q" && r.constItems().empty() && r2.items().size() == 1 && f.a() == 7 && f.b() == "x", "defaults", "a property does not start with its initial value");
    for (int k = 0; k < 10; ++k) {
        std::string s = std::to_string(g.i(0, 99999)); int i = g.i(-99, 99);
        p.setText(s); r.items().push_back(i); f.setA(i).setB(s);
        c.require(p.text() == s && p.textConstRef() == s && r.constItems().back() == i && int(r.constItems().size()) == k + 1 && f.a() == i && f.b() == s && p2.text() == "q" && r2.constItems().size() == 1, "property", "a property does not have the value set");
        c.count("plain properties");
    }
}
void run(Ctx& ctx) {
    ctx.rule("every notification calls exactly the present observers, in the order of addition, with the arguments; answers are combined; scoped observers leave with their scope; properties hold the last value and tell everyone");
    ctx.expectAtLeast("notifications", 5000); ctx.expectAtLeast("scoped", 1000); ctx.expectAtLeast("throwing observers", 100); ctx.expectAtLeast("forwarding", 50);
    ctx.section("observers", 800, 40000, observers);
    ctx.section("terminating", 800, 40000, terminating);
    ctx.section("holders", 600, 30000, holders);
}
}
VF_MAIN(run)
