// C19: parameters and configuration trees.
#include "cfg_common.h"
#include "ode_num_int/ode/interfaces/ErrorNormCalculator.h"
#include "ode_num_int/ode/interfaces/ExtrapolatorStepSequence.h"
#include "ode_num_int/ode/interfaces/OdeInitState.h"
using namespace vf;
using namespace ctm;
using namespace ctm::math;
typedef OptionalParameters::Path Path;

namespace {
// --- reference model of a parameter tree -------------------------------------
struct Node {
    std::string text;
    bool nested = false;
    std::map<std::string, Node> kids;
};
Node nodeOf(const PValue& v) {
    Node n; n.text = v.value<std::string>();
    if (auto p = v.nestedParameters()) { n.nested = true; for (auto& k : *p) n.kids[k.first] = nodeOf(k.second); }
    return n;
}
Node nodeOf(const Params& p) { Node n; n.nested = true; for (auto& k : p) n.kids[k.first] = nodeOf(k.second); return n; }
std::string diff(const Node& a, const Node& b, const std::string& at = "") {
    if (a.text != b.text) return at + ": '" + a.text + "' instead of '" + b.text + "'";
    if (a.nested != b.nested) return at + (a.nested ? ": unexpected nested parameters" : ": nested parameters are missing");
    for (auto& k : b.kids) if (!a.kids.count(k.first)) return at + "." + k.first + " is missing";
    for (auto& k : a.kids) {
        auto i = b.kids.find(k.first);
        if (i == b.kids.end()) return at + "." + k.first + " is unexpected";
        auto d = diff(k.second, i->second, at + "." + k.first);
        if (!d.empty()) return d;
    }
    return "";
}
std::string show(const Node& n) { std::string r = n.text; if (n.nested) { r += "{"; for (auto& k : n.kids) r += " " + k.first + "=" + show(k.second); r += " }"; } return r; }

// --- the kinds of components a parameter can hold ------------------------------
struct Kind {
    std::vector<std::string> (*types)();
    PValue (*make)(const std::string&);
    PValue (*convert)(const PValue&);      // Value -> instance -> Value
    PValue (*help)(const std::string&);
    std::string (*about)(const std::string&);
    bool mayBeNull;
};
template<class I> struct KindOf {
    static std::vector<std::string> types() { return Factory<I>::registeredTypes(); }
    static PValue make(const std::string& id) { return PValue(Factory<I>::newInstance(id)); }
    static PValue convert(const PValue& v) { return PValue(v.value<std::shared_ptr<I>>()); }
    static PValue help(const std::string& id) { return OptionalParameters::appendNestedHelp(Factory<I>::newInstance(id), "purpose"); }
    static std::string about(const std::string& id) { auto p = std::dynamic_pointer_cast<OptionalParameters>(Factory<I>::newInstance(id)); return p ? p->helpOnType() : std::string(); }
    static Kind kind(bool null) { Kind k; k.types = &types; k.make = &make; k.convert = &convert; k.help = &help; k.about = &about; k.mayBeNull = null; return k; }
};
const std::map<std::string, Kind>& components() {
    static const std::map<std::string, Kind> m = {
        {"rhs", KindOf<OdeRhs<VD>>::kind(true)}, {"solver", KindOf<OdeSolver<VD>>::kind(true)}, {"reference_solver", KindOf<OdeSolver<VD>>::kind(true)},
        {"predictor", KindOf<OdeSolver<VD>>::kind(true)}, {"eventctl", KindOf<OdeEventController<VD>>::kind(true)},
        {"stepsizectl", KindOf<OdeStepSizeController<VD>>::kind(false)}, {"enorm", KindOf<ErrorNormCalculator<VD>>::kind(false)},
        {"step_sequence", KindOf<ExtrapolatorStepSequence>::kind(false)}, {"algsolver", KindOf<NewtonSolverInterface<VD>>::kind(false)},
        {"ddir", KindOf<NewtonDescentDirection<VD>>::kind(false)}, {"jacobian", KindOf<JacobianProvider<VD>>::kind(false)},
        {"jtrim", KindOf<JacobianTrimmer<VD>>::kind(true)}, {"linsearch", KindOf<NewtonLinearSearch<VD>>::kind(false)},
        {"err", KindOf<ErrorEstimator<VD>>::kind(false)}, {"itperf", KindOf<NewtonIterationPerformer<VD>>::kind(false)},
        {"reorder", KindOf<VectorBijectiveMapping<VD>>::kind(true)}, {"regularizer", KindOf<NewtonRegularizationStrategy<VD>>::kind(true)},
        {"output_stats", KindOf<OdeSolverOutputOption<VD>>::kind(true)}, {"output_con", KindOf<OdeSolverOutputOption<VD>>::kind(true)},
        {"output_file", KindOf<OdeSolverOutputOption<VD>>::kind(true)}, {"init_state", KindOf<OdeInitState<VD>>::kind(true)}};
    return m;
}
const std::set<std::string> unsignedNames = {"n", "max_iterations", "max_stages", "max_steps", "size_half_lim", "lazy_iterations", "predictor_steps", "width"};
bool isInt(const std::string& s) { size_t i = !s.empty() && (s[0] == '+' || s[0] == '-'); if (i >= s.size()) return false; for (; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') return false; return true; }
// the documented form of numbers
bool isNum(const std::string& s) {
    size_t i = 0, n = s.size();
    if (i < n && (s[i] == '+' || s[i] == '-')) ++i;
    size_t d = 0;
    while (i < n && isdigit((unsigned char)s[i])) { ++i; ++d; }
    if (i < n && s[i] == '.') { ++i; while (i < n && isdigit((unsigned char)s[i])) { ++i; ++d; } }
    if (!d) return false;
    if (i < n && (s[i] == 'e' || s[i] == 'E')) {
        ++i; if (i < n && (s[i] == '+' || s[i] == '-')) ++i;
        size_t e = 0; while (i < n && isdigit((unsigned char)s[i])) { ++i; ++e; }
        if (!e) return false;
    }
    return i == n;
}
enum LeafKind { Bool, Unsigned, Number, Enum, Text };
const std::map<std::string, std::vector<std::string>>& enums() {
    static const std::map<std::string, std::vector<std::string>> m = {{"mode", {"low", "high"}}, {"friction", {"atan", "tabular", "linear"}}};
    return m;
}
LeafKind leafKind(const std::string& name, const std::string& text) {
    if (enums().count(name)) return Enum;
    if (name == "file_name" || name == "simout_basename") return Text;
    if (text == "true" || text == "false") return Bool;
    if (unsignedNames.count(name) || name == "size") return Unsigned;
    if (isNum(text)) return Number;
    return Text;
}
// A new acceptable value for a leaf, and the text it must then have
PValue newLeaf(Rng& g, const std::string& name, const std::string& text, std::string& want) {
    switch (leafKind(name, text)) {
    case Enum: { std::string v = g.pick(enums().at(name)); want = v; return PValue(v); }
    case Bool: {
        bool b = g.chance(.5); want = b ? "true" : "false";
        switch (g.i(0, 3)) { case 0: return PValue(b); case 1: return PValue(int(b)); case 2: return PValue(std::string(b ? "1" : "0")); default: return PValue(want); }
        }
    case Unsigned: {
        unsigned u = name == "size" || name == "n" ? g.u(0, 6) : g.chance(.8) ? g.u(1, 50) : unsigned(g.u64()); want = std::to_string(u);
        switch (g.i(0, 2)) { case 0: return PValue(u); case 1: return PValue(want); default: return PValue("+" + want); }
        }
    case Number: {
        double d = g.chance(.2) ? double(g.i(1, 100)) : g.chance(.5) ? g.logu(1e-12, 1e3) : g.u01();
        want = PValue(d).value<std::string>();
        if (g.chance(.2)) { char b[64]; std::snprintf(b, sizeof b, g.chance(.5) ? "%.17e" : "%+.18E", d); return PValue(std::string(b)); }
        return PValue(d);
        }
    default: { static const std::vector<std::string> t = {"", "out.txt", "a b", "/nowhere/x.log", "true", "12", "ä.txt", "a.b.c"}; want = g.pick(t); return PValue(want); }
    }
}
bool badLeaf(Rng& g, const std::string& name, const std::string& text, PValue& v) {
    static const std::vector<std::string> num = {"abc", "", "1e", "--1", "0x10", "1,5", "1 ", " 1", ".", "+", "e5", "1.5.2", "nan", "inf", "1e999"};
    static const std::vector<std::string> uns = {"abc", "", "1.5", "-1", "4294967296", "99999999999999999999999", "1e3", " 1", "0x1", "+-1"};
    switch (leafKind(name, text)) {
    case Enum: v = PValue(g.pick(std::vector<std::string>{"", "LOW", "lowest", "atan2", "0"})); return true;
    case Bool: v = PValue(g.pick(std::vector<std::string>{"", "yes", "2", "True", "truefalse", "01", "-1"})); return true;
    case Unsigned: v = PValue(name == "size" ? g.pick(std::vector<std::string>{"-1", "abc", "1.5", ""}) : g.pick(uns)); return true;
    case Number: v = PValue(g.pick(num)); return true;
    default: return false;
    }
}

// All nodes of a tree, as paths
void paths(const Node& n, const Path& at, std::vector<Path>& leaves, std::vector<Path>& comps) {
    for (auto& k : n.kids) {
        Path p = at; p.push_back(k.first);
        if (components().count(k.first)) comps.push_back(p); else leaves.push_back(p);
        paths(k.second, p, leaves, comps);
    }
}
Node& nodeAt(Node& root, const Path& p) { Node* n = &root; for (auto& k : p) n = &n->kids.at(k); return *n; }
std::string dotted(const Path& p) { std::string r; for (auto& k : p) r += (r.empty() ? "" : ".") + k; return r; }
// The values a component has after nested values have been given
void overlay(Node& dst, const Node& given) {
    if (dst.kids.count("size") && given.kids.count("size")) {           // the elements come and go with the size
        unsigned n = unsigned(std::stoul(given.kids.at("size").text));
        Node k = dst; dst.kids.clear(); dst.kids["size"].text = std::to_string(n); dst.kids["time"] = k.kids.at("time");
        for (unsigned i = 0; i < n; ++i) { auto x = "x" + std::to_string(i); if (k.kids.count(x)) dst.kids[x] = k.kids.at(x); else dst.kids[x].text = "0"; }
    }
    for (auto& k : given.kids) {
        auto i = dst.kids.find(k.first);
        if (i == dst.kids.end()) continue;                              // not a parameter: ignored
        if (components().count(k.first)) {
            if (k.second.text.empty()) i->second = Node();
            else {
                Node d = nodeOf(components().at(k.first).make(k.second.text));
                overlay(d, k.second);
                i->second = d;
            }
        }
        else i->second.text = k.second.text;
    }
}

// --- single values ---------------------------------------------------------------
template<class T> bool refused(const PValue& v, std::string& got) { try { T x = v.value<T>(); std::ostringstream o; o << std::setprecision(17) << x; got = o.str(); return false; } catch (const std::exception& e) { return true; } }
void values(Case& c) {
    auto& g = c.rng;
    auto bits = [&] { for (;;) { uint64_t u = g.u64(); double d; std::memcpy(&d, &u, 8); if (std::isnormal(d)) return d; } };
    for (int k = 0; k < 12; ++k) {
        double d = g.chance(.5) ? bits() : g.chance(.5) ? g.sgn() * g.logu(1e-300, 1e300) : g.chance(.5) ? g.uni(-10, 10) : double(g.i(-100000, 100000));
        if (g.chance(.02)) d = 0;
        if (g.chance(.02)) d = std::numeric_limits<double>::max();
        if (g.chance(.02)) d = std::numeric_limits<double>::min();
        PValue v(d), w(v.value<std::string>());
        c.require(v.value<double>() == d, "double", "the value " + num(d) + " comes back as " + num(v.value<double>()) + " (" + v.value<std::string>() + ")");
        c.require(w.value<double>() == d, "double-text", "the value " + num(d) + " written as " + v.value<std::string>() + " is read as " + num(w.value<double>()));
        c.count("numbers");
    }
    for (int k = 0; k < 4; ++k) {
        int i = g.chance(.1) ? std::numeric_limits<int>::min() : g.chance(.1) ? std::numeric_limits<int>::max() : int(g.u64());
        unsigned u = g.chance(.1) ? 0xffffffffu : unsigned(g.u64());
        bool b = g.chance(.5);
        c.require(PValue(i).value<int>() == i, "int", "the value " + std::to_string(i) + " comes back as " + PValue(i).value<std::string>());
        c.require(PValue(u).value<unsigned>() == u, "unsigned", "the value " + std::to_string(u) + " comes back as " + PValue(u).value<std::string>());
        c.require(PValue(b).value<bool>() == b, "bool", "a boolean changed");
        c.require(PValue(i).value<double>() == i, "int-double", "the integer " + std::to_string(i) + " is read as the number " + num(PValue(i).value<double>()));
        std::string got;
        if (i < 0) c.require(refused<unsigned>(PValue(i), got), "negative", "the value " + std::to_string(i) + " was read as unsigned " + got);
        if (u > 0x7fffffffu) c.require(refused<int>(PValue(u), got), "large", "the value " + std::to_string(u) + " was read as int " + got);
        c.count("numbers", 4);
    }
    for (int k = 0; k < 4; ++k) {
        std::string s; unsigned n = g.u(0, 8);
        for (unsigned j = 0; j < n; ++j) s += g.chance(.8) ? g.pick(std::vector<char>{'0', '1', '9', '.', 'e', 'E', '+', '-', ' ', 'x', 'a'}) : char(g.u(1, 255));
        if (g.chance(.4)) { s = g.pick(std::vector<std::string>{"", "+", "-"}) + std::to_string(g.u(0, 999)) + g.pick(std::vector<std::string>{"", ".", ".5", "e2", "e-3", ".25E+1", "e", ".e", "f", " "}); }
        PValue v(s);
        c.require(v.value<std::string>() == s, "string", "the text '" + s + "' comes back as '" + v.value<std::string>() + "'");
        std::string got;
        bool r = refused<double>(v, got);
        if (!isNum(s)) c.require(r, "accepted", "the text '" + s + "' was read as the number " + got);
        else { double d = std::strtod(s.c_str(), nullptr); if (d == 0 || std::isnormal(d)) { c.require(!r && v.value<double>() == d, "number", "the text '" + s + "' was " + (r ? "refused" : "read as " + got)); } else if (std::isinf(d)) c.require(r, "overflow", "the text '" + s + "' was read as the number " + got); }
        r = refused<int>(v, got);
        if (!isInt(s)) c.require(r, "accepted-int", "the text '" + s + "' was read as the integer " + got);
        else c.require(!r && v.value<int>() == std::atoi(s.c_str()), "int-text", "the text '" + s + "' was " + (r ? "refused" : "read as " + got));
        r = refused<bool>(v, got);
        bool t = s == "1" || s == "true", f = s == "0" || s == "false";
        if (!t && !f) c.require(r, "accepted-bool", "the text '" + s + "' was read as the boolean " + got);
        c.count("texts"); c.count(r ? "refused texts" : "accepted texts");
        c.desc << (k ? " | " : "") << s;
        c.nontrivial(s);
    }
    // copies are independent, whatever is nested in them
    Params inner; inner["x"] = g.i(0, 99); inner["y"] = PValue("t", inner);
    PValue a("type", inner), b = a, e; e = a;
    std::string before = textOf(*a.nestedParameters());
    (*b.nestedParameters())["x"] = "changed"; (*b.nestedParameters()->at("y").nestedParameters())["x"] = "changed"; (*e.nestedParameters())["z"] = 1;
    c.require(textOf(*a.nestedParameters()) == before, "copy-shares", "changing a copy of a value changed the original to " + textOf(*a.nestedParameters()));
    b = b.nestedParameters()->at("y");
    c.require(b.value<std::string>() == "t" && b.nestedParameters() && b.nestedParameters()->at("x").value<std::string>() == "changed", "self-assignment", "assigning a value from within itself lost it");
}

// --- components of every registered type -----------------------------------------
void componentRoundTrip(Case& c) {
    auto& g = c.rng;
    static std::vector<std::string> names; if (names.empty()) for (auto& k : components()) names.push_back(k.first);
    std::string name = g.pick(names);
    auto& kind = components().at(name);
    auto types = kind.types();
    if (types.empty()) return;
    std::string id = g.pick(types);
    c.desc << name << "=" << id;
    PValue v = kind.make(id);
    c.require(v.value<std::string>() == id, "type-id", "an instance of '" + id + "' calls itself '" + v.value<std::string>() + "'");
    auto reg = v.typeRegistryGetter();
    c.require(bool(reg) && reg() == types, "registry", "the value does not give the registered types");
    Node model = nodeOf(v);
    for (int round = 0; round < 3; ++round) {
        std::vector<Path> leaves, comps; paths(model, Path(), leaves, comps);
        Params given; std::string what;
        // a few changes at the top level of the component
        unsigned m = g.u(1, 3);
        for (unsigned k = 0; k < m && !model.kids.empty(); ++k) {
            auto it = model.kids.begin(); std::advance(it, long(g.u(0, unsigned(model.kids.size() - 1))));
            std::string key = it->first;
            if (given.count(key) || key == "size" || key == "itperf") continue;
            if (components().count(key)) {
                auto t = components().at(key).types();
                if (t.empty()) continue;
                std::string tid = g.pick(t);
                Params in; Node d = nodeOf(components().at(key).make(tid)), gv;
                for (auto& q : d.kids) if (!components().count(q.first) && g.chance(.4) && q.first != "size") { std::string want; in[q.first] = newLeaf(g, q.first, q.second.text, want); gv.kids[q.first].text = want; }
                in["not_a_parameter"] = 1;
                given[key] = PValue(tid, in);
                gv.text = tid; Node top; top.kids[key] = gv; overlay(model, top);
                what += " " + key + "=" + tid + "{" + textOf(in) + " }";
            }
            else { std::string want; given[key] = newLeaf(g, key, it->second.text, want); it->second.text = want; what += " " + key + "=" + given[key].value<std::string>(); }
        }
        c.desc << "; given" << what;
        Node now;
        PValue cur(id, Params());
        // hand the present parameters over to a new instance, with the changes
        { Params all = v.safeNestedParameters(); for (auto& k : given) all[k.first] = k.second; cur = v.nestedParameters() ? PValue(id, all) : PValue(id); }
        v = kind.convert(cur);
        auto d = diff(nodeOf(v), model, name);
        if (!d.empty()) c.die("parameters", "after " + what + ": " + d);
        PValue again = kind.convert(v);
        d = diff(nodeOf(again), model, name);
        if (!d.empty()) c.die("round-trip", "a new instance with the same parameters: " + d);
        c.count("instances", 2); c.count("changes", long(given.size()));
    }
    // help
    PValue h = kind.help(id);
    std::string t = h.value<std::string>();
    c.require(t.find("purpose") == 0, "help", "the help does not begin with the text given");
    for (auto& x : types) c.require(t.find("\n" + std::string(x == id ? "* " : "  ") + x) != std::string::npos, "help-types", "the help does not list '" + x + "': " + t);
    std::string about = kind.about(id);
    if (!about.empty()) { c.require(t.find(about) != std::string::npos, "help-about", "the help does not tell what '" + id + "' is: " + t); c.count("types with help"); }
    Node initial = nodeOf(kind.make(id));
    for (auto& k : h.safeNestedParameters()) {
        c.require(initial.kids.count(k.first) > 0, "help-key", "help on '" + k.first + "', which is not a parameter of '" + id + "'");
        c.require(!k.second.value<std::string>().empty(), "help-empty", "empty help on '" + k.first + "'");
        c.count("help entries");
    }
    c.nontrivial(name + id + std::to_string(g.u64() % 64));
}

// --- histories of settings of a configuration -------------------------------------
void history(Case& c) {
    auto& g = c.rng;
    Config cfg;
    const ComponentConfiguration& cc = cfg;
    Node model = nodeOf(cc.parameters());
    c.require(model.kids.at("solver").text == "rk4" && model.kids.at("rhs").text.empty() && model.kids.at("time").text == "0.001" && model.kids.at("output_timing").text == "0", "initial", "the initial configuration is " + show(model));
    unsigned n = g.u(4, 9);
    for (unsigned k = 0; k < n; ++k) {
        std::vector<Path> leaves, comps; paths(model, Path(), leaves, comps);
        Path p; PValue v; std::string want, what; bool mustFail = false; Node expect = model;
        Params snapshot = cc.parameters(); std::string snapText = textOf(snapshot);
        int op = g.i(0, 99);
        if (op < 30) {                              // a leaf
            p = g.pick(leaves);
            std::string name = p.back(); Node& leaf = nodeAt(expect, p);
            v = newLeaf(g, name, leaf.text, want);
            if (name == "size") { Path q = p; q.pop_back(); Node given; given.kids["size"].text = want; overlay(nodeAt(expect, q), given); }
            else leaf.text = want;
            what = "leaf";
        }
        else if (op < 55) {                         // a component
            do p = g.pick(comps); while (p.back() == "itperf");
            auto& kind = components().at(p.back());
            auto types = kind.types();
            Node& at = nodeAt(expect, p);
            int how = g.i(0, 3);
            if (types.empty() || (kind.mayBeNull && p != Path{"solver"} && how == 0)) { v = PValue(""); at = Node(); what = "null"; }
            else {
                std::string id = g.pick(types);
                Node d = nodeOf(kind.make(id));
                if (how <= 1) { v = PValue(id); at = d; what = "type"; }
                else {
                    Params in; Node gv;
                    for (auto& q : d.kids) if (!components().count(q.first) && q.first != "size" && g.chance(.4)) { std::string w; in[q.first] = newLeaf(g, q.first, q.second.text, w); gv.kids[q.first].text = w; }
                    if (g.chance(.3)) in["unknown"] = 3;
                    v = PValue(id, in);
                    overlay(d, gv); at = d; what = "type with parameters";
                    if (how == 3) { v = kind.convert(v); what = "instance"; }
                }
            }
        }
        else if (op < 70) {                         // a bad value
            for (int t = 0; t < 50 && !mustFail; ++t) { p = g.pick(leaves); mustFail = badLeaf(g, p.back(), nodeAt(model, p).text, v); }
            if (!mustFail) continue;
            what = "bad value";
        }
        else if (op < 80) {                         // a bad type, or a bad value nested in an acceptable one
            p = g.pick(comps); mustFail = true;
            auto types = components().at(p.back()).types();
            if (g.chance(.5) || types.empty()) { v = PValue(g.pick(std::vector<std::string>{"nonsense", "RK4", "rk4 ", "1", "newtonn"})); what = "bad type"; }
            else {
                std::string id = g.pick(types);
                Node d = nodeOf(components().at(p.back()).make(id));
                Params in; bool bad = false;
                for (auto& q : d.kids) if (!components().count(q.first) && !bad) { PValue b; if (g.chance(.5) && badLeaf(g, q.first, q.second.text, b)) { in[q.first] = b; bad = true; } else if (g.chance(.3)) { std::string w; in[q.first] = newLeaf(g, q.first, q.second.text, w); } }
                if (!bad) { v = PValue("nonsense"); what = "bad type"; }
                else { v = PValue(id, in); what = "bad nested value {" + textOf(in) + " }"; }
            }
        }
        else {                                      // a path that does not exist
            mustFail = true; v = PValue(1); what = "bad path";
            switch (g.i(0, 3)) {
            case 0: p = {"nonsense"}; break;
            case 1: p = g.pick(leaves); p.push_back("x"); break;
            case 2: p = g.pick(comps); p.push_back("nonsense"); break;
            default: p = Path(); break;
            }
        }
        bool byVector = g.chance(.5);
        c.desc << "; " << what << " " << dotted(p) << "=" << v.value<std::string>() << (v.nestedParameters() ? "{" + textOf(*v.nestedParameters()) + " }" : "") << (byVector ? " (v)" : "");
        bool thrown = false; std::string msg;
        try { if (byVector) cc.setValue(p, v); else cc.setValue(dotted(p), v); }
        catch (const std::exception& e) { thrown = true; msg = e.what(); }
        if (mustFail && !thrown) c.die("not-refused", what + " at '" + dotted(p) + "' was accepted");
        if (!mustFail && thrown) c.die("refused", what + " at '" + dotted(p) + "': " + msg);
        if (!mustFail) model = expect;
        if (g.chance(.3)) {                         // help is there at once, and is that of the present components
            auto& top = components(); Node& m = model.kids.at("solver");
            std::string text = cc.helpOnValue("solver"), about = m.text.empty() ? "" : top.at("solver").about(m.text);
            c.require(text.find(about) != std::string::npos && text.find(m.text.empty() ? "rk4" : "* " + m.text) != std::string::npos, "help-now", "the help on the solver " + m.text + " is: " + text);
            std::string one = m.kids.count("stepsizectl") ? "solver.stepsizectl" : "rhs", h1 = cc.helpOnValue(one); cc.parameters();
            c.require(cc.helpOnValue(one) == h1, "help-now", "the help on " + one + " changes when the parameters are read, from " + h1);
        }
        auto d = diff(nodeOf(cc.parameters()), model);
        if (!d.empty()) c.die(mustFail ? "failed-set-left-traces" : "tree", "after " + what + " at '" + dotted(p) + "': " + d);
        if (textOf(snapshot) != snapText) c.die("snapshot", "a copy of the parameters changed when '" + dotted(p) + "' was set");
        c.count(mustFail ? "refused settings" : "settings");
        // access by path
        leaves.clear(); comps.clear(); paths(model, Path(), leaves, comps);
        for (int t = 0; t < 4; ++t) {
            Path q = g.pick(t % 2 ? leaves : comps);
            auto& val = g.chance(.5) ? cc.value(q) : cc.value(dotted(q));
            d = diff(nodeOf(val), nodeAt(model, q), dotted(q));
            if (!d.empty()) c.die("value", d);
            c.require(!cc.helpOnValue(dotted(q)).empty(), "help", "no help text for " + dotted(q));
            bool leaf = !nodeAt(model, q).nested, got = true;
            try { auto& pp = g.chance(.5) ? cc.parameters(q) : cc.parameters(dotted(q)); d = diff(nodeOf(pp), [&] { Node x = nodeAt(model, q); x.text = ""; return x; }(), dotted(q)); if (!d.empty()) c.die("parameters", d); }
            catch (const CaseAbort&) { throw; } catch (const std::exception&) { got = false; }
            c.require(got != leaf, "leaf", leaf ? "parameters of the leaf " + dotted(q) : "no parameters at " + dotted(q));
            // names that are not there, among them neighbours of names that are
            Path nq = q; bool below = g.chance(.5);
            if (below) nq.push_back("no_such"); else { std::string& nm = nq[g.u(0, unsigned(nq.size() - 1))]; switch (g.i(0, 4)) { case 0: if (nm.size() > 1) nm.pop_back(); else nm = "!"; break; case 1: nm += "x"; break; case 2: nm = "!"; break; case 3: nm = "~"; break; default: nm.back() = char(nm.back() - 1); } }
            bool exists = true; try { nodeAt(model, nq); } catch (const std::out_of_range&) { exists = false; }
            if (!exists) {
                for (int w = 0; w < 3; ++w) { bool thr = false; try { if (w == 0) cc.value(nq); else if (w == 1) cc.parameters(nq); else cc.parameters(dotted(nq)); } catch (const std::exception&) { thr = true; }
                    c.require(thr, "no-such", "there is something at " + dotted(nq)); }
                c.count("absent paths");
            }
            c.count("accesses", 3);
        }
    }
    // another provider, then other parameters
    {
        struct Prov : OptionalParameters { int k; std::string name; Params last; Params parameters() const override { Params p; p[name] = k; return p; } Params helpOnParameters() const override { Params p; p[name] = "help on " + name; return p; } void setParameters(const Params& p) override { last = p; auto it = p.find(name); if (it != p.end()) k = it->second.value<int>(); } };
        ComponentConfiguration pc;
        c.require(pc.parameters().empty(), "empty", "a configuration without provider has parameters");
        std::shared_ptr<Prov> ps[2];
        for (int k = 0; k < 2; ++k) { ps[k] = std::make_shared<Prov>(); ps[k]->k = g.i(0, 99); ps[k]->name = k ? "b" : "a"; }
        for (int r = 0; r < 4; ++r) {
            int w = r < 2 ? r : g.i(0, 1); auto& q = *ps[w];
            pc.setParameterProvider(ps[w]);
            if (g.chance(.3)) c.require(pc.helpOnValue(q.name) == "help on " + q.name, "provider-help", "the help on " + q.name + " of another provider is " + pc.helpOnValue(q.name));
            if (g.chance(.7)) c.require(pc.parameters().size() == 1 && pc.parameters().count(q.name) && pc.value(q.name).value<int>() == q.k, "provider", "with provider " + q.name + "=" + std::to_string(q.k) + ", the parameters are" + textOf(pc.parameters()));
            int nk = g.i(0, 99); bool thr = false;
            try { pc.setValue(q.name, nk); } catch (const std::exception&) { thr = true; }
            c.require(!thr && q.k == nk && pc.value(q.name).value<int>() == nk, "provider-set", "setting " + q.name + " of another provider to " + std::to_string(nk) + " gave " + std::to_string(q.k));
            c.count("providers");
        }
    }
    // what the configuration hands out is what the tree says
    auto pp = cfg.parameterProvider();
    auto check = [&](const std::string& key, const PValue& v) { auto d = diff(nodeOf(v), model.kids.at(key), key); if (!d.empty()) c.die("provider", d); };
    check("rhs", PValue(pp->odeRhs())); check("solver", PValue(pp->solver())); check("reference_solver", PValue(pp->refSolver()));
    check("time", PValue(pp->odeSolverDuration())); check("output_timing", PValue(pp->odeSolverOutputTiming())); check("simout_basename", PValue(pp->simoutCustomBaseName()));
    check("output_stats", PValue(pp->statisticsOutput())); check("output_con", PValue(pp->stepConsoleOutput())); check("output_file", PValue(pp->stepFileOutput())); check("init_state", PValue(pp->initState()));
    c.nontrivial(show(model));
}

// --- applying a configuration -------------------------------------------------------
void application(Case& c) {
    auto& g = c.rng;
    unsigned n2 = g.u(0, 2), n1 = g.u(n2 ? 0 : 1, 3), n = 2 * n2 + n1;
    auto f = randomHybrid(g, n2, n1, 0, 0, DV(n, .1), c.desc);
    CfgRhs::current() = f;
    Config cfg; Params p;
    bool rhs = g.chance(.85), solver = g.chance(.85), ref = g.chance(.4), init = g.chance(.6);
    unsigned ni = init && g.chance(.3) ? g.u(0, 8) : n, na = !init && g.chance(.4) ? g.u(0, 8) : n;
    double t0 = g.uni(-5, 5), ta = g.uni(-5, 5);
    DV x0 = rndv(g, ni, 1), xa = rndv(g, na, 1);
    if (rhs) p["rhs"] = "vf";
    Params sp; double h = g.logu(1e-4, 1); sp["h_init"] = h;
    std::string sid = g.pick(kinds), rid = g.pick(kinds);
    p["solver"] = solver ? PValue(sid, sp) : PValue("");
    if (ref) p["reference_solver"] = PValue(rid, sp);
    if (init) { Params q; q["size"] = ni; q["time"] = t0; for (unsigned i = 0; i < ni; ++i) q["x" + std::to_string(i)] = x0[i]; p["init_state"] = PValue("specified", q); }
    setAll(cfg, p);
    c.desc << "; rhs " << rhs << " solver " << (solver ? sid : "none") << " ref " << (ref ? rid : "none") << " init " << init << " sizes " << ni << "/" << na << "/" << n << " h " << h;
    bool bad = !solver || (init && !rhs) || (init ? ni != n : rhs && na != n);
    bool thrown = false; std::string msg;
    std::shared_ptr<Components> sc;
    try { sc = std::make_shared<Components>(cfg.apply(std::set<unsigned>(), ta, toV(xa))); } catch (const std::exception& e) { thrown = true; msg = e.what(); }
    if (bad != thrown) c.die("apply", bad ? "an incomplete configuration was applied" : "the configuration was refused: " + msg);
    c.count(bad ? "incomplete configurations" : "applied configurations");
    c.nontrivial(sid + std::to_string(bad) + std::to_string(init) + std::to_string(rhs) + std::to_string(ref) + std::to_string(n));
    if (bad) return;
    auto check = [&](SolverPtr s, const std::string& id, const std::string& who) {
        if (!s) c.die("missing", "no " + who);
        c.require(TypeIdGetter<Solver>::typeId(s) == id, "type", who + " is " + TypeIdGetter<Solver>::typeId(s));
        c.require(s->initialStepSize() == h, "step-size", who + " has the step size " + num(s->initialStepSize()));
        c.require(s->odeRhs() == sc->odeRhs() && bool(sc->odeRhs()) == rhs, "rhs", who + " does not have the right-hand side of the configuration");
        c.require(s->initialTime() == (init ? t0 : ta), "time", who + " starts at " + num(s->initialTime()));
        c.require(fromV(s->initialState()) == (init ? x0 : xa), "state", who + " starts at " + list(fromV(s->initialState())));
    };
    check(sc->solver(), sid, "the solver");
    if (ref) check(sc->refSolver(), rid, "the reference solver"); else c.require(!sc->refSolver(), "ref", "an unexpected reference solver");
    c.require(sc->solver() == cfg.parameterProvider()->solver() && sc->odeRhs() == cfg.parameterProvider()->odeRhs(), "same", "the components are not those of the configuration");
    if (!rhs) { bool t = false; try { solveOde(&cfg, sc.get()); } catch (const std::exception&) { t = true; } c.require(t, "no-rhs", "a solution without right-hand side was made"); }
}

// --- components that are missing -----------------------------------------------------
// A component may be taken away from any place; what is left keeps its parameters and help, a step that needs it is refused, and it can be given back
void missing(Case& c) {
    auto& g = c.rng;
    std::string id = g.pick(kinds);
    unsigned n2 = g.u(0, 1), n1 = g.u(n2 ? 0 : 1, 2), n = 2 * n2 + n1;
    auto f = randomHybrid(g, n2, n1, 0, 0, DV(n, .1), c.desc); f->budget = 200000;
    DV x0 = rndv(g, n, 1); double h = g.logu(1e-4, 1e-2);
    SolverPtr s;
    auto fresh = [&](const Params& p) { s = Factory<Solver>::newInstance(id); s->setParameters(p); };
    auto step = [&](std::string& msg) {
        try { s->setOdeRhs(f); s->setInitialStepSize(h); s->setInitialState(0, toV(x0)); s->doStep(); return fromV(s->initialState()); }
        catch (const Runaway&) { msg = "runaway"; } catch (const std::exception& e) { msg = e.what(); }
        return DV();
    };
    fresh(Params());
    Params all = s->parameters();
    if (all.count("predictor") && g.chance(.5)) all["predictor"] = g.chance(.5) ? "rk4" : "dopri_45";
    if (id == "extrapolator") { all["reference_solver"] = g.pick(std::vector<std::string>{"gragg", "dopri_45", "i_euler"}); }
    if (all.count("disable_error_check") && g.chance(.7)) all["disable_error_check"] = false;
    fresh(all); all = s->parameters();
    Node full = nodeOf(all);
    std::vector<Path> leaves, comps; paths(full, Path(), leaves, comps);
    std::vector<Path> there; for (auto& p : comps) if (!nodeAt(full, p).text.empty()) there.push_back(p);
    if (there.empty()) { c.desc << id << " has no components"; return; }
    Path p = g.pick(there);
    c.desc << "; " << id << " without " << dotted(p);
    std::string type = nodeAt(full, p).text, ok, bad, again;
    DV ref = step(ok);
    Params without = all;
    { Params* q = &without; for (size_t i = 0; i + 1 < p.size(); ++i) q = q->at(p[i]).nestedParameters(); (*q)[p.back()] = ""; if (p.back() == "ddir" && g.chance(.5)) { q->erase("jacobian"); q->erase("jtrim"); } }
    if (g.chance(.5)) fresh(without); else s->setParameters(without);
    Node now = nodeOf(s->parameters());
    try { c.require(nodeAt(now, p).text.empty(), "still-there", dotted(p) + " is '" + nodeAt(now, p).text + "'"); } catch (const std::out_of_range&) { c.die("vanished", dotted(p) + " is not a parameter any more"); }
    { Node a = now, b = full; for (auto x : {&a, &b}) { Path q = p; q.pop_back(); Node& d = nodeAt(*x, q); d.kids.erase(p.back()); if (p.back() == "itperf") for (auto k : {"ddir", "jacobian", "jtrim", "linsearch", "err"}) d.kids.erase(k); if (p.back() == "ddir") d.kids.erase("jacobian"); if (p.back() == "ddir" || p.back() == "jacobian") d.kids.erase("jtrim"); }
      auto d = diff(a, b); if (!d.empty()) c.die("others", "without " + dotted(p) + ": " + d); }
    s->helpOnParameters();
    DV x = step(bad);
    c.count(bad.empty() ? "steps without a component" : "refused steps");
    static const std::set<std::string> needed = {"algsolver", "ddir", "jacobian", "linsearch", "err", "itperf", "stepsizectl", "enorm", "step_sequence", "reference_solver"};
    if (bad.empty() && ok.empty()) c.require(maxAbs(x) < 1e6, "state", "the step without " + dotted(p) + " gave " + list(x));
    if (!bad.empty() && ok.empty() && !needed.count(p.back())) c.die("not-needed", "a step without " + dotted(p) + " is refused: " + bad);
    // given back
    if (g.chance(.5)) s->setParameters(all); else fresh(all);
    auto d = diff(nodeOf(s->parameters()), full);
    if (!d.empty()) c.die("given-back", "after " + dotted(p) + " was given back: " + d);
    DV y = step(again);
    if (again != ok) c.die("given-back-step", "a step with " + dotted(p) + " given back: '" + again + "', before: '" + ok + "'");
    if (y.size() != ref.size()) c.die("given-back-step", "no state after " + dotted(p) + " was given back");
    for (size_t i = 0; i < y.size(); ++i) c.require(same(y[i], ref[i]), "given-back-step", "after " + dotted(p) + " was given back, a step gives " + list(y) + " instead of " + list(ref));
    c.nontrivial(id + dotted(p) + std::to_string(g.u64() % 8));
}

// --- specified initial state --------------------------------------------------------
void specified(Case& c) {
    auto& g = c.rng;
    auto s = Factory<OdeInitState<VD>>::newInstance("specified");
    auto op = std::dynamic_pointer_cast<OptionalParameters>(s);
    DV x; double t = 0;
    for (int k = 0; k < 8; ++k) {
        Params p;
        bool bad = g.chance(.1);
        unsigned n = unsigned(x.size());
        if (g.chance(.6)) { n = g.chance(.2) ? 0 : g.u(0, 20); p["size"] = g.chance(.5) ? PValue(n) : PValue(int(n)); }
        if (bad) p["size"] = g.pick(std::vector<std::string>{"-1", "-2147483648", "abc", "1.5", ""});
        DV y = x; double nt = t;
        if (!bad) { y.resize(n, 0.); if (g.chance(.4)) { nt = g.uni(-9, 9); p["time"] = nt; } }
        unsigned m = g.u(0, 3);
        for (unsigned q = 0; q < m; ++q) { unsigned i = g.u(0, n + 2); double v = g.uni(-9, 9); p["x" + std::to_string(i)] = v; if (!bad && i < y.size()) y[i] = v; }
        c.desc << ";" << textOf(p);
        bool thrown = false; try { op->setParameters(p); } catch (const std::exception&) { thrown = true; }
        if (bad != thrown) c.die("size", bad ? "a bad size was accepted" : "a good size was refused");
        if (!bad) { x = y; t = nt; }
        c.require(s->initialTime() == t, "time", "the time is " + num(s->initialTime()));
        c.require(fromV(s->initialState()) == x, "state", "the state is " + list(fromV(s->initialState())) + " instead of " + list(x));
        Node m2; m2.nested = true; m2.kids["size"].text = std::to_string(x.size()); m2.kids["time"].text = PValue(t).value<std::string>();
        for (unsigned i = 0; i < x.size(); ++i) m2.kids["x" + std::to_string(i)].text = PValue(x[i]).value<std::string>();
        auto d = diff(nodeOf(op->parameters()), m2);
        if (!d.empty()) c.die("parameters", d);
        c.count("initial states");
        c.nontrivial(std::to_string(x.size()) + num(t));
    }
}

void run(Ctx& ctx) {
    registerAll(); registerCfgRhs();
    ctx.rule("values read back, instances made from parameters, configuration trees after settings and refusals, and applied configurations agree with a reference model");
    ctx.expectAtLeast("settings", 300); ctx.expectAtLeast("refused settings", 200); ctx.expectAtLeast("instances", 300); ctx.expectAtLeast("applied configurations", 40); ctx.expectAtLeast("initial states", 400); ctx.expectAtLeast("refused steps", 30);
    ctx.section("value", 300, 20000, values);
    ctx.section("component", 260, 10000, componentRoundTrip);
    ctx.section("history", 240, 10000, history);
    ctx.section("apply", 160, 6000, application);
    ctx.section("missing", 300, 12000, missing);
    ctx.section("specified", 120, 5000, specified);
}
}
VF_MAIN(run)
