#pragma once
#include <vector>
namespace vf {
inline std::vector<void(*)()>& registrations() { static std::vector<void(*)()> r; return r; }
inline void registerAll() { static bool done = false; if (done) return; done = true; for (auto f : registrations()) f(); }
}
