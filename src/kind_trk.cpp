#include "kinds.h"
#include <mutex>
namespace vf {
namespace {
std::mutex& mtx() { static std::mutex m; return m; }
std::unordered_set<const void*>& reg() { static std::unordered_set<const void*>* r = new std::unordered_set<const void*>(); return *r; }
std::vector<std::string>& errs() { static std::vector<std::string>* e = new std::vector<std::string>(); return *e; }
void born(const Tracked* t)
{
    std::lock_guard<std::mutex> l(mtx());
    if (!reg().insert(t).second) errs().push_back("object constructed over a live object");
}
void check(const Tracked* t, const char* what)
{
    std::lock_guard<std::mutex> l(mtx());
    if (!reg().count(t)) errs().push_back(std::string("dead object used: ") + what);
}
}
long Tracked::live() { std::lock_guard<std::mutex> l(mtx()); return (long)reg().size(); }
void Tracked::reset() { std::lock_guard<std::mutex> l(mtx()); reg().clear(); errs().clear(); }
std::vector<std::string>& Tracked::errors() { return errs(); }
Tracked::Tracked() : p(new int(0)) { born(this); }
Tracked::Tracked(int v) : p(new int(v)) { born(this); }
Tracked::Tracked(const Tracked& o) : p(nullptr) { check(&o, "copied from"); p = new int(o.v()); born(this); }
Tracked::Tracked(Tracked&& o) noexcept : p(nullptr) { check(&o, "moved from"); p = new int(o.v()); born(this); }
Tracked& Tracked::operator=(const Tracked& o) { check(this, "assigned to"); check(&o, "assigned from"); if (this != &o) { int x = o.v(); delete p; p = new int(x); } return *this; }
Tracked& Tracked::operator=(Tracked&& o) noexcept { check(this, "assigned to"); check(&o, "move-assigned from"); if (this != &o) { int x = o.v(); delete p; p = new int(x); } return *this; }
Tracked::~Tracked()
{
    {
        std::lock_guard<std::mutex> l(mtx());
        if (!reg().erase(this)) errs().push_back("object destroyed twice or never constructed");
    }
    delete p;
    p = nullptr;
}
int Tracked::v() const { return *p; }

template <> const std::vector<Tracked>& table<Tracked>()
{
    static const std::vector<Tracked>* t = [] {
        std::vector<Tracked>* r = new std::vector<Tracked>();
        for (int i = -4; i < 20; ++i) r->push_back(Tracked(i));
        return r; }();
    return *t;
}
const KindOps& kind_trk() { static KindOpsT<Tracked>* k = new KindOpsT<Tracked>("Tracked"); return *k; }
}
namespace mvlt {
template <> std::string ToString(const vf::Tracked& t) noexcept { return "T" + std::to_string(t.v()); }
template <> bool FromString(const std::string& s, vf::Tracked& t) noexcept
{
    if (s.size() < 2 || s[0] != 'T') return false;
    int x = 0;
    if (!FromString(s.substr(1), x)) return false;
    t = vf::Tracked(x);
    return true;
}
}
