// P22: value holders against a model.  P23: generated identifiers against their format and statistics.
#include "common.h"
#include <cmath>
#include "MVault.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <memory>
#include <regex>
#include <set>
#include <thread>
#include <typeindex>
#include <unistd.h>
#include <sys/wait.h>
using namespace vf;
using namespace mvlt;
static std::string S(long n) { return std::to_string(n); }

namespace
{
    // ------------------------------------------------------------------------------------------------ P22
    struct Base
    {
        int a = 0;
        Base(int i = 0) : a(i) {}
        Base(const Base& o) : a(o.a) {}
        Base& operator=(const Base& o) { a = o.a; return *this; }
        virtual ~Base() {}
    };
    struct Derived : Base
    {
        long more[4] = {1, 2, 3, 4};
        Derived(int i = 0) : Base(i) {}
    };
    // a value that owns memory and counts its copies
    struct Res
    {
        static long live, bad;
        std::unique_ptr<int> p;
        unsigned magic = 0xfeedbeef;
        Res(int i = 0) : p(new int(i)) { ++live; }
        Res(const Res& o) : p(new int(*o.p)) { if (o.magic != 0xfeedbeef) ++bad; ++live; }
        Res& operator=(const Res& o) { if (magic != 0xfeedbeef || o.magic != 0xfeedbeef) ++bad; *p = *o.p; return *this; }
        ~Res() { if (magic != 0xfeedbeef) ++bad; magic = 0; --live; }
    };
    long Res::live = 0, Res::bad = 0;
    typedef std::vector<std::string> Strs;
    struct Big { std::array<long, 40> a; };

    // the calls of the custom deleter: text of the value it was given
    std::vector<std::string> deleted;

    enum { T_NONE = -1, T_INT, T_U64, T_I16, T_DBL, T_BOOL, T_STR, T_STRS, T_RES, T_BASE, T_DERIVED, T_PTR, T_CCHAR, T_BIG, T_I8, TYPES };
    int anchors[64];

    template <class T> T make(int i);
    template <> int make<int>(int i) { return i * 7 - 3; }
    template <> std::uint64_t make<std::uint64_t>(int i) { return ~0ull - (uint64_t)i; }
    template <> std::int16_t make<std::int16_t>(int i) { return (std::int16_t)(i * 100 - 3000); }
    template <> double make<double>(int i) { return i * 0.25 - 2; }
    template <> bool make<bool>(int i) { return i % 2 == 0; }
    template <> std::string make<std::string>(int i) { return i % 7 == 0 ? std::string() : i % 5 == 0 ? std::string(300, 'x') + S(i) : "s" + S(i); }
    template <> Strs make<Strs>(int i) { return Strs((size_t)(i % 4), "item " + S(i)); }
    template <> Res make<Res>(int i) { return Res(i); }
    template <> Base make<Base>(int i) { return Base(i); }
    template <> Derived make<Derived>(int i) { Derived d(i); d.more[3] = i; return d; }
    template <> int* make<int*>(int i) { return &anchors[i % 64]; }
    template <> const char* make<const char*>(int i) { return i % 2 ? "one" : "two"; }
    template <> Big make<Big>(int i) { Big b; b.a.fill(i); return b; }
    template <> std::int8_t make<std::int8_t>(int i) { return (std::int8_t)(i - 20); }

    template <class T> std::string img(const T& t);
    template <> std::string img<int>(const int& t) { return "int " + S(t); }
    template <> std::string img<std::uint64_t>(const std::uint64_t& t) { return "u64 " + std::to_string(t); }
    template <> std::string img<std::int16_t>(const std::int16_t& t) { return "i16 " + S(t); }
    template <> std::string img<double>(const double& t) { char b[64]; snprintf(b, 64, "dbl %a", t); return b; }
    template <> std::string img<bool>(const bool& t) { return t ? "bool 1" : "bool 0"; }
    template <> std::string img<std::string>(const std::string& t) { return "str " + t; }
    template <> std::string img<Strs>(const Strs& t) { std::string r = "strs"; for (auto& s : t) r += " " + s; return r; }
    template <> std::string img<Res>(const Res& t) { return "res " + S(*t.p); }
    template <> std::string img<Base>(const Base& t) { return "base " + S(t.a); }
    template <> std::string img<Derived>(const Derived& t) { return "derived " + S(t.a) + " " + S(t.more[3]) + S(t.more[0]); }
    template <> std::string img<int*>(int* const& t) { return "ptr " + S((long)(t - anchors)); }
    template <> std::string img<const char*>(const char* const& t) { return std::string("cchar ") + t; }
    template <> std::string img<Big>(const Big& t) { return "big " + S(t.a[0]) + " " + S(t.a[39]); }
    template <> std::string img<std::int8_t>(const std::int8_t& t) { return "i8 " + S(t); }

    struct Type
    {
        std::type_index ti;
        std::function<std::string(int)> image;                        // of make(i)
        std::function<std::string(int)> text;                         // what Str() has to give
        std::function<void(DataSaver&, int, int)> set;                // 0 plain, 1 with deleter, 2 with a null deleter
        std::function<DataSaver*(int, int)> construct;
        std::function<bool(const DataSaver&, std::string&)> get;      // false and an untouched destination, or the image
        std::function<bool(const DataSaver&)> getUntouched;           // false when a refused read changed the destination
        std::function<void(DataHashMap*, DataMap*, DataMultiHashMap*, DataMultiMap*, const std::string&, int, int, bool)> put; // add or set
        std::function<bool(DataHashMap*, DataMap*, DataMultiHashMap*, DataMultiMap*, const std::string&, bool&, std::string&)> cget;
        std::function<bool(const DataHashMap&)> dummy;
    };
    template <class T> void del(const void* p) { deleted.push_back(img<T>(*static_cast<const T*>(p))); }
    template <class C, class T> void putIn(C& c, const std::string& k, int i, int mode, bool set)
    {
        if (set) { if (mode == 1) c.SetData(k, make<T>(i), del<T>); else if (mode == 2) c.SetData(k, make<T>(i), nullptr); else c.SetData(k, make<T>(i)); }
        else { if (mode == 1) c.AddData(k, make<T>(i), del<T>); else if (mode == 2) c.AddData(k, make<T>(i), nullptr); else c.AddData(k, make<T>(i)); }
    }
    // a value no generated one is equal to, to see whether a destination was touched
    template <class T> T mark() { return make<T>(61); }
    template <> bool mark<bool>() { return true; }

    template <class T> Type type(std::function<std::string(int)> text)
    {
        Type t{typeid(T), [](int i) { return img<T>(make<T>(i)); }, text, {}, {}, {}, {}, {}, {}, {}};
        t.set = [](DataSaver& d, int i, int mode)
        {
            if (mode == 1) d.SetData(make<T>(i), del<T>);
            else if (mode == 2) d.SetData(make<T>(i), nullptr);
            else d.SetData(make<T>(i));
        };
        t.construct = [](int i, int mode) -> DataSaver* { return mode == 1 ? new DataSaver(make<T>(i), del<T>) : mode == 2 ? new DataSaver(make<T>(i), nullptr) : new DataSaver(make<T>(i)); };
        t.get = [](const DataSaver& d, std::string& out)
        {
            T v = mark<T>();
            if (d.GetData(v)) { out = img<T>(v); return true; }
            if (img<T>(v) != img<T>(mark<T>())) throw Violation{"a refused read changed the destination to " + img<T>(v)};
            return false;
        };
        t.put = [](DataHashMap* a, DataMap* b, DataMultiHashMap* c, DataMultiMap* e, const std::string& k, int i, int mode, bool set)
        {
            if (a) putIn<DataHashMap, T>(*a, k, i, mode, set);
            if (b) putIn<DataMap, T>(*b, k, i, mode, set);
            if (c) putIn<DataMultiHashMap, T>(*c, k, i, mode, set);
            if (e) putIn<DataMultiMap, T>(*e, k, i, mode, set);
        };
        t.cget = [](DataHashMap* a, DataMap* b, DataMultiHashMap* c, DataMultiMap* e, const std::string& k, bool& touched, std::string& out)
        {
            T v = mark<T>();
            bool ok = a ? a->GetData(k, v) : b ? b->GetData(k, v) : c ? c->GetData(k, v) : e->GetData(k, v);
            out = img<T>(v);
            touched = out != img<T>(mark<T>());
            return ok;
        };
        return t;
    }
    std::vector<Type>& types()
    {
        static std::vector<Type> t;
        if (!t.empty()) return t;
        auto none = [](int) { return std::string(); };
        t.push_back(type<int>([](int i) { return S(make<int>(i)); }));
        t.push_back(type<std::uint64_t>([](int i) { return std::to_string(make<std::uint64_t>(i)); }));
        t.push_back(type<std::int16_t>([](int i) { return S(make<std::int16_t>(i)); }));
        t.push_back(type<double>([](int i) { char b[64]; snprintf(b, 64, "%.6f", make<double>(i)); return std::string(b); }));
        t.push_back(type<bool>([](int i) { return std::string(make<bool>(i) ? "true" : "false"); }));
        t.push_back(type<std::string>([](int i) { return make<std::string>(i); }));
        t.push_back(type<Strs>(none));
        t.push_back(type<Res>(none));
        t.push_back(type<Base>(none));
        t.push_back(type<Derived>(none));
        t.push_back(type<int*>(none));
        t.push_back(type<const char*>(none));
        t.push_back(type<Big>(none));
        t.push_back(type<std::int8_t>([](int i) { return S(make<std::int8_t>(i)); }));
        return t;
    }

    // model of one holder
    struct Val
    {
        int type = T_NONE;
        std::string image, text;
        bool deleter = false;
        bool operator==(const Val& o) const { return type == o.type && image == o.image && text == o.text && deleter == o.deleter; }
    };
    Val value(int ty, int i, int mode) { Val v; v.type = ty; v.image = types()[ty].image(i); v.text = types()[ty].text(i); v.deleter = mode == 1; return v; }
    std::string show(const Val& v) { return v.type < 0 ? "(empty)" : vf::show(v.image, 40) + (v.deleter ? "+deleter" : ""); }

    // every public view of a holder has to agree with the model
    void audit(Ctx& x, const DataSaver& d, const Val& m, Rng& r, const std::string& name)
    {
        ++x.events;
        if (d.GetDataType() != (m.type < 0 ? std::type_index(typeid(void)) : types()[m.type].ti)) x.fail(name + " has a wrong type, expected " + show(m));
        if (d.Str() != m.text) x.fail(name + " is printed as " + vf::show(d.Str()) + ", expected " + vf::show(m.text));
        std::string out;
        for (int t = 0; t < TYPES; ++t)
        {
            if (t != m.type && !r.chance(25)) continue;
            bool ok = types()[t].get(d, out);
            if (ok != (t == m.type)) x.fail(name + ": reading as type " + S(t) + (ok ? " succeeded" : " was refused") + ", it holds " + show(m));
            if (ok && out != m.image) x.fail(name + " gives " + vf::show(out) + ", expected " + show(m));
            x.cnt(ok ? "reads" : "refused reads");
        }
    }
    // text -> value of the holder's type; false when the type or the text does not allow it
    bool textInto(Val& m, const std::string& s)
    {
        static const std::string digits = "0123456789";
        auto isInt = [&](bool sign) { std::size_t b = sign && s.size() > 1 && s[0] == '-'; return s.size() > b && s.size() < 7 && s.find_first_not_of(digits, b) == std::string::npos; };
        switch (m.type)
        {
        case T_INT: if (!isInt(true)) return false; m.image = img<int>(atoi(s.c_str())); m.text = S(atoi(s.c_str())); return true;
        case T_I16: if (!isInt(true) || atoi(s.c_str()) > 32767 || atoi(s.c_str()) < -32768) return false; m.image = img<std::int16_t>((std::int16_t)atoi(s.c_str())); m.text = S(atoi(s.c_str())); return true;
        case T_U64: if (!isInt(false)) return false; m.image = img<std::uint64_t>((std::uint64_t)atoi(s.c_str())); m.text = S(atoi(s.c_str())); return true;
        case T_DBL: if (!isInt(true)) return false; m.image = img<double>(atoi(s.c_str())); m.text = S(atoi(s.c_str())) + ".000000"; return true;
        case T_BOOL: if (s != "true" && s != "false") return false; m.image = img<bool>(s == "true"); m.text = s; return true;
        case T_STR: m.image = img<std::string>(s); m.text = s; return true;
        default: return false;
        }
    }
    const char* const texts[] = {"1", "-5", "0", "true", "false", "abc", "", "99999", "40000", "-32768", "1x", "-"};

    void expectDeleted(Ctx& x, const std::vector<std::string>& want, const std::string& what)
    {
        if (deleted == want) { deleted.clear(); return; }
        std::string got;
        for (auto& d : deleted) got += vf::show(d, 40) + " ";
        x.fail(what + ": the custom deleter ran " + S((long)deleted.size()) + " times (" + got + "), expected " + S((long)want.size()) + (want.empty() ? "" : " with " + vf::show(want[0], 40)));
    }

    void holders(Ctx& x, Rng& r)
    {
        const int n = r.range(2, 6);
        std::vector<std::unique_ptr<DataSaver>> d(n);
        std::vector<Val> m(n);
        for (auto& p : d) p.reset(new DataSaver());
        const int ops = r.range(15, 90);
        const int few = r.chance(40) ? r.range(1, 3) : TYPES;
        const int firstType = (int)r.below(TYPES);
        for (int o = 0; o < ops; ++o)
        {
            const int i = (int)r.below(n), j = r.chance(12) ? i : (int)r.below(n);
            const int ty = (firstType + (int)r.below(few)) % TYPES, v = (int)r.below(60), mode = r.chance(35) ? 1 : r.chance(20) ? 2 : 0;
            std::vector<std::string> del;
            std::string what;
            switch (r.below(13))
            {
            case 0: case 1: case 2:
                what = "set " + S(i) + " to " + show(value(ty, v, mode));
                types()[ty].set(*d[i], v, mode);
                m[i] = value(ty, v, mode);
                break;
            case 3:
                what = "construct " + S(i) + " from " + show(value(ty, v, mode));
                d[i].reset(types()[ty].construct(v, mode));
                m[i] = value(ty, v, mode);
                break;
            case 4:
                what = "copy construct " + S(i) + " from " + S(j);
                if (i != j) { d[i].reset(new DataSaver(*d[j])); m[i] = m[j]; }
                else { DataSaver* c = new DataSaver(*d[i]); d[i].reset(c); }
                break;
            case 5: case 6: what = "assign " + S(j) + " to " + S(i); *d[i] = *d[j]; m[i] = m[j]; break;
            case 7: what = "swap " + S(i) + " " + S(j); d[i]->Swap(*d[j]); std::swap(m[i], m[j]); break;
            case 8:
                what = "reset " + S(i);
                if (m[i].deleter) del.push_back(m[i].image);
                d[i]->ResetData();
                m[i] = Val();
                break;
            case 9:
            {
                std::string s = texts[r.below(12)];
                what = "text " + vf::show(s) + " into " + S(i);
                bool want = textInto(m[i], s), got = d[i]->SetDataFromString(s);
                if (got != want) x.fail(what + ": returned " + (got ? "true" : "false") + " for a holder of type " + S(m[i].type));
                break;
            }
            case 10: what = "destroy " + S(i); d[i].reset(new DataSaver()); m[i] = Val(); break;
            case 11:
            {
                // a polymorphic value is stored as what it is passed as
                what = "set " + S(i) + " to a base reference";
                Derived q(v);
                Base& b = q;
                d[i]->SetData(b);
                m[i] = value(T_BASE, v, 0);
                break;
            }
            default:
            {
                what = "copies of " + S(i) + " die";
                DataSaver c(*d[i]);
                DataSaver e;
                e = c;
                c.Swap(e);
                audit(x, c, m[i], r, "a copy of " + S(i));
                break;
            }
            }
            x.t(what);
            x.cnt("operations");
            expectDeleted(x, del, what);
            x.cnt("deleter calls", (long)del.size());
            for (int k = 0; k < n; ++k) if (k == i || k == j || r.chance(20)) audit(x, *d[k], m[k], r, "holder " + S(k) + " after " + what);
            if (m[i].type >= 0) x.nontrivial = true;
            std::string st;
            for (auto& q : m) st += show(q) + "|";
            x.states.insert(hashStr(st));
        }
        d.clear();
        expectDeleted(x, {}, "destruction");
        if (Res::live != 0 || Res::bad != 0) x.fail("stored objects: " + S(Res::live) + " still alive, " + S(Res::bad) + " wrong uses after all holders are gone");
    }

    // ---- containers
    template <class C> struct Is { static constexpr bool multi = std::is_same<C, DataMultiHashMap>::value || std::is_same<C, DataMultiMap>::value; };
    template <class C> DataHashMap* asH(C& c) { if constexpr (std::is_same<C, DataHashMap>::value) return &c; else return nullptr; }
    template <class C> DataMap* asM(C& c) { if constexpr (std::is_same<C, DataMap>::value) return &c; else return nullptr; }
    template <class C> DataMultiHashMap* asMH(C& c) { if constexpr (std::is_same<C, DataMultiHashMap>::value) return &c; else return nullptr; }
    template <class C> DataMultiMap* asMM(C& c) { if constexpr (std::is_same<C, DataMultiMap>::value) return &c; else return nullptr; }
    typedef std::multimap<std::string, Val> Model;

    // the holder's public face as text: type, image, text
    std::string face(const DataSaver& d)
    {
        std::string out;
        for (int t = 0; t < TYPES; ++t) if (d.GetDataType() == types()[t].ti) { if (!types()[t].get(d, out)) return "(unreadable)"; return S(t) + ":" + out + ":" + d.Str(); }
        return "(void):" + d.Str();
    }
    std::string face(const Val& v) { return v.type < 0 ? "(void):" : S(v.type) + ":" + v.image + ":" + v.text; }
    template <class C> std::multiset<std::string> faces(C& c)
    {
        std::multiset<std::string> r;
        for (auto& e : c) r.insert(e.first + "=" + face(e.second));
        return r;
    }
    std::multiset<std::string> faces(const Model& m)
    {
        std::multiset<std::string> r;
        for (auto& e : m) r.insert(e.first + "=" + face(e.second));
        return r;
    }

    template <class C> void auditC(Ctx& x, C& c, const Model& m, Rng& r, const std::string& what)
    {
        ++x.events;
        if (c.Size() != m.size()) x.fail(what + ": size " + S((long)c.Size()) + ", expected " + S((long)m.size()));
        if (faces(c) != faces(m)) x.fail(what + ": iteration shows other entries than were stored");
        static const char* const ks[] = {"a", "b", "", "cc"};
        for (auto k : ks)
        {
            if (c.IsData(k) != (m.count(k) != 0)) x.fail(what + ": IsData(" + k + ") is wrong");
            DataSaver d(12345);
            bool got = c.GetDataSaver(k, d);
            if (got != (m.count(k) != 0)) x.fail(what + ": GetDataSaver(" + std::string(k) + ") returned a wrong result");
            auto rg = m.equal_range(k);
            std::set<std::string> cand;
            std::set<std::string> txt;
            std::set<int> tys;
            for (auto it = rg.first; it != rg.second; ++it) { cand.insert(face(it->second)); txt.insert(it->second.text); tys.insert(it->second.type); }
            if (!got) cand.insert("0:int 12345:12345");
            if (!cand.count(face(d))) x.fail(what + ": GetDataSaver(" + std::string(k) + ") gives " + vf::show(face(d)));
            std::string s = "untouched";
            bool gs = c.GetDataAsString(k, s);
            if (gs != got || (gs ? !txt.count(s) : s != "untouched")) x.fail(what + ": GetDataAsString(" + std::string(k) + ") gives " + vf::show(s));
            if (tys.size() <= 1)
            {
                int ty = got && r.chance(70) && *tys.begin() >= 0 ? *tys.begin() : (int)r.below(TYPES);
                bool touched = false;
                std::string out;
                bool ok = types()[ty].cget(asH(c), asM(c), asMH(c), asMM(c), k, touched, out);
                if (!got && ok) x.fail(what + ": GetData of a missing key succeeded");
                bool same = got && *tys.begin() == ty;
                if (same)
                {
                    std::set<std::string> im;
                    for (auto it = rg.first; it != rg.second; ++it) im.insert(it->second.image);
                    if (!ok || !im.count(out)) x.fail(what + ": GetData(" + std::string(k) + ") gives " + vf::show(out));
                }
                else if (touched) x.fail(what + ": a GetData with a wrong type changed the destination");
            }
            if constexpr (Is<C>::multi)
            {
                auto p = c.GetAllData(k);
                std::multiset<std::string> a, b;
                for (auto it = p.first; it != p.second; ++it) a.insert(it->first + face(it->second));
                for (auto it = rg.first; it != rg.second; ++it) b.insert(it->first + face(it->second));
                if (a != b) x.fail(what + ": GetAllData(" + std::string(k) + ") gives other entries");
            }
        }
    }
    // replaces the entry the operation really touched: the model of a multi container does not know which one it is
    template <class C> bool adopt(Model& m, const std::string& k, C& c, const std::function<bool(Val&)>& change)
    {
        auto real = faces(c);
        auto rg = m.equal_range(k);
        for (auto it = rg.first; it != rg.second; ++it)
        {
            Val old = it->second;
            if (!change(it->second)) { it->second = old; continue; }
            if (faces(m) == real) return true;
            it->second = old;
        }
        return false;
    }

    template <class C> void container(Ctx& x, Rng& r)
    {
        C c;
        Model m;
        std::unique_ptr<C> other;
        Model om;
        static const char* const ks[] = {"a", "b", "", "cc"};
        const int few = r.chance(50) ? r.range(1, 3) : TYPES, firstType = (int)r.below(TYPES), ops = r.range(10, 50);
        for (int o = 0; o < ops; ++o)
        {
            std::string k = ks[r.below(4)];
            const int ty = (firstType + (int)r.below(few)) % TYPES, v = (int)r.below(60), mode = r.chance(35) ? 1 : r.chance(20) ? 2 : 0;
            Val val = value(ty, v, mode);
            bool multi = Is<C>::multi;
            std::string what;
            switch (r.below(11))
            {
            case 0: case 1:
                what = "add " + k + " " + show(val);
                types()[ty].put(asH(c), asM(c), asMH(c), asMM(c), k, v, mode, false);
                if (multi || !m.count(k)) m.emplace(k, val);
                break;
            case 2: case 3:
                what = "set " + k + " " + show(val);
                types()[ty].put(asH(c), asM(c), asMH(c), asMM(c), k, v, mode, true);
                if (!m.count(k)) m.emplace(k, val);
                else if (!adopt(m, k, c, [&](Val& q) { q = val; return true; })) x.fail(what + ": the container holds something else");
                break;
            case 4:
            {
                bool empty = r.chance(15);
                std::unique_ptr<DataSaver> d(empty ? new DataSaver() : types()[ty].construct(v, mode));
                if (empty) val = Val();
                what = "add a holder " + k + " " + show(val);
                c.AddDataFromDataSaver(k, *d);
                if (multi || !m.count(k)) m.emplace(k, val);
                break;
            }
            case 5:
            {
                bool empty = r.chance(15);
                std::unique_ptr<DataSaver> d(empty ? new DataSaver() : types()[ty].construct(v, mode));
                if (empty) val = Val();
                what = "set a holder " + k + " " + show(val);
                c.SetDataFromDataSaver(k, *d);
                if (!m.count(k)) m.emplace(k, val);
                else if (!adopt(m, k, c, [&](Val& q) { q = val; return true; })) x.fail(what + ": the container holds something else");
                break;
            }
            case 6:
            {
                std::string s = texts[r.below(12)];
                what = "text " + k + " " + vf::show(s);
                bool got = c.SetDataFromString(k, s);
                if (got)
                {
                    if (!adopt(m, k, c, [&](Val& q) { return textInto(q, s); })) x.fail(what + ": accepted, but the container does not hold it");
                }
                else
                {
                    bool could = m.count(k) != 0;
                    auto rg = m.equal_range(k);
                    for (auto it = rg.first; it != rg.second; ++it) { Val q = it->second; could = could && textInto(q, s); }
                    if (could) x.fail(what + ": refused");
                }
                break;
            }
            case 7:
            {
                what = "erase " + k;
                c.EraseData(k);
                auto got = deleted;
                deleted.clear();
                auto rg = m.equal_range(k);
                bool ok = rg.first == rg.second && got.empty();
                auto real = faces(c);
                for (auto it = rg.first; it != rg.second && !ok; ++it)
                {
                    Model t;
                    for (auto q = m.begin(); q != m.end(); ++q) if (q != it) t.insert(*q);
                    std::vector<std::string> want;
                    if (it->second.deleter) want.push_back(it->second.image);
                    if (faces(t) == real && got == want) { m = t; ok = true; break; }
                }
                if (!ok) x.fail(what + ": the container does not hold what it should, or the custom deleter ran " + S((long)got.size()) + " times");
                break;
            }
            case 8: if (r.chance(30)) { what = "clear"; c.Clear(); m.clear(); } break;
            case 9:
                if (other && r.chance(50)) { what = "assign a copy"; c = *other; m = om; }
                else { what = "copy"; other.reset(new C(c)); om = m; }
                break;
            default: what = "look"; break;
            }
            if (what.empty()) continue;
            x.t(what);
            x.cnt("container operations");
            expectDeleted(x, {}, what);
            auditC(x, c, m, r, what);
            if (other && r.chance(30)) auditC(x, *other, om, r, "the copy after " + what);
            if (!m.empty()) x.nontrivial = true;
        }
    }

    // ------------------------------------------------------------------------------------------------ P23
    typedef std::array<std::uint64_t, 2> Id;
    Id parseUuid(Ctx& x, const std::string& s, const std::string& what)
    {
        bool ok = s.size() == 36;
        Id id{{0, 0}};
        int nib = 0;
        for (std::size_t i = 0; ok && i < 36; ++i)
        {
            if (i == 8 || i == 13 || i == 18 || i == 23) { ok = s[i] == '-'; continue; }
            char c = s[i];
            int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1;
            ok = v >= 0;
            id[nib / 16] = id[nib / 16] << 4 | (std::uint64_t)(v & 15);
            ++nib;
        }
        if (!ok) x.fail(what + " " + vf::show(s) + " has not the canonical form");
        if (s[14] != '4') x.fail(what + " " + s + " has not version 4");
        if (s[19] != '8' && s[19] != '9' && s[19] != 'a' && s[19] != 'b') x.fail(what + " " + s + " has not the RFC 4122 variant");
        ++x.events;
        return id;
    }
    // ids of one generator in order: every free bit is balanced, alone, against the others and against the one before
    void statistics(Ctx& x, const std::vector<Id>& v)
    {
        std::vector<int> bits;
        for (int b = 0; b < 128; ++b) if (!(b >= 48 && b < 52) && !(b >= 64 && b < 66)) bits.push_back(b);
        const std::size_t n = v.size(), words = (n + 63) / 64;
        std::vector<std::vector<std::uint64_t>> col(128, std::vector<std::uint64_t>(words, 0));
        for (std::size_t i = 0; i < n; ++i) for (int b : bits) if (v[i][b / 64] >> (63 - b % 64) & 1) col[b][i / 64] |= 1ull << (i % 64);
        // eight standard deviations: about 1e-15 for each of the 15000 numbers
        const double lim = 8 * std::sqrt((double)n) / 2;
        auto pop = [&](const std::vector<std::uint64_t>& c) { long s = 0; for (auto w : c) s += __builtin_popcountll(w); return s; };
        std::vector<std::uint64_t> tmp(words);
        for (int b : bits)
        {
            long s = pop(col[b]);
            if (std::abs(s - (double)n / 2) > lim) x.fail("bit " + S(b) + " of the identifiers is set in " + S(s) + " of " + S((long)n));
            for (int c : bits)
            {
                if (c <= b) continue;
                for (std::size_t w = 0; w < words; ++w) tmp[w] = col[b][w] ^ col[c][w];
                long d = pop(tmp);
                if (std::abs(d - (double)n / 2) > lim) x.fail("bits " + S(b) + " and " + S(c) + " of the identifiers differ in " + S(d) + " of " + S((long)n));
            }
            long d = 0;
            for (std::size_t i = 1; i < n; ++i) d += (long)((v[i][b / 64] ^ v[i - 1][b / 64]) >> (63 - b % 64) & 1);
            if (std::abs(d - (double)n / 2) > lim) x.fail("bit " + S(b) + " differs from the previous identifier in " + S(d) + " of " + S((long)n));
        }
        x.cnt("bit statistics", (long)(bits.size() * (bits.size() + 3) / 2));
    }
    void unique(Ctx& x, std::vector<Id> v, const std::string& what)
    {
        std::sort(v.begin(), v.end());
        for (std::size_t i = 1; i < v.size(); ++i) if (v[i] == v[i - 1]) x.fail("two equal identifiers among " + S((long)v.size()) + " " + what);
        x.cnt("compared identifiers", (long)v.size());
        x.counts["max_largest_family"] = std::max(x.counts["max_largest_family"], (long)v.size());
    }
    void uuids(Ctx& x, Rng& r)
    {
        x.nontrivial = true;
        const int kind = (int)x.optl("kind", (long)r.below(5));
        if (kind == 0)
        {
            const int n = 4096 + (int)r.below(8192);
            std::vector<Id> v;
            for (int i = 0; i < n; ++i) v.push_back(parseUuid(x, Uuid(), "identifier"));
            unique(x, v, "of one thread");
            statistics(x, v);
            x.t("one thread " + S(n));
        }
        else if (kind == 1)
        {
            // several threads that start together
            const int th = r.range(2, 8), n = r.range(50, 3000);
            std::vector<std::vector<std::string>> got(th);
            std::atomic<int> ready{0};
            std::vector<std::thread> ts;
            for (int t = 0; t < th; ++t) ts.emplace_back([&, t]
            {
                ++ready;
                while (ready.load() < th) std::this_thread::yield();
                for (int i = 0; i < n; ++i) got[t].push_back(i % 17 == 3 ? GenTmpFileName().substr(5) : Uuid());
            });
            for (auto& t : ts) t.join();
            std::vector<Id> v;
            for (auto& g : got) for (auto& s : g) v.push_back(parseUuid(x, s, "identifier"));
            unique(x, v, "of " + S(th) + " threads");
            // the streams interleaved: the same place of different threads
            std::vector<Id> w;
            for (int i = 0; i < n; ++i) for (int t = 0; t < th; ++t) w.push_back(v[(std::size_t)t * n + i]);
            statistics(x, w);
            x.t(S(th) + " threads x " + S(n));
        }
        else if (kind == 2)
        {
            // short-lived threads, and processes forked from one that used the generator before
            const int procs = r.range(2, 6), n = r.range(20, 400);
            Uuid();
            std::vector<Id> v;
            for (int p = 0; p < procs; ++p)
            {
                int fd[2];
                if (pipe(fd)) throw Foreign{"pipe"};
                pid_t c = fork();
                if (c == 0)
                {
                    std::string s;
                    for (int i = 0; i < n; ++i) s += Uuid() + "\n";
                    for (std::size_t o = 0; o < s.size();) { ssize_t w = write(fd[1], s.data() + o, s.size() - o); if (w <= 0) break; o += (std::size_t)w; }
                    _exit(0);
                }
                close(fd[1]);
                std::string s;
                char b[4096];
                for (ssize_t k; (k = read(fd[0], b, sizeof b)) > 0;) s.append(b, (std::size_t)k);
                close(fd[0]);
                int st;
                waitpid(c, &st, 0);
                if (s.size() != (std::size_t)n * 37) throw Foreign{"child"};
                for (int i = 0; i < n; ++i) v.push_back(parseUuid(x, s.substr((std::size_t)i * 37, 36), "identifier"));
            }
            for (int i = 0; i < n; ++i) v.push_back(parseUuid(x, Uuid(), "identifier"));
            for (int t = 0; t < 20; ++t)
            {
                std::string s;
                std::thread q([&] { s = Uuid(); });
                q.join();
                v.push_back(parseUuid(x, s, "identifier"));
            }
            unique(x, v, "of " + S(procs) + " processes and 20 threads");
            x.t(S(procs) + " processes x " + S(n));
        }
        else if (kind == 3)
        {
            // temporary file names
            const int n = r.range(20, 300);
            std::vector<Id> v;
            for (int i = 0; i < n; ++i)
            {
                std::string p;
                for (int k = (int)r.below(12); k > 0; --k) p += r.chance(80) ? (char)('a' + r.below(26)) : "._-% é"[r.below(6)];
                if (r.chance(10)) p = std::string((std::size_t)r.below(500), 'p');
                bool none = p.empty() && r.chance(50);
                std::string f = none ? GenTmpFileName() : GenTmpFileName(p), want = "/tmp/" + p;
                if (f.size() != want.size() + 36 || f.compare(0, want.size(), want) != 0) x.fail("the temporary file name for " + vf::show(p) + " is " + vf::show(f));
                v.push_back(parseUuid(x, f.substr(want.size()), "identifier of a file name"));
                x.t(p);
            }
            unique(x, v, "of file names");
        }
        else
        {
            // hexadecimal form
            for (int i = 0; i < 2000; ++i)
            {
                std::uint64_t d = r.next();
                if (r.chance(50)) d >>= r.below(64);
                if (r.chance(20)) d = 1ull << r.below(64);
                if (i == 0) d = 0;
                char b[32];
                snprintf(b, 32, "%016llx", (unsigned long long)d);
                if (ToHex(d) != b) x.fail("ToHex(" + std::to_string(d) + ") is " + vf::show(ToHex(d)));
                ++x.events;
                x.t(b);
            }
        }
        x.cnt("kind " + S(kind));
    }
    // one large family, to see repeated identifiers of generators with a small state
    void family(Ctx& x, Rng& r)
    {
        x.nontrivial = true;
        const long n = x.optl("family", 300000);
        std::vector<Id> v;
        v.reserve((std::size_t)n);
        for (long i = 0; i < n; ++i) v.push_back(parseUuid(x, Uuid(), "identifier"));
        unique(x, v, "of one family");
        // half of the bits alone must already repeat only as often as chance allows (about n*n/2^62)
        for (int h = 0; h < 2; ++h)
        {
            std::vector<std::uint64_t> w;
            for (auto& i : v) w.push_back(i[h]);
            std::sort(w.begin(), w.end());
            long rep = 0;
            for (std::size_t i = 1; i < w.size(); ++i) rep += w[i] == w[i - 1];
            if (rep > 3) x.fail("the " + std::string(h ? "second" : "first") + " halves of " + S(n) + " identifiers repeat " + S(rep) + " times");
        }
        x.t("family " + S((long)r.below(1000000)));
    }
}

int main(int argc, char** argv)
{
    Ctx x;
    x.parse(argc, argv);
    muteStdout(x.verbose);
    std::cerr.setstate(std::ios::failbit); // refused reads are reported there
    return x.run([&](long c, Rng& r)
    {
        if (x.prop == "P23")
        {
            if (x.opt("family")) family(x, r); else uuids(x, r);
            return;
        }
        deleted.clear();
        Res::bad = 0;
        if (r.chance(50)) holders(x, r);
        else
        {
            switch (r.below(4))
            {
            case 0: container<DataHashMap>(x, r); break;
            case 1: container<DataMap>(x, r); break;
            case 2: container<DataMultiHashMap>(x, r); break;
            default: container<DataMultiMap>(x, r); break;
            }
            expectDeleted(x, {}, "destruction");
            if (Res::live != 0 || Res::bad != 0) x.fail("stored objects: " + S(Res::live) + " still alive, " + S(Res::bad) + " wrong uses after the container is gone");
        }
    });
}
