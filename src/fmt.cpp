// Output monitors: P16 (JSON), P17 (tables and string dumps).
#include "tytext.h"
#include <sstream>
#include <iostream>
#include <deque>
#include <list>
#include <sys/mman.h>

namespace vf
{
    // user types: one with a text form, one without
    struct Named { std::string s; bool operator==(const Named& o) const { return s == o.s; } bool operator<(const Named& o) const { return s < o.s; } bool operator>(const Named& o) const { return o.s < s; } };
    struct Mute { int n = 0; bool operator==(const Mute& o) const { return n == o.n; } bool operator<(const Mute& o) const { return n < o.n; } bool operator>(const Mute& o) const { return o.n < n; } };
    inline std::string fmtOf(const Named& v) { return v.s; }
    inline void parseTo(const std::string& s, Named& o) { o.s = s; }
    inline Named rndVal(Rng& r, Named*) { return Named{rndText(r)}; }
    inline std::string fmtOf(const Mute& v) { return fmtOf(v.n); }
    inline void parseTo(const std::string& s, Mute& o) { parseTo(s, o.n); }
    inline Mute rndVal(Rng& r, Mute*) { Mute m; m.n = (int)r.below(5); return m; }
}
namespace std
{
    template <> struct hash<vf::Named> { size_t operator()(const vf::Named& v) const { return hash<string>()(v.s); } };
    template <> struct hash<vf::Mute> { size_t operator()(const vf::Mute& v) const { return (size_t)v.n; } };
}
namespace mvlt { template <> std::string ToString(const vf::Named& v) noexcept { return v.s; } }
using namespace vf;

enum { F_I8 = TYS, F_U8, F_NAMED, F_MUTE, FTYS };
static const Ty& fty(int i)
{
    static const TyT<std::int8_t> i8("int8"); static const TyT<std::uint8_t> u8("uint8"); static const TyT<Named> nm("named"); static const TyT<Mute> mt("mute");
    switch (i) { case F_I8: return i8; case F_U8: return u8; case F_NAMED: return nm; case F_MUTE: return mt; default: return ty(i); }
}
static bool isFp(int t) { return t == TY_FLT || t == TY_DBL; }
static bool isNum(int t) { return t != TY_STR && t != TY_BOOL && t < F_NAMED; }
static bool isStr(int t) { return t == TY_STR || t >= F_NAMED; }
static std::string libText(int t, const std::string& s) { return t == F_MUTE ? std::string() : s; }
static int cmpVal(int t, const std::string& a, const std::string& b)
{
    if (t == TY_STR || t == F_NAMED) return a < b ? -1 : b < a ? 1 : 0;
    if (t == TY_BOOL) return (a == "true") - (b == "true");
    long double x = cStrtold(a.c_str(), nullptr), y = cStrtold(b.c_str(), nullptr);
    return x < y ? -1 : y < x ? 1 : 0;
}
static std::string rndOf(Rng& r, int t)
{
    if (isFp(t) && r.chance(6)) return r.chance(50) ? "inf" : "-inf";
    if (r.chance(35) && isNum(t)) return fty(t).rnd(r).substr(0, 2) == "-" ? "0" : r.chance(50) ? (isFp(t) ? "1.000000" : "1") : (isFp(t) ? "2.500000" : "2"); // ties
    std::string s = fty(t).rnd(r);
    if (t == TY_STR || t == F_NAMED)
    {
        if (r.chance(25)) s = r.chance(50) ? "x" : "y";
        if (r.chance(20)) s += (char)r.below(32);
        if (r.chance(10)) s += "\x7f\xe2\x80\xa8\\u0041\\";
        if (r.chance(5)) s += std::string((std::size_t)r.below(80), '|');
    }
    if (t == TY_DBL || t == TY_FLT) { if (s == "-0.000000") s = "0.000000"; }
    return s;
}

struct FCol { std::string name; int t; bool uniq; std::string def; };
struct FRec { std::map<std::string, std::string> v; VaultRecordRef ref; };

// ------------------------------------------------------------ capture of the standard output
struct Capture
{
    int fd, saved = -1;
    Capture() { fd = memfd_create("out", 0); if (fd < 0) throw Foreign{"memfd"}; }
    ~Capture() { close(fd); }
    template <class F> std::string operator()(F f)
    {
        std::cout.flush();
        fflush(stdout);
        saved = dup(1);
        if (ftruncate(fd, 0) != 0 || lseek(fd, 0, SEEK_SET) < 0) throw Foreign{"capture"};
        dup2(fd, 1);
        f();
        std::cout.flush();
        fflush(stdout);
        dup2(saved, 1);
        close(saved);
        std::string s;
        off_t n = lseek(fd, 0, SEEK_END);
        s.resize((std::size_t)n);
        if (n && pread(fd, &s[0], (std::size_t)n, 0) != n) throw Foreign{"capture"};
        return s;
    }
};

// ------------------------------------------------------------ JSON reader (RFC 8259, keeps order and duplicates)
struct J
{
    enum Kind { Obj, Arr, Str, Num, True, False, Null } k = Null;
    std::string s;
    std::vector<std::pair<std::string, J>> m;
    std::vector<J> a;
};
struct JsonReader
{
    const std::string& t;
    std::size_t i = 0;
    std::string err;
    explicit JsonReader(const std::string& x) : t(x) {}
    void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r')) ++i; }
    bool bad(const char* e) { if (err.empty()) err = std::string(e) + " at byte " + std::to_string(i) + ": " + show(t.substr(i > 20 ? i - 20 : 0, 50)); return false; }
    static void utf8(std::string& o, unsigned c)
    {
        if (c < 0x80) o += (char)c;
        else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
        else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    }
    bool hex4(unsigned& c)
    {
        if (i + 4 > t.size()) return bad("short escape");
        c = 0;
        for (int k = 0; k < 4; ++k)
        {
            char h = t[i++];
            c = c * 16 + (h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : 99999u);
            if (c > 0xFFFF) return bad("bad escape");
        }
        return true;
    }
    bool str(std::string& o)
    {
        if (i >= t.size() || t[i] != '"') return bad("string expected");
        ++i;
        while (true)
        {
            if (i >= t.size()) return bad("unterminated string");
            unsigned char c = (unsigned char)t[i];
            if (c == '"') { ++i; return true; }
            if (c < 0x20) return bad("control character in string");
            if (c != '\\') { o += (char)c; ++i; continue; }
            if (++i >= t.size()) return bad("unterminated string");
            char e = t[i++];
            unsigned u, w;
            switch (e)
            {
            case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
            case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
            case 'u':
                if (!hex4(u)) return false;
                if (u >= 0xD800 && u < 0xDC00)
                {
                    if (i + 1 < t.size() && t[i] == '\\' && t[i + 1] == 'u') { i += 2; if (!hex4(w)) return false; u = 0x10000 + ((u - 0xD800) << 10) + (w - 0xDC00); }
                    else return bad("lone surrogate");
                }
                utf8(o, u);
                break;
            default: return bad("unknown escape");
            }
        }
    }
    bool value(J& o, int depth)
    {
        ws();
        if (depth > 8) return bad("too deep");
        if (i >= t.size()) return bad("value expected");
        char c = t[i];
        if (c == '{')
        {
            o.k = J::Obj;
            ++i; ws();
            if (i < t.size() && t[i] == '}') { ++i; return true; }
            while (true)
            {
                std::string k;
                J v;
                ws();
                if (!str(k)) return false;
                ws();
                if (i >= t.size() || t[i] != ':') return bad("colon expected");
                ++i;
                if (!value(v, depth + 1)) return false;
                o.m.emplace_back(k, v);
                ws();
                if (i < t.size() && t[i] == ',') { ++i; continue; }
                if (i < t.size() && t[i] == '}') { ++i; return true; }
                return bad("comma or brace expected");
            }
        }
        if (c == '[')
        {
            o.k = J::Arr;
            ++i; ws();
            if (i < t.size() && t[i] == ']') { ++i; return true; }
            while (true)
            {
                J v;
                if (!value(v, depth + 1)) return false;
                o.a.push_back(v);
                ws();
                if (i < t.size() && t[i] == ',') { ++i; continue; }
                if (i < t.size() && t[i] == ']') { ++i; return true; }
                return bad("comma or bracket expected");
            }
        }
        if (c == '"') { o.k = J::Str; return str(o.s); }
        for (auto& w : {std::make_pair("true", J::True), std::make_pair("false", J::False), std::make_pair("null", J::Null)})
            if (t.compare(i, strlen(w.first), w.first) == 0) { i += strlen(w.first); o.k = w.second; return true; }
        std::size_t b = i;
        if (i < t.size() && t[i] == '-') ++i;
        if (i >= t.size() || !isdigit((unsigned char)t[i])) { i = b; return bad("value expected"); }
        if (t[i] == '0') ++i; else while (i < t.size() && isdigit((unsigned char)t[i])) ++i;
        if (i < t.size() && t[i] == '.') { ++i; if (i >= t.size() || !isdigit((unsigned char)t[i])) return bad("digit expected"); while (i < t.size() && isdigit((unsigned char)t[i])) ++i; }
        if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { ++i; if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i; if (i >= t.size() || !isdigit((unsigned char)t[i])) return bad("digit expected"); while (i < t.size() && isdigit((unsigned char)t[i])) ++i; }
        o.k = J::Num;
        o.s = t.substr(b, i - b);
        return true;
    }
    bool document(J& o)
    {
        if (!value(o, 0)) return false;
        ws();
        return i == t.size() || bad("text after the document");
    }
};

// ------------------------------------------------------------ a vault with its model
struct World
{
    Ctx& x;
    Rng& r;
    Vault v;
    std::vector<FCol> cols;
    std::vector<FRec> recs;
    VaultRecordSet set;
    std::vector<std::size_t> members; // indexes of recs, valid when the set is attached
    bool attached = false;
    World(Ctx& c, Rng& g) : x(c), r(g) {}

    std::string rndKey()
    {
        if (r.chance(50)) return "k" + std::to_string(r.below(7));
        std::string s = rndText(r, '"', 4);
        if (r.chance(15)) s += (char)r.below(32);
        return s;
    }
    void addKey()
    {
        FCol c;
        c.name = rndKey();
        for (auto& e : cols) if (e.name == c.name) return;
        c.t = r.chance(25) ? TY_STR : (int)r.below(FTYS);
        c.uniq = recs.empty() && r.chance(12);
        c.def = c.uniq ? fty(c.t).Zero() : rndOf(r, c.t);
        if (!(c.uniq ? fty(c.t).AddUnique(v, c.name) : fty(c.t).AddKey(v, c.name, c.def))) throw Foreign{"AddKey refused"};
        cols.push_back(c);
        for (auto& e : recs) e.v[c.name] = c.def;
        x.t("add key " + show(c.name) + " " + fty(c.t).name + (c.uniq ? "!" : "") + " default " + show(c.def));
    }
    void create()
    {
        FRec e;
        std::vector<std::pair<std::string, VaultParamInput>> ps;
        std::string tr;
        for (auto& c : cols)
        {
            e.v[c.name] = c.def;
            if (!c.uniq && r.chance(30)) continue;
            e.v[c.name] = rndOf(r, c.t);
            ps.emplace_back(c.name, fty(c.t).Param(e.v[c.name]));
            tr += " " + show(c.name, 20) + "=" + show(e.v[c.name], 40);
        }
        if (!v.CreateRecord(e.ref, ps).IsOperationSuccess) return;
        recs.push_back(e);
        x.t("create" + tr);
    }
    void history()
    {
        if (!r.chance(4)) { int n = r.range(1, 5); for (int i = 0; i < n; ++i) addKey(); }
        int n = r.chance(10) ? 0 : r.chance(10) ? r.range(15, 40) : r.range(1, 8);
        if (r.below(400) == 0) n = r.range(101, 300);
        for (int i = 0; i < n; ++i) create();
        int ops = r.chance(30) ? 0 : r.range(1, 12);
        for (int i = 0; i < ops; ++i)
        {
            int w = (int)r.below(100);
            if (w < 40 && !recs.empty() && !cols.empty())
            {
                FRec& e = r.pick(recs);
                FCol& c = r.pick(cols);
                std::string t = rndOf(r, c.t);
                if (fty(c.t).Set(e.ref, c.name, t)) { e.v[c.name] = t; x.t("set " + show(c.name, 20) + "=" + show(t, 40)); }
            }
            else if (w < 60 && !recs.empty())
            {
                std::size_t k = r.below(recs.size());
                if (!v.EraseRecord(recs[k].ref)) throw Foreign{"erase refused"};
                dropMember(k);
                recs.erase(recs.begin() + (long)k);
                x.t("erase");
            }
            else if (w < 75) create();
            else if (w < 85) addKey();
            else if (w < 92 && !cols.empty())
            {
                std::size_t k = r.below(cols.size());
                if (!v.RemoveKey(cols[k].name)) throw Foreign{"RemoveKey refused"};
                for (auto& e : recs) e.v.erase(cols[k].name);
                x.t("remove key " + show(cols[k].name));
                cols.erase(cols.begin() + (long)k);
            }
            else if (w < 95) makeSet();
            else if (w < 96) { v.DropData(); recs.clear(); members.clear(); x.t("drop data"); }
            else if (w < 97) { Vault o = std::move(v); v = std::move(o); x.t("moved there and back"); }
            else for (int k = 0; k < 3; ++k) create();
        }
        if (r.chance(60)) makeSet();
    }
    void dropMember(std::size_t k)
    {
        std::vector<std::size_t> m;
        for (std::size_t i : members) if (i != k) m.push_back(i > k ? i - 1 : i);
        members = m;
    }
    // the set becomes a random subset of the vault
    void makeSet()
    {
        members.clear();
        attached = true;
        VaultRecordSet s;
        v.Request(mvlt::Equal("no such key \x01", 1), s); // attached and empty
        for (std::size_t i = 0; i < recs.size(); ++i) if (r.chance(60)) { if (!s.AddRecord(recs[i].ref).IsOperationSuccess) throw Foreign{"AddRecord"}; members.push_back(i); }
        if (r.chance(50)) set = s; else set = std::move(s);
        x.t("set of " + std::to_string(members.size()));
    }
    const FCol* col(const std::string& n) const { for (auto& c : cols) if (c.name == n) return &c; return nullptr; }
    std::string cell(const FRec& e, const std::string& key) const
    {
        const FCol* c = col(key);
        return c ? libText(c->t, e.v.at(key)) : std::string();
    }
    std::vector<const FRec*> all() const { std::vector<const FRec*> o; for (auto& e : recs) o.push_back(&e); return o; }
    std::vector<const FRec*> ofSet() const { std::vector<const FRec*> o; for (std::size_t i : members) o.push_back(&recs[i]); return o; }
};

// ================================================================ P16
static std::string matchValue(int t, const std::string& want, const J& j)
{
    if (isStr(t))
    {
        if (j.k != J::Str) return "is not a string";
        if (j.s != libText(t, want)) return "is " + show(j.s) + ", expected " + show(libText(t, want));
        return "";
    }
    if (t == TY_BOOL) return j.k == (want == "true" ? J::True : J::False) ? "" : "is not " + want;
    if (isFp(t) && want.find("inf") != std::string::npos) return "";
    if (j.k != J::Num) return "is not a number";
    if (!isFp(t)) return j.s == want ? "" : "is " + j.s + ", expected " + want;
    long double a = cStrtold(j.s.c_str(), nullptr), b = cStrtold(want.c_str(), nullptr);
    long double d = a > b ? a - b : b - a, m = b < 0 ? -b : b;
    return d <= 0.000001L + m * (t == TY_FLT ? 1e-6L : 1e-14L) ? "" : "is " + j.s + ", expected " + want;
}
// one object against one record: "" when equal
static std::string matchRecord(const World& w, const FRec& e, const J& j)
{
    if (j.k != J::Obj) return "record is not an object";
    if (j.m.size() != w.cols.size()) return "record has " + std::to_string(j.m.size()) + " members, expected " + std::to_string(w.cols.size());
    for (std::size_t i = 0; i < w.cols.size(); ++i)
    {
        if (j.m[i].first != w.cols[i].name) return "member " + std::to_string(i) + " is named " + show(j.m[i].first) + ", expected " + show(w.cols[i].name);
        std::string m = matchValue(w.cols[i].t, e.v.at(w.cols[i].name), j.m[i].second);
        if (!m.empty()) return "value of " + show(w.cols[i].name) + " " + m;
    }
    return "";
}
static std::string stripWs(const std::string& s)
{
    std::string o;
    bool in = false;
    for (std::size_t i = 0; i < s.size(); ++i)
    {
        char c = s[i];
        if (in) { o += c; if (c == '\\' && i + 1 < s.size()) o += s[++i]; else if (c == '"') in = false; continue; }
        if (c == ' ' || c == '\n' || c == '\t' || c == '\r') continue;
        if (c == '"') in = true;
        o += c;
    }
    return o;
}
static void checkJson(World& w, const std::string& who, const std::string& text, const std::vector<const FRec*>& recs, bool useTemplate, const std::string& tmpl, bool isArray)
{
    Ctx& x = w.x;
    J d;
    JsonReader p(text);
    if (!p.document(d)) x.fail(who + ": the text is no JSON document: " + p.err);
    std::vector<const J*> items;
    std::vector<std::string> names;
    if (isArray)
    {
        if (d.k != J::Arr) x.fail(who + ": not an array");
        for (auto& e : d.a) items.push_back(&e);
    }
    else
    {
        if (d.k != J::Obj) x.fail(who + ": not an object");
        for (auto& e : d.m) { names.push_back(e.first); items.push_back(&e.second); }
    }
    if (items.size() != recs.size()) x.fail(who + ": " + std::to_string(items.size()) + " records, expected " + std::to_string(recs.size()));
    // which record each item shows: a matching, because infinite numbers may be shown as anything
    std::vector<long> owner(recs.size(), -1);
    auto fits = [&](std::size_t i, std::size_t k, std::string* why)
    {
        if (!isArray && !useTemplate && names[i] != recs[k]->ref.GetRecordUniqueId()) { *why = "its name is no record id"; return false; }
        std::string m = matchRecord(w, *recs[k], *items[i]);
        if (!m.empty() && (recs.size() == 1 || (!isArray && !useTemplate))) *why = m;
        return m.empty();
    };
    std::vector<bool> seen;
    std::function<bool(std::size_t, std::string*)> place = [&](std::size_t i, std::string* why) -> bool
    {
        for (std::size_t k = 0; k < recs.size(); ++k) if (owner[k] < 0 && !seen[k] && fits(i, k, why)) { seen[k] = true; owner[k] = (long)i; return true; }
        for (std::size_t k = 0; k < recs.size(); ++k)
        {
            if (seen[k] || !fits(i, k, why)) continue;
            seen[k] = true;
            if (owner[k] < 0 || place((std::size_t)owner[k], why)) { owner[k] = (long)i; return true; }
        }
        return false;
    };
    for (std::size_t i = 0; i < items.size(); ++i)
    {
        std::string why = "the document has a record that is not there";
        seen.assign(recs.size(), false);
        if (!place(i, &why)) x.fail(who + ": record " + std::to_string(i) + ": " + why);
    }
    if (!isArray)
    {
        std::set<std::string> s(names.begin(), names.end());
        if (s.size() != names.size()) x.fail(who + ": two records with the same name");
        if (useTemplate) for (std::size_t i = 0; i < names.size(); ++i) if (!s.count(tmpl + std::to_string(i))) x.fail(who + ": no record is named " + show(tmpl + std::to_string(i)));
    }
    x.events += (long)items.size();
    x.cnt("records compared", (long)items.size());
    x.cnt(std::string("documents") + (isArray ? " array" : useTemplate ? " template" : " ids"));
}
static void caseJson(Ctx& x, Rng& r)
{
    World w(x, r);
    w.history();
    int views = r.range(2, 5);
    for (int i = 0; i < views; ++i)
    {
        bool format = r.chance(50), useT = r.chance(60), isA = r.chance(40);
        std::size_t tab = r.chance(20) ? 0 : r.chance(10) ? 30 : r.below(6);
        std::string tmpl = r.chance(50) ? "Record" : rndText(r, '"', 4);
        if (r.chance(15)) tmpl += (char)r.below(32);
        bool ofSet = r.chance(40);
        std::string who = std::string(ofSet ? "set" : "vault") + ".ToJson(" + (format ? "format," : "plain,") + std::to_string(tab) + "," + (useT ? "template," : "ids,") + show(tmpl) + "," + (isA ? "array" : "object") + ")";
        x.t(who);
        if (ofSet && !w.attached)
        {
            J d;
            std::string s = w.set.ToJson(format, tab, useT, tmpl, isA);
            JsonReader p(s);
            if (!p.document(d)) x.fail("detached " + who + ": no JSON document: " + p.err);
            if (!d.m.empty() || !d.a.empty()) x.fail("detached " + who + " is not empty");
            continue;
        }
        std::string s = ofSet ? w.set.ToJson(format, tab, useT, tmpl, isA) : w.v.ToJson(format, tab, useT, tmpl, isA);
        checkJson(w, who, s, ofSet ? w.ofSet() : w.all(), useT, tmpl, isA);
        std::string o = ofSet ? w.set.ToJson(!format, r.below(9), useT, tmpl, isA) : w.v.ToJson(!format, r.below(9), useT, tmpl, isA);
        if (stripWs(s) != stripWs(o)) x.fail(who + ": formatting changes more than whitespace");
        x.states.insert(hashStr(s));
        if (!w.recs.empty() && !w.cols.empty()) x.nontrivial = true;
    }
    if (!w.recs.empty())
    {
        const FRec& e = r.pick(w.recs);
        for (int f = 0; f < 2; ++f)
        {
            J d;
            std::string s = e.ref.ToJson(f, r.below(6));
            JsonReader p(s);
            if (!p.document(d)) x.fail("reference.ToJson: no JSON document: " + p.err);
            std::string m = matchRecord(w, e, d);
            if (!m.empty()) x.fail("reference.ToJson: " + m);
            ++x.events;
            x.cnt("documents of references");
        }
    }
    VaultRecordRef bad;
    if (r.chance(50) && !w.recs.empty()) { std::size_t k = r.below(w.recs.size()); bad = w.recs[k].ref; w.v.EraseRecord(bad); }
    J d;
    std::string s = bad.ToJson(r.chance(50), r.below(6));
    JsonReader p(s);
    if (!p.document(d) || d.k != J::Obj || !d.m.empty()) x.fail("ToJson of an invalid reference is " + show(s) + ", expected an empty object");
}

// ================================================================ P17
// Reads a table of the given columns: the widths come from the first line, everything else must follow from them.
struct Table
{
    std::string err;
    std::size_t pos = 0;
    std::vector<std::size_t> width;
    const std::string& t;
    explicit Table(const std::string& s) : t(s) {}
    bool bad(const std::string& e) { err = e + "; the rest of the output is " + show(t.substr(std::min(pos, t.size())), 200); return false; }
    bool eat(const std::string& s, const char* what) { if (t.compare(pos, s.size(), s) != 0) return bad(std::string(what) + " " + show(s, 200) + " expected"); pos += s.size(); return true; }
    std::string line(char c, char d) const { std::string s(1, c); for (std::size_t w : width) s += std::string(w + 2, d) + c; return s + "\n"; }
    bool rowText(const std::vector<std::string>& cells, std::string& o)
    {
        o = "|";
        for (std::size_t i = 0; i < cells.size(); ++i)
        {
            if (cells[i].size() > width[i]) return bad("column " + std::to_string(i) + " is narrower than " + show(cells[i]));
            o += " " + cells[i] + std::string(width[i] - cells[i].size(), ' ') + " |";
        }
        return true;
    }
    bool header(const std::vector<std::string>& keys)
    {
        std::size_t e = t.find('\n');
        if (e == std::string::npos || t.empty() || t[0] != '+') return bad("border line expected");
        std::size_t b = 1;
        while (b < e)
        {
            std::size_t n = t.find('+', b);
            if (n == std::string::npos || n > e || n - b < 2 || t.substr(b, n - b) != std::string(n - b, '-')) return bad("bad border line");
            width.push_back(n - b - 2);
            b = n + 1;
        }
        if (width.size() != keys.size()) return bad(std::to_string(width.size()) + " columns, expected " + std::to_string(keys.size()));
        std::string h;
        if (!eat(line('+', '-'), "border") || !rowText(keys, h) || !eat(h + "\n", "header") || !eat(line('+', '-'), "border")) return false;
        return true;
    }
    bool footer(bool complete, std::size_t n)
    {
        if (!eat(complete ? line('+', '-') : line('$', '~'), "last border")) return false;
        if (!eat(" (" + std::to_string(n) + " records)\n", "record count")) return false;
        return pos == t.size() || bad("text after the record count");
    }
};
static void caseTable(Ctx& x, Rng& r)
{
    static Capture capture;
    World w(x, r);
    w.history();
    int views = r.range(2, 5);
    auto pickKeys = [&](bool& unknownFirst)
    {
        std::vector<std::string> ks;
        unknownFirst = false;
        if (r.chance(45) || w.cols.empty()) return ks;
        int n = r.range(1, (int)w.cols.size() + 1);
        for (int i = 0; i < n; ++i)
        {
            if (r.chance(10)) { ks.push_back("none"); if (!i && !w.col("none")) unknownFirst = true; }
            else ks.push_back(r.pick(w.cols).name);
        }
        return ks;
    };
    for (int i = 0; i < views; ++i)
    {
        bool ofSet = r.chance(40), ids = r.chance(40), rev = r.chance(40), unknownFirst;
        std::vector<std::string> keys = pickKeys(unknownFirst);
        std::list<std::string> lk(keys.begin(), keys.end());
        std::vector<const FRec*> recs = ofSet ? w.ofSet() : w.all();
        std::size_t amount = r.chance(42) ? (std::size_t)-1 : r.chance(12) ? ((std::size_t)1 << (r.chance(50) ? 32 : 31)) + r.below(2) : r.chance(40) ? recs.size() - (recs.size() && r.chance(60)) : r.below(recs.size() + 3);
        std::string prim = r.chance(50) || w.cols.empty() ? "" : r.pick(w.cols).name;
        std::string who = std::string(ofSet ? "set" : "vault") + ".Print(" + (ids ? "ids," : "") + std::to_string((long)amount) + "," + show(prim) + (rev ? ",reverse" : "") + ", " + std::to_string(keys.size()) + " keys)";
        x.t(who);
        std::string s = capture([&] { if (ofSet) w.set.Print(ids, amount, prim, rev, lk); else w.v.Print(ids, amount, prim, rev, lk); });
        ++x.events;
        if (ofSet && !w.attached) { x.cnt("print of a detached set"); if (s.find('|') != std::string::npos) x.fail("a detached set is printed as a table"); continue; }
        if (w.cols.empty())
        {
            std::string tail = " (" + std::to_string(recs.size()) + " records)\n";
            if (s.size() < tail.size() || s.substr(s.size() - tail.size()) != tail) x.fail(who + " without keys: record count is not shown in " + show(s));
            x.cnt("print without keys");
            continue;
        }
        if (keys.empty()) for (auto& c : w.cols) keys.push_back(c.name);
        if (prim.empty()) prim = keys[0];
        if (prim.empty() || !w.col(prim)) { x.cnt("print by an unknown key"); if (prim != "") continue; if (!w.col(prim)) continue; }
        int pt = w.col(prim)->t;
        std::sort(recs.begin(), recs.end(), [&](const FRec* a, const FRec* b) { int c = cmpVal(pt, a->v.at(prim), b->v.at(prim)); return rev ? c > 0 : c < 0; });
        Table t(s);
        bool ok = t.header(keys);
        std::size_t shown = std::min(amount, recs.size());
        std::vector<bool> used(recs.size());
        for (std::size_t k = 0; ok && k < shown; ++k)
        {
            bool found = false;
            for (std::size_t c = 0; c < recs.size() && !found; ++c)
            {
                if (used[c] || cmpVal(pt, recs[c]->v.at(prim), recs[k]->v.at(prim)) != 0) continue;
                std::vector<std::string> cells;
                for (auto& key : keys) cells.push_back(w.cell(*recs[c], key));
                std::string line;
                if (!(ok = t.rowText(cells, line))) break;
                line += (ids ? " " + recs[c]->ref.GetRecordUniqueId() : "") + "\n";
                if (s.compare(t.pos, line.size(), line) == 0) { used[c] = found = true; t.pos += line.size(); }
            }
            if (ok && !found) { ok = t.bad("row " + std::to_string(k) + " is not a record with the next value"); }
        }
        if (!ok || !t.footer(amount >= recs.size(), recs.size())) x.fail(who + ": " + t.err);
        x.cnt("table rows compared", (long)shown);
        x.cnt("tables");
        x.states.insert(hashStr(s));
        if (shown) x.nontrivial = true;
    }
    // string dumps
    auto dump = [&](const std::vector<std::vector<std::pair<std::string, std::string>>>& got, const std::vector<const FRec*>& recs, const std::string& who)
    {
        std::multiset<std::string> g, e;
        for (auto& rec : got)
        {
            std::vector<std::string> f;
            for (auto& p : rec) { f.push_back(p.first); f.push_back(p.second); }
            g.insert(packRow(f));
        }
        for (auto* rec : recs)
        {
            std::vector<std::string> f;
            for (auto& c : w.cols) { f.push_back(c.name); f.push_back(w.cell(*rec, c.name)); }
            e.insert(packRow(f));
        }
        ++x.events;
        x.cnt("dumps");
        if (g != e)
        {
            std::string s = who + ": got " + std::to_string(g.size()) + " records, expected " + std::to_string(e.size());
            for (auto& q : g) if (g.count(q) > e.count(q)) { s += "; unexpected " + show(q, 200); break; }
            for (auto& q : e) if (e.count(q) > g.count(q)) { s += "; missing " + show(q, 200); break; }
            x.fail(s);
        }
    };
    dump(w.v.ToStrings(), w.all(), "vault.ToStrings");
    if (w.attached) dump(w.set.ToStrings(), w.ofSet(), "set.ToStrings");
    else if (!w.set.ToStrings().empty()) x.fail("string dump of a detached set is not empty");
    if (!w.recs.empty())
    {
        const FRec& e = r.pick(w.recs);
        dump({e.ref.ToStrings()}, {&e}, "reference.ToStrings");
        // printed record: every key once, in any order
        std::string s = capture([&] { e.ref.PrintRecord(); });
        std::string head = "Vault record " + e.ref.GetRecordUniqueId() + ":\n";
        if (s.compare(0, head.size(), head) != 0) x.fail("PrintRecord prints " + show(s));
        std::vector<std::string> parts;
        for (auto& c : w.cols) parts.push_back("\t" + c.name + " = " + w.cell(e, c.name) + "\n");
        std::vector<bool> used(parts.size());
        std::function<bool(std::size_t, std::size_t)> fit = [&](std::size_t pos, std::size_t left) -> bool
        {
            if (!left) return pos == s.size();
            for (std::size_t k = 0; k < parts.size(); ++k)
            {
                if (used[k] || s.compare(pos, parts[k].size(), parts[k]) != 0) continue;
                used[k] = true;
                if (fit(pos + parts[k].size(), left - 1)) return true;
                used[k] = false;
            }
            return false;
        };
        if (!fit(head.size(), parts.size())) x.fail("PrintRecord prints " + show(s, 400) + " for a record of " + std::to_string(parts.size()) + " keys");
        x.cnt("printed records");
    }
    {
        VaultRecordRef none;
        std::string s = capture([&] { none.PrintRecord(); });
        if (s.find("not valid") == std::string::npos || s.find(" = ") != std::string::npos) x.fail("PrintRecord of an empty reference prints " + show(s));
        if (!none.ToStrings().empty()) x.fail("string dump of an empty reference is not empty");
    }
    // containers of references: live, erased and empty ones, in the container's order
    std::vector<VaultRecordRef> refs;
    std::vector<const FRec*> who;
    std::vector<FRec> kept = w.recs;
    int n = r.range(0, 6);
    for (int i = 0; i < n; ++i)
    {
        if (kept.empty() || r.chance(10)) { refs.emplace_back(); who.push_back(nullptr); continue; }
        std::size_t k = r.below(kept.size());
        refs.push_back(kept[k].ref);
        who.push_back(&kept[k]);
    }
    if (!kept.empty() && r.chance(30))
    {
        std::size_t k = r.below(kept.size());
        w.v.EraseRecord(kept[k].ref);
        for (auto& q : who) if (q == &kept[k]) q = nullptr;
    }
    bool unknownFirst, ids = r.chance(40);
    std::vector<std::string> keys = pickKeys(unknownFirst);
    std::size_t amount = r.chance(42) ? (std::size_t)-1 : r.chance(12) ? ((std::size_t)1 << (r.chance(50) ? 32 : 31)) + r.below(2) : r.below(refs.size() + 3);
    std::string s;
    int kind = (int)r.below(3);
    if (kind == 0) s = capture([&] { mvlt::PrintAsTable(refs, ids, amount, keys); });
    else if (kind == 1) { std::list<VaultRecordRef> c(refs.begin(), refs.end()); s = capture([&] { mvlt::PrintAsTable(c, ids, amount, keys); }); }
    else { std::deque<VaultRecordRef> c(refs.begin(), refs.end()); s = capture([&] { mvlt::PrintAsTable(c, ids, amount, keys); }); }
    x.t("PrintAsTable of " + std::to_string(refs.size()) + ", " + std::to_string(keys.size()) + " keys, amount " + std::to_string((long)amount));
    ++x.events;
    if (refs.empty())
    {
        if (s.size() < 13 || s.substr(s.size() - 13) != " (0 records)\n") x.fail("PrintAsTable of nothing prints " + show(s));
        return;
    }
    if (keys.empty() && who[0]) for (auto& c : w.cols) keys.push_back(c.name);
    Table t(s);
    bool ok = t.header(keys);
    for (std::size_t k = 0; ok && k < std::min(amount, refs.size()); ++k)
    {
        std::vector<std::string> cells;
        for (auto& key : keys) cells.push_back(who[k] ? w.cell(*who[k], key) : std::string());
        std::string line;
        ok = t.rowText(cells, line) && t.eat(line + (ids ? " " + refs[k].GetRecordUniqueId() : "") + "\n", "row");
    }
    if (!ok || !t.footer(amount >= refs.size(), refs.size())) x.fail("PrintAsTable: " + t.err);
    x.cnt("tables of containers");
}

int main(int argc, char** argv)
{
    Ctx x;
    x.parse(argc, argv);
    return x.run([&](long, Rng& r)
    {
        LocaleCase loc(x, r, x.prop == "P17" ? 1 : 3); // P17: std::cout keeps the locale of its creation, ids do not
        if (x.prop == "P16") caseJson(x, r);
        else caseTable(x, r);
    });
}
