// Typed keys handled through text, for the file and text-conversion monitors. Formatting and parsing of the
// expected values do not use the library.
#pragma once
#include "common.h"
#include "MVault.h"
#include <cerrno>
#include <cmath>
#include <limits>
#include <memory>
#include <algorithm>

namespace vf
{
    using mvlt::Vault; using mvlt::VaultRecordRef; using mvlt::VaultRecordSet; using mvlt::VaultOperationResult; using mvlt::VaultParamInput;
    typedef mvlt::VaultOperationResultCode RC;

    // own formatting
    inline std::string fmtOf(const std::string& s) { return s; }
    inline std::string fmtOf(bool b) { return b ? "true" : "false"; }
    inline std::string fmtOf(double d) { CLoc l; char b[512]; snprintf(b, sizeof b, "%.6f", d); return b; }
    inline std::string fmtOf(float f) { return fmtOf((double)f); }
    template <class T> inline std::string fmtOf(T v)
    {
        static_assert(std::numeric_limits<T>::is_integer, "int");
        if (v == 0) return "0";
        bool neg = v < 0;
        std::string s;
        while (v != 0) { int d = (int)(v % 10); if (d < 0) d = -d; s += (char)('0' + d); v = (T)(v / 10); }
        if (neg) s += '-';
        std::reverse(s.begin(), s.end());
        return s;
    }
    // own parsing of canonical text
    inline void parseTo(const std::string& s, std::string& o) { o = s; }
    inline void parseTo(const std::string& s, bool& o) { o = s == "true"; }
    inline void parseTo(const std::string& s, double& o) { o = cStrtod(s.c_str(), nullptr); }
    inline void parseTo(const std::string& s, float& o) { o = cStrtof(s.c_str(), nullptr); }
    template <class T> inline void parseTo(const std::string& s, T& o)
    {
        bool neg = !s.empty() && s[0] == '-';
        typename std::conditional<std::numeric_limits<T>::is_signed, long long, unsigned long long>::type r = 0;
        for (std::size_t i = neg ? 1 : 0; i < s.size(); ++i) r = neg ? r * 10 - (s[i] - '0') : r * 10 + (s[i] - '0');
        o = (T)r;
    }

    // random values, with the extremes
    template <class T> inline T rndVal(Rng& r, T*)
    {
        typedef std::numeric_limits<T> L;
        switch (r.below(6))
        {
        case 0: return L::max();
        case 1: return L::min();
        case 2: { uint64_t k = r.below(12); return r.chance(50) ? (T)(L::max() - (T)k) : (T)(L::min() + (T)k); }
        case 3: { T v = (T)r.below(30); if (L::is_signed && r.chance(50)) v = (T)-v; return v; }
        default: return (T)(r.next() >> r.below(64));
        }
    }
    inline bool rndVal(Rng& r, bool*) { return r.chance(50); }
    template <class F> inline F rndFp(Rng& r)
    {
        F v;
        switch (r.below(8))
        {
        case 0: v = std::numeric_limits<F>::max(); break;
        case 1: v = std::numeric_limits<F>::min(); break;
        case 2: v = std::numeric_limits<F>::denorm_min(); break;
        case 3: v = 0; break;
        case 4: v = (F)((double)(long long)r.below(2000000000ull) * 3); break;
        case 5: v = (F)std::ldexp((double)(r.next() >> 11), (int)r.below(140) - 70); break;
        case 6: v = (F)std::ldexp((double)(r.next() >> 11), (int)r.below(std::numeric_limits<F>::max_exponent - 60)); break;
        default: v = (F)((double)r.below(100000) / (double)(1 + r.below(1000))); break;
        }
        return r.chance(50) ? -v : v;
    }
    inline double rndVal(Rng& r, double*) { return rndFp<double>(r); }
    inline float rndVal(Rng& r, float*) { return rndFp<float>(r); }
    inline std::string rndText(Rng& r, char sep = ',', int maxLen = 6)
    {
        static const char* const bits[] = {"\"", "\"\"", ",", "\n", "\r", "\r\n", ";", " ", "\t", "\\", "a", "b", "0", "1", "-", ".", "true", "\xd0\xba", "\xff", "'", "|"};
        std::string s;
        int n;
        if (r.chance(15)) return s;
        if (r.chance(3)) n = (int)r.below(60); else n = (int)r.below(maxLen + 1);
        for (int i = 0; i < n; ++i)
        {
            if (r.chance(20)) s += sep;
            else if (r.chance(4)) s += '\0';
            else if (r.chance(35)) s += (char)('a' + r.below(26));
            else s += bits[r.below(sizeof bits / sizeof *bits)];
        }
        return s;
    }
    inline std::string rndVal(Rng& r, std::string*) { return rndText(r); }

    struct Ty
    {
        const char* name;
        bool isText;
        virtual ~Ty() {}
        virtual std::string rnd(Rng& r) const = 0;
        virtual bool AddKey(Vault& v, const std::string& k, const std::string& def) const = 0;
        virtual bool AddUnique(Vault& v, const std::string& k) const = 0;
        virtual VaultParamInput Param(const std::string& t) const = 0;
        virtual bool Get(const VaultRecordRef& r, const std::string& k, std::string& out) const = 0; // typed read, own formatting
        virtual bool Set(VaultRecordRef& r, const std::string& k, const std::string& t) const = 0;
        virtual std::string Zero() const = 0;
        virtual std::string LibText(const std::string& t) const = 0;                    // mvlt::ToString
        virtual bool LibParse(const std::string& t, const std::string& before, std::string& out) const = 0; // mvlt::FromString into a variable
    };
    template <class T> struct TyT : Ty
    {
        explicit TyT(const char* n) { name = n; isText = std::is_same<T, std::string>::value; }
        static T val(const std::string& t) { T v{}; parseTo(t, v); return v; }
        std::string rnd(Rng& r) const override { return fmtOf(rndVal(r, (T*)nullptr)); }
        bool AddKey(Vault& v, const std::string& k, const std::string& d) const override { return v.AddKey<T>(k, val(d)); }
        bool AddUnique(Vault& v, const std::string& k) const override { return v.AddUniqueKey<T>(k).IsOperationSuccess; }
        VaultParamInput Param(const std::string& t) const override { T v = val(t); return VaultParamInput(v); }
        bool Get(const VaultRecordRef& r, const std::string& k, std::string& out) const override
        {
            T v{};
            if (!r.GetData(k, v).IsOperationSuccess) return false;
            out = fmtOf(v);
            return true;
        }
        bool Set(VaultRecordRef& r, const std::string& k, const std::string& t) const override { return r.SetData<T>(k, val(t)).IsOperationSuccess; }
        std::string Zero() const override { return fmtOf(T{}); }
        std::string LibText(const std::string& t) const override { return mvlt::ToString(T(val(t))); }
        bool LibParse(const std::string& t, const std::string& before, std::string& out) const override
        {
            T v = val(before);
            bool ok = mvlt::FromString(t, v);
            out = fmtOf(v);
            return ok;
        }
    };
    enum { TY_STR, TY_BOOL, TY_I16, TY_U16, TY_I32, TY_U32, TY_I64, TY_U64, TY_FLT, TY_DBL, TYS };
    inline const Ty& ty(int i)
    {
        static const TyT<std::string> s("string"); static const TyT<bool> b("bool"); static const TyT<std::int16_t> i16("int16"); static const TyT<std::uint16_t> u16("uint16");
        static const TyT<std::int32_t> i32("int32"); static const TyT<std::uint32_t> u32("uint32"); static const TyT<std::int64_t> i64("int64"); static const TyT<std::uint64_t> u64("uint64");
        static const TyT<float> f("float"); static const TyT<double> d("double");
        static const Ty* const t[TYS] = {&s, &b, &i16, &u16, &i32, &u32, &i64, &u64, &f, &d};
        return *t[i];
    }

    // unambiguous join of fields
    inline std::string packRow(const std::vector<std::string>& f)
    {
        std::string s;
        for (auto& x : f) s += std::to_string(x.size()) + ":" + x;
        return s;
    }

    // ------------------------------------------------------------ reference csv reader (RFC 4180, separator may be a string)
    inline std::vector<std::vector<std::string>> refCsv(const std::string& s, const std::string& sep)
    {
        std::vector<std::vector<std::string>> res;
        std::vector<std::string> row;
        std::string f;
        bool quoted = false, any = false;
        std::size_t i = 0, n = s.size();
        auto endRow = [&]() { if (any || !f.empty() || !row.empty()) row.push_back(f); res.push_back(row); row.clear(); f.clear(); any = false; };
        while (i < n)
        {
            if (quoted)
            {
                if (s[i] == '"') { if (i + 1 < n && s[i + 1] == '"') { f += '"'; i += 2; } else { quoted = false; ++i; } }
                else f += s[i++];
                continue;
            }
            if (s[i] == '"') { quoted = true; any = true; ++i; continue; }
            if (s.compare(i, sep.size(), sep) == 0) { row.push_back(f); f.clear(); any = false; i += sep.size(); if (i == n) any = true; continue; }
            if (s[i] == '\r' || s[i] == '\n') { if (s[i] == '\r' && i + 1 < n && s[i + 1] == '\n') ++i; ++i; endRow(); continue; }
            f += s[i++];
        }
        if (any || !f.empty() || !row.empty()) endRow();
        return res;
    }
    inline std::string readAll(const std::string& p, bool* ok = nullptr)
    {
        std::string s;
        FILE* f = fopen(p.c_str(), "rb");
        if (ok) *ok = f != nullptr;
        if (!f) return s;
        char b[65536];
        std::size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
        fclose(f);
        return s;
    }
}
