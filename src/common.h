// Shared runtime of the verification workers: PRNG, case loop, progress reporting, violation records.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <clocale>
#include <functional>
#include <locale>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>

namespace vf
{
    // splitmix64 based generator: the whole case is a function of its seed.
    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed = 0) : s(seed) {}
        uint64_t next()
        {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        uint64_t below(uint64_t n) { return n ? next() % n : 0; }
        int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); } // inclusive
        bool chance(int pct) { return (int)below(100) < pct; }
        template <class C> auto& pick(C& c) { return c[below(c.size())]; }
    };

    inline uint64_t mix(uint64_t a, uint64_t b)
    {
        Rng r(a * 0x9E3779B97F4A7C15ull + b + 0x1234567);
        r.next();
        return r.next();
    }

    inline uint64_t hashStr(const std::string& s)
    {
        uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
        return h;
    }

    inline std::string jsonEsc(const std::string& s)
    {
        std::string r = "\"";
        char b[8];
        for (unsigned char c : s)
        {
            if (c == '"') r += "\\\"";
            else if (c == '\\') r += "\\\\";
            else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += (char)c;
        }
        return r + "\"";
    }

    // printable form of arbitrary text for traces
    inline std::string show(const std::string& s, std::size_t lim = 120)
    {
        std::string r = "'";
        char b[8];
        for (std::size_t i = 0; i < s.size(); ++i)
        {
            if (i >= lim) { r += "...(" + std::to_string(s.size()) + ")"; break; }
            unsigned char c = s[i];
            if (c < 32 || c >= 127 || c == '\'') { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
            else r += (char)c;
        }
        return r + "'";
    }

    struct Violation
    {
        std::string what;
    };

    // a discrepancy outside the checked property: the case is abandoned, never reported
    struct Foreign
    {
        std::string what;
    };

    struct Ctx
    {
        std::string prop, out, scratch, tier = "quick";
        uint64_t seed = 1;
        long from = 0, to = 0;
        bool verbose = false;
        std::map<std::string, std::string> opts;

        // measured coverage
        std::map<std::string, long> counts;
        std::unordered_set<uint64_t> distinct; // one entry per distinct non-trivial case
        std::unordered_set<uint64_t> states;   // distinct states or outcomes the monitors saw
        bool nontrivial = false;               // set by the running case
        std::vector<std::string> samples;
        long cases = 0, events = 0, foreign = 0, inconclusive = 0;
        std::vector<std::string> foreignNotes;

        // trace of the running case
        std::string trace;
        bool tracing = true;
        int statusFd = -1;
        long curCase = -1;

        void t(const std::string& line)
        {
            if (!tracing) return;
            trace += line;
            trace += '\n';
            if (verbose) fprintf(stderr, "%s\n", line.c_str());
        }
        void cnt(const std::string& k, long n = 1) { long& c = counts[k]; if (k.compare(0, 4, "max_") == 0) c = std::max(c, n); else c += n; }
        void fail(const std::string& what) { throw Violation{what}; }

        void status(const char* state)
        {
            if (statusFd < 0) return;
            char b[64];
            memset(b, ' ', sizeof b);
            b[63] = '\n';
            int n = snprintf(b, 60, "%ld %s", curCase, state);
            b[n] = ' ';
            if (pwrite(statusFd, b, sizeof b, 0) < 0) {}
        }

        bool opt(const std::string& k) const { return opts.count(k) != 0; }
        long optl(const std::string& k, long d) const
        {
            auto it = opts.find(k);
            return it == opts.end() ? d : atol(it->second.c_str());
        }

        void parse(int argc, char** argv)
        {
            for (int i = 1; i < argc; ++i)
            {
                std::string a = argv[i];
                if (a == "--verbose") { verbose = true; continue; }
                if (i + 1 >= argc) { fprintf(stderr, "bad args\n"); exit(3); }
                std::string v = argv[++i];
                if (a == "--prop") prop = v;
                else if (a == "--out") out = v;
                else if (a == "--scratch") scratch = v;
                else if (a == "--tier") tier = v;
                else if (a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
                else if (a == "--from") from = atol(v.c_str());
                else if (a == "--to") to = atol(v.c_str());
                else if (a.substr(0, 2) == "--") opts[a.substr(2)] = v;
            }
            if (!out.empty()) statusFd = open((out + ".status").c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
        }

        static bool writeAll(const std::string& path, const std::string& s)
        {
            FILE* f = fopen(path.c_str(), "wb");
            if (!f) return false;
            bool ok = fwrite(s.data(), 1, s.size(), f) == s.size();
            return (fclose(f) == 0) && ok;
        }

        void report(const std::string& verdict, const std::string& what)
        {
            std::ostringstream o;
            o.imbue(std::locale::classic());
            o << "{\"verdict\":" << jsonEsc(verdict) << ",\"what\":" << jsonEsc(what) << ",\"case\":" << curCase
              << ",\"cases\":" << cases << ",\"events\":" << events << ",\"distinct\":" << distinct.size()
              << ",\"foreign\":" << foreign << ",\"inconclusive\":" << inconclusive << ",\"counts\":{";
            bool first = true;
            for (auto& c : counts) { o << (first ? "" : ",") << jsonEsc(c.first) << ":" << c.second; first = false; }
            o << "},\"hashes\":[";
            first = true;
            std::size_t n = 0;
            for (uint64_t h : distinct) { if (++n > 200000) break; o << (first ? "" : ",") << (h & 0xFFFFFFFFFFFFFull); first = false; }
            o << "],\"states\":[";
            first = true;
            n = 0;
            for (uint64_t h : states) { if (++n > 200000) break; o << (first ? "" : ",") << (h & 0xFFFFFFFFFFFFFull); first = false; }
            o << "],\"samples\":[";
            first = true;
            for (auto& s : samples) { o << (first ? "" : ",") << jsonEsc(s); first = false; }
            o << "],\"foreign_notes\":[";
            first = true;
            for (auto& s : foreignNotes) { o << (first ? "" : ",") << jsonEsc(s); first = false; }
            o << "],\"trace\":" << jsonEsc(verdict == "held" ? std::string() : trace) << "}\n";
            if (!out.empty())
            {
                if (!writeAll(out + ".tmp", o.str())) _exit(3);
                rename((out + ".tmp").c_str(), out.c_str());
            }
            else fprintf(stderr, "%s %s case=%ld\n%s", verdict.c_str(), what.c_str(), curCase, verdict == "held" ? "" : trace.c_str());
        }

        // runs cases [from,to); body gets (case number, rng). 0 = held, 10 = violated
        int run(const std::function<void(long, Rng&)>& body)
        {
            for (long c = from; c < to; ++c)
            {
                curCase = c;
                status("run");
                trace.clear();
                nontrivial = false;
                Rng rng(mix(mix(seed, hashStr(prop)), (uint64_t)c));
                try
                {
                    body(c, rng);
                }
                catch (Violation& v)
                {
                    t("VIOLATION: " + v.what);
                    report("violated", v.what);
                    status("violated");
                    return 10;
                }
                catch (Foreign& f)
                {
                    ++foreign;
                    if (foreignNotes.size() < 5) foreignNotes.push_back("case " + std::to_string(c) + ": " + f.what);
                    if (verbose) fprintf(stderr, "FOREIGN %s\n", f.what.c_str());
                }
                ++cases;
                if (nontrivial) distinct.insert(hashStr(trace));
                if (samples.size() < 2 && nontrivial && trace.size() > 0) samples.push_back(trace.substr(0, 1500));
            }
            curCase = to;
            status("done");
            report("held", "");
            return 0;
        }
    };

    // The monitors' own number conversions do not depend on the locale a case runs in
    struct CLoc
    {
        locale_t old;
        CLoc() { static locale_t c = newlocale(LC_ALL_MASK, "C", (locale_t)0); old = uselocale(c); }
        ~CLoc() { uselocale(old); }
    };
    inline double cStrtod(const char* s, char** e = nullptr) { CLoc l; return strtod(s, e); }
    inline float cStrtof(const char* s, char** e = nullptr) { CLoc l; return strtof(s, e); }
    inline long double cStrtold(const char* s, char** e = nullptr) { CLoc l; return strtold(s, e); }

    // A case may run in a program that has chosen a locale with a decimal comma and grouped digits
    struct LocaleCase
    {
        struct Comma : std::numpunct<char>
        {
            char do_decimal_point() const override { return ','; }
            char do_thousands_sep() const override { return '.'; }
            std::string do_grouping() const override { return "\3"; }
            std::string do_truename() const override { return "wahr"; }
            std::string do_falsename() const override { return "falsch"; }
        };
        int mode = 0;
        LocaleCase(Ctx& x, Rng& r, int allowed = 3)
        {
            if (!r.chance(15)) return;
            mode = (1 + (int)r.below(3)) & allowed; // 1: locale of the C library, 2: of the C++ library, 3: both
            if (mode & 2) std::locale::global(std::locale(std::locale::classic(), new Comma));
            if (mode & 1)
            {
                bool there = setlocale(LC_NUMERIC, "vf_VF") != nullptr;
                x.cnt(there ? "locale:C library" : "locale:C library, not available");
            }
            if (mode & 2) x.cnt("locale:C++ library");
            if (mode) x.t("locale mode " + std::to_string(mode));
        }
        ~LocaleCase()
        {
            if (mode & 2) std::locale::global(std::locale::classic());
            if (mode) setlocale(LC_ALL, "C");
        }
    };

    // silences what the library prints on fd 1 (and 2 unless verbose)
    inline void muteStdout(bool verbose)
    {
        if (verbose) return;
        int n = open("/dev/null", O_WRONLY);
        if (n >= 0) { dup2(n, 1); close(n); }
    }
}
