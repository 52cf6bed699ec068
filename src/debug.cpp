// P26: programs that run into type and key errors from deep call chains, many threads and objects with static or thread storage
// duration. Every result is predicted; the driver builds this without NDEBUG and, for a case that fails, with it.
#include "common.h"
#include "MVault.h"
#include <atomic>
#include <memory>
#include <thread>
#include <iostream>
#include <pthread.h>
using namespace vf;
using namespace mvlt;
namespace vf { extern std::atomic<long> systemCalls __attribute__((weak)); }
static std::string S(long n) { return std::to_string(n); }

// destroyed after the thread-local data of the main thread
static Vault staticVault;
static VaultRecordRef staticRef;
static VaultRecordSet staticSet;
static thread_local std::unique_ptr<Vault> threadVault;
static thread_local VaultRecordRef threadRef;
static thread_local VaultRecordSet threadSet;
// uses the library from its destructor, built before anything else of the thread
struct Late
{
    bool armed = false;
    Vault* v = nullptr;
    ~Late()
    {
        if (!armed) return;
        Vault l;
        l.AddKey("a", 1);
        VaultRecordRef r;
        l.CreateRecord(r, {{"a", 2}});
        std::string s;
        VaultOperationResult q = r.GetData("a", s);
        if (q.IsOperationSuccess || q.ResultCode != VaultOperationResultCode::WrongType || l.Size() != 1) { static const char m[] = "wrong result in a destructor at the end of a thread\n"; if (write(2, m, sizeof m - 1)) {} _exit(67); }
    }
};
static thread_local Late late;

namespace
{
    Ctx* X;
    std::atomic<long> errorsMade{0};
    std::atomic<bool> failed{false};
    std::string failText;
    std::mutex failMtx;
    void bad(const std::string& s)
    {
        std::lock_guard<std::mutex> l(failMtx);
        if (!failed.exchange(true)) failText = s;
    }
    void want(const VaultOperationResult& r, bool ok, VaultOperationResultCode c, const char* key, const char* what)
    {
        if (!ok) ++errorsMade;
        if (r.IsOperationSuccess != ok || r.ResultCode != c) bad(std::string(what) + ": code " + S((long)r.ResultCode) + ", success " + S(r.IsOperationSuccess) + ", expected code " + S((long)c));
        else if (key && r.Key != key) bad(std::string(what) + ": key " + r.Key);
    }
    const VaultOperationResultCode OK = VaultOperationResultCode::Success, TYPE = VaultOperationResultCode::WrongType, KEY = VaultOperationResultCode::WrongKey;

    void fill(Vault& v, int n)
    {
        v.AddKey("a", 1);
        v.AddKey("s", std::string("d"));
        v.AddUniqueKey<int>("u");
        for (int i = 0; i < n; ++i) want(v.CreateRecord({{"a", i % 3}, {"s", "v" + S(i)}, {"u", i}}), true, OK, nullptr, "create");
    }
    // stack that the diagnostics will use holds no leftovers that look like addresses
    __attribute__((noinline)) void dirtyStack(int n)
    {
        volatile char b[40000];
        for (unsigned i = 0; i < sizeof b; i += 8) b[i] = b[i + 1] = b[i + 2] = b[i + 3] = b[i + 4] = b[i + 5] = b[i + 6] = b[i + 7] = (char)(0xA1 + n % 7);
    }
    // one refused operation out of the whole interface, with its exact result and effect
    void refused(Vault& v, VaultRecordSet& set, VaultRecordRef& ref, int which, int i)
    {
        std::size_t n = v.Size(), sn = set.Size();
        VaultRecordRef out;
        std::vector<VaultRecordRef> many;
        VaultRecordSet res;
        std::string s = "keep";
        int k = 77;
        dirtyStack(i);
        switch (which % 22)
        {
        case 0: want(ref.GetData("a", s), false, TYPE, "a", "get"); if (s != "keep") bad("a refused get changed its destination"); break;
        case 1: want(ref.GetData("zz", k), false, KEY, "zz", "get"); if (k != 77) bad("a refused get changed its destination"); break;
        case 2: want(ref.SetData("a", std::string("x")), false, TYPE, "a", "set"); break;
        case 3: want(ref.SetData("zz", 1), false, KEY, "zz", "set"); break;
        case 4: want(v.CreateRecord(out, {{"a", std::string("x")}, {"u", 100000 + i}}), false, TYPE, "a", "create"); break;
        case 5: want(v.CreateRecord({{"zz", 1}, {"u", 100000 + i}}), false, KEY, "zz", "create"); break;
        case 6: want(v.UpdateKey("a", std::string("x")), false, TYPE, "a", "update key"); break;
        case 7: want(v.UpdateKey("zz", 1), false, KEY, "zz", "update key"); break;
        case 8: want(v.GetKeyValue("a", s), false, TYPE, "a", "get default"); if (s != "keep") bad("a refused default changed its destination"); break;
        case 9: want(v.GetRecord("a", std::string("x"), out), false, TYPE, "a", "get record"); break;
        case 10: want(v.GetRecords("zz", 1, many), false, KEY, "zz", "get records"); break;
        case 11: want(v.RequestEqual("a", std::string("x"), res), false, TYPE, "a", "query"); break;
        case 12: want(v.RequestLess("zz", 1, res), false, KEY, "zz", "query"); break;
        case 13: want(v.RequestInterval("a", std::string("x"), std::string("y"), res), false, TYPE, "a", "interval"); break;
        case 14: want(v.Request(And(Equal("a", 1), Or(Equal("a", 2), Less("s", 5))), res), false, TYPE, "s", "request"); break;
        case 15: want(v.EraseRecord("u", std::string("x")), false, TYPE, "u", "erase"); break;
        case 16: want(v.EraseRecords("a", std::string("x")), false, TYPE, "a", "erase many"); break;
        case 17: if (v.AddKey("a", 5) || v.AddKey("s", 5)) bad("a key was added twice"); break;
        case 18: want(set.RequestGreater("a", std::string("x"), res), false, TYPE, "a", "set query"); break;
        case 19: want(set.GetRecord("a", std::string("x"), out), false, TYPE, "a", "set get record"); break;
        case 20: want(ref.SetData("u", (i & 1) ? 0 : 1), false, VaultOperationResultCode::UniqueKeyValueAlredyInSet, "u", "set unique"); break;
        default:
        {
            std::string t = "keep";
            want(ref.GetDataAsString("zz", t), false, KEY, "zz", "get string");
            VaultRecordRef none;
            want(none.SetData("a", 1), false, VaultOperationResultCode::DataRecordNotValid, nullptr, "invalid reference");
            break;
        }
        }
        if (v.Size() != n) bad("a refused operation changed the size");
        if (set.Size() != sn) bad("a refused operation changed a set");
        if (res.Size() != 0 || many.size() != 0 || out.IsValid()) bad("a refused operation produced a result");
    }
    // a successful operation between the refused ones
    void accepted(Vault& v, VaultRecordSet& set, VaultRecordRef& ref, int i)
    {
        std::string s;
        want(ref.SetData("s", "n" + S(i)), true, OK, nullptr, "set");
        want(ref.GetData("s", s), true, OK, nullptr, "get");
        if (s != "n" + S(i)) bad("a value is lost");
        VaultRecordRef q;
        want(v.GetRecord("s", "n" + S(i), q), true, OK, nullptr, "find");
        if (!(q == ref)) bad("a record is found as another one");
        VaultRecordSet r;
        want(set.RequestEqual("s", "n" + S(i), r), true, OK, nullptr, "set query");
        if (r.Size() != 1) bad("a member is not found");
    }
    // the last record, which nobody erases
    bool setUp(Vault& v, VaultRecordSet& set, VaultRecordRef& ref, int n)
    {
        fill(v, n);
        want(v.GetRecord("u", n - 1, ref), true, OK, nullptr, "find");
        want(v.RequestGreaterOrEqual("u", 0, set), true, OK, nullptr, "query");
        if (set.Size() != (std::size_t)n) bad("a query is wrong");
        return !failed;
    }
    // refused operations in the visitors, predicates and generators of other operations, to a given depth
    void nest(Vault& v, VaultRecordSet& set, VaultRecordRef& ref, Rng& r, int depth, bool writes)
    {
        if (failed) return;
        int w = (int)r.below(22);
        if (!writes && (w == 20)) w = 0;
        refused(v, set, ref, w, depth);
        if (depth <= 0) { if (writes) accepted(v, set, ref, depth); return; }
        int done = 0;
        auto once = [&](bool wr) { if (!done++) nest(v, set, ref, r, depth - 1, wr); };
        VaultRecordSet res;
        switch (r.below(writes ? 5 : 3))
        {
        case 0: v.SortBy("a", [&](const VaultRecordRef&) { once(writes); return false; }); break;
        case 1: set.SortBy("u", [&](const VaultRecordRef&) { once(writes); return done < 2 && r.chance(30); }); break;
        case 2: v.RequestEqual("a", 1, res, (std::size_t)-1, [&](const VaultRecordRef& q) { int k = 0; q.GetData("a", k); if (k != 1) bad("a predicate sees another record"); once(false); return true; }); break;
        case 3: nest(v, set, ref, r, depth - 1, writes); break;
        default: once(writes); refused(v, set, ref, (int)r.below(20), depth); break;
        }
        if (!failed && r.chance(30)) refused(v, set, ref, (int)r.below(20), depth);
    }
    struct Job { std::function<void()> f; };
    void* jobMain(void* p) { ((Job*)p)->f(); return nullptr; }
    void bigThread(const std::function<void()>& f)
    {
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, 512u << 20);
        Job j{f};
        pthread_t t;
        if (pthread_create(&t, &a, jobMain, &j)) throw Foreign{"no thread"};
        pthread_join(t, nullptr);
        pthread_attr_destroy(&a);
    }
    // what the diagnostics print
    struct Capture
    {
        int old, fd;
        std::string path;
        explicit Capture(const std::string& dir) : path(dir + "/console")
        {
            std::cout.flush();
            fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            old = dup(1);
            dup2(fd, 1);
        }
        std::string end()
        {
            std::cout.flush();
            fflush(stdout);
            dup2(old, 1);
            close(old);
            std::string s(1 << 20, '\0');
            ssize_t n = pread(fd, &s[0], s.size(), 0);
            s.resize(n > 0 ? (std::size_t)n : 0);
            close(fd);
            return s;
        }
    };
    // the program's own console output depends on this
    std::string streamState()
    {
        std::string s;
        for (std::ostream* o : {(std::ostream*)&std::cout, (std::ostream*)&std::cerr, (std::ostream*)&std::clog})
            s += S((long)o->flags()) + "/" + S((long)o->precision()) + "/" + S((long)o->width()) + "/" + S((long)o->fill()) + "/" + S((long)o->rdstate()) + "/" + S(o->tie() != nullptr) + "/" + o->getloc().name() + " ";
        return s;
    }
    long count(const std::string& s, const std::string& w)
    {
        long n = 0;
        for (std::size_t p = 0; (p = s.find(w, p)) != std::string::npos; p += w.size()) ++n;
        return n;
    }
}

int main(int argc, char** argv)
{
    Ctx x;
    x.parse(argc, argv);
    X = &x;
    muteStdout(x.verbose);
    // the static objects hold data until the very end of the program
    setUp(staticVault, staticSet, staticRef, 5);
    return x.run([&](long, Rng& r)
    {
        failed = false;
        const bool real = x.opt("real");
        const bool compact = real || r.chance(60);
        SetBackTraceFormat(compact ? BackTraceFormat::Compact : BackTraceFormat::None);
        const int kind = (int)x.optl("kind", (long)r.below(5));
        const int n = kind == 0 && r.chance(40) ? r.range(8, 40) : r.range(3, 7);
        long before = errorsMade;
        const std::string streams = streamState();
        x.t("kind " + S(kind) + (compact ? " compact" : " none") + " records " + S(n) + " seed " + std::to_string(r.s));
        if (kind == 0)
        {
            // one after another, console looked at
            Vault v;
            VaultRecordSet set;
            VaultRecordRef ref;
            if (setUp(v, set, ref, n))
                for (int i = 0; i < 40 && !failed; ++i)
                {
                    int w = (int)r.below(22);
                    if (w == 20) w = 0;
                    const bool table = r.chance(10);
                    auto print = [&]
                    {
                        Capture c(x.scratch);
                        v.Print();
                        set.Print(true, 2, "u", true);
                        ref.PrintRecord();
                        PrintAsTable(v.GetSortedRecords("u"));
                        return c.end();
                    };
                    std::string tables;
                    if (table) tables = print();
                    Capture c(x.scratch);
                    refused(v, set, ref, w, i);
                    std::string out = c.end();
                    if (table)
                    {
                        x.cnt("tables printed before and after an error");
                        if (print() != tables) bad("operation " + S(w) + ": the same table is printed differently afterwards: " + vf::show(print(), 300));
                        if (count(tables, "(" + S(n) + " records)") != 3) bad("a printed table states another number of records than " + S(n));
                    }
                    bool type = w == 0 || w == 2 || w == 4 || w == 6 || w == 8 || w == 9 || w == 11 || w == 13 || w == 15 || w == 16 || w == 18 || w == 19;
#ifndef NDEBUG
                    if (compact && type && (out.find("Requested key") == std::string::npos || out.find(w == 15 ? "u" : "a") == std::string::npos))
                        bad("operation " + S(w) + ": the type error is not reported on the console: " + vf::show(out, 300));
                    x.cnt("console reports", count(out, "Requested key"));
#else
                    (void)type;
#endif
                    if (r.chance(40)) accepted(v, set, ref, i);
                }
        }
        else if (kind == 1)
        {
            // deep chains
            int depth = r.chance(70) ? r.range(1, 40) : r.range(40, real ? 60 : r.chance(60) ? 300 : 1200);
            x.t("depth " + S(depth));
            x.counts["max_depth"] = std::max(x.counts["max_depth"], (long)depth);
            bigThread([&]
            {
                Vault v;
                VaultRecordSet set;
                VaultRecordRef ref;
                if (setUp(v, set, ref, n)) nest(v, set, ref, r, depth, true);
            });
        }
        else if (kind == 2)
        {
            // many threads, own vaults and a shared one
            Vault v;
            VaultRecordSet set0;
            VaultRecordRef ref0;
            setUp(v, set0, ref0, n);
            int th = r.range(2, 6), ops = real ? 3 : r.range(5, 40);
            x.t("threads " + S(th) + " x " + S(ops));
            std::vector<std::thread> ts;
            for (int t = 0; t < th; ++t)
            {
                uint64_t sd = r.next();
                ts.emplace_back([&, sd]
                {
                    Rng q(sd);
                    Vault own;
                    VaultRecordSet set, shared;
                    VaultRecordRef ref, sref;
                    if (!setUp(own, set, ref, 3)) return;
                    v.RequestGreaterOrEqual("u", 0, shared);
                    v.GetRecord("u", 0, sref);
                    for (int i = 0; i < ops && !failed; ++i)
                    {
                        int w = (int)q.below(20);
                        if (q.chance(50)) refused(v, shared, sref, w, i); else { refused(own, set, ref, w, i); accepted(own, set, ref, i); }
                        if (q.chance(15)) nest(own, set, ref, q, 5, true);
                    }
                });
            }
            for (auto& t : ts) t.join();
        }
        else if (kind == 3)
        {
            // objects of thread storage duration, in all orders of first use
            int th = r.range(1, 4);
            for (int t = 0; t < th; ++t)
            {
                uint64_t sd = r.next();
                std::thread([&, sd]
                {
                    Rng q(sd);
                    bool l = q.chance(50);
                    if (l && q.chance(50)) late.armed = true;
                    if (q.chance(30)) { VaultRecordRef early; early.IsValid(); }
                    threadVault.reset(new Vault());
                    if (setUp(*threadVault, threadSet, threadRef, n)) nest(*threadVault, threadSet, threadRef, q, q.range(0, 8), true);
                    if (l) late.armed = true;
                    if (q.chance(30)) threadVault.reset();
                }).join();
            }
        }
        else
        {
            // the long-lived objects
            nest(staticVault, staticSet, staticRef, r, r.range(0, 12), true);
            if (staticVault.Size() != 5 || staticSet.Size() != 5) bad("a long-lived vault lost records");
        }
        if (streamState() != streams) bad("the state of the console streams is " + streamState() + ", was " + streams);
        x.cnt("kind " + S(kind));
        x.cnt("refused operations", errorsMade - before);
        x.events += errorsMade - before;
        if (&systemCalls) x.counts["max_stack_lookups"] = systemCalls.load();
        x.nontrivial = true;
        if (failed) x.fail(failText);
    });
}
