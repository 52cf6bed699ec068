// Concurrency monitors: P18 (races, memory), P19 (linearizability, conservation), P20 (lock), P21 (progress).
#include "common.h"
#include "chaos.h"
#include "MVault.h"
#include "ReadWriteMutex.h"
#include <climits>
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <deque>
#include <memory>
#include <thread>
#include <iostream>
#include <sys/syscall.h>

using namespace vf;
using mvlt::Vault; using mvlt::VaultRecordRef; using mvlt::VaultRecordSet; using mvlt::VaultOperationResult; using mvlt::VaultParamInput;
typedef mvlt::VaultOperationResultCode RC;

// a value type that owns memory; the counter is relaxed so that it orders nothing
struct Own
{
    static std::atomic<long> live;
    int* p;
    Own() : p(new int(0)) { live.fetch_add(1, std::memory_order_relaxed); }
    explicit Own(int v) : p(new int(v)) { live.fetch_add(1, std::memory_order_relaxed); }
    Own(const Own& o) : p(new int(*o.p)) { live.fetch_add(1, std::memory_order_relaxed); }
    Own& operator=(const Own& o) { if (this != &o) { int* n = new int(*o.p); delete p; p = n; } return *this; }
    ~Own() { live.fetch_sub(1, std::memory_order_relaxed); delete p; }
    bool operator==(const Own& o) const { return *p == *o.p; }
    bool operator<(const Own& o) const { return *p < *o.p; }
    bool operator>(const Own& o) const { return *p > *o.p; }
};
std::atomic<long> Own::live{0};
namespace std { template <> struct hash<Own> { size_t operator()(const Own& o) const { return (size_t)*o.p; } }; }
namespace mvlt
{
    template <> std::string ToString(const Own& o) noexcept { return std::to_string(*o.p); }
    template <> bool FromString(const std::string& s, Own& o) noexcept { int x; if (!FromString(s, x)) return false; o = Own(x); return true; }
}

// ------------------------------------------------------------ threads of a case
struct Team
{
    std::atomic<int> ready{0};
    std::atomic<bool> go{false};
    std::vector<std::thread> ts;
    std::vector<std::string> err;
    std::atomic<bool> failed{false};
    explicit Team(int n) : err((std::size_t)n) {}
    template <class F> void add(int i, uint64_t seed, F f)
    {
        ts.emplace_back([this, i, seed, f]() {
            chaos::thread(seed);
            ready.fetch_add(1);
            while (!go.load()) std::this_thread::yield();
            try { f(); }
            catch (Violation& v) { err[(std::size_t)i] = v.what; failed.store(true); }
        });
    }
    void run()
    {
        while (ready.load() < (int)ts.size()) std::this_thread::yield();
        go.store(true);
        for (auto& t : ts) t.join();
    }
    void report(Ctx& x) { for (std::size_t i = 0; i < err.size(); ++i) if (!err[i].empty()) x.fail("thread " + std::to_string(i) + ": " + err[i]); }
};

// ================================================================ P18 / P21: mixed workload
static const char* const strs[] = {"", "a", "b,c", "d\"e", "long enough to live on the heap, surely longer than the small buffer"};

struct Stress
{
    Ctx& x;
    std::vector<std::unique_ptr<Vault>> vs;
    int keysMode; // dynamic keys in use
    bool files;
    bool bare = false; // no references and sets are held, so the whole vault may be dropped at any time
    std::atomic<long> counter[8];
    Stress(Ctx& c) : x(c) { for (auto& k : counter) k.store(0); }

    void make(int n)
    {
        for (int i = 0; i < n; ++i)
        {
            vs.emplace_back(new Vault());
            keysOf(*vs.back());
        }
    }
    static void keysOf(Vault& v)
    {
        v.AddUniqueKey<int>("id");
        v.AddKey("a", 0);
        v.AddKey("s", std::string("x"));
        v.AddKey("t", Own(1));
    }
    std::mutex badMtx;
    std::string bad; // what a thread found wrong
    struct Local
    {
        std::vector<VaultRecordRef> refs;
        std::vector<VaultRecordSet> sets;
        std::map<std::string, long> ops;
        long done = 0;
    };
    static VaultRecordRef& anyRef(Local& l, Rng& r) { return l.refs[r.below(l.refs.size())]; }
    static void hold(Rng& r) { if (r.chance(30)) chaos::pause(20); }

    void op(Local& l, Rng& r, int me, const std::string& dir)
    {
        Vault& v = *vs[r.below(vs.size())];
        VaultRecordRef& ref = anyRef(l, r);
        VaultRecordSet& set = l.sets[r.below(l.sets.size())];
        VaultRecordSet& set2 = l.sets[r.below(l.sets.size())];
        int n = (int)r.below(24);
        std::vector<VaultRecordRef> many;
        // a callback of the vault itself may read the vault again
        Vault* inside = nullptr;
        auto nest = [&]()
        {
            if (!inside || !r.chance(10)) return;
            std::vector<VaultRecordRef> some;
            VaultRecordRef q;
            switch (r.below(5))
            {
            case 0: inside->Size(); break;
            case 1: inside->GetRecord("id", n, q); break;
            case 2: inside->GetSortedRecords("a", false, 3); break;
            case 3: inside->GetRecords("a", 1, some); break;
            default: inside->ToStrings(); inside->GetKeys(); break;
            }
            ++l.ops["nested read"];
        };
        auto pred = [&](const VaultRecordRef& q) { int a = 0; q.GetData("a", a); hold(r); nest(); return (a & 1) == 0 || r.chance(50); };
        auto visit = [&](const VaultRecordRef& q) { std::string s; q.GetDataAsString("s", s); hold(r); nest(); return !r.chance(5); };
        int w = (int)r.below(68);
        if (w == 64 || w == 65) w = 66;
        if (bare)
        {
            static const int ok[] = {6, 6, 6, 6, 22, 23, 35, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 62, 64, 65};
            w = ok[r.below(sizeof(ok) / sizeof(*ok))];
        }
        if ((w >= 27 && w <= 35)) inside = &v;
        const char* name = "?";
        switch (w)
        {
        case 0: case 1: case 2: case 3: case 4: case 5: name = "create"; v.CreateRecord(ref, {{"id", n}, {"a", (int)r.below(5)}, {"s", std::string(strs[r.below(5)])}, {"t", Own((int)r.below(4))}}); break;
        case 6: name = "create plain"; v.CreateRecord({{"id", n}}); break;
        case 7: case 8: name = "set"; ref.SetData("a", (int)r.below(5)); break;
        case 9: name = "set string"; ref.SetData("s", std::string(strs[r.below(5)])); break;
        case 10: name = "set own"; ref.SetData("t", Own((int)r.below(4))); break;
        case 11: name = "set unique"; ref.SetData("id", n); break;
        case 12: name = "set many"; ref.SetData({{"a", (int)r.below(5)}, {"s", std::string(strs[r.below(5)])}, {"t", Own((int)r.below(4))}}); break;
        case 13: { name = "get"; int a; std::string s; Own o; ref.GetData("a", a); ref.GetData("s", s); ref.GetData("t", o); break; }
        case 14: { name = "get string"; std::string s; ref.GetDataAsString("t", s); break; }
        case 15: name = "ref dump"; if (r.chance(50)) ref.ToStrings(); else ref.ToJson(true, 2); break;
        case 16: name = "ref state"; ref.IsValid(); ref.GetRecordUniqueId(); ref.IsKeyExist("a"); ref.GetKeys(); (void)(ref == anyRef(l, r)); (void)(ref != anyRef(l, r)); break;
        case 17: { name = "ref copy"; VaultRecordRef c(ref); anyRef(l, r) = c; VaultRecordRef d(std::move(c)); anyRef(l, r) = std::move(d); break; }
        case 18: name = "ref reset"; ref.Reset(); break;
        case 19: name = "print record"; ref.PrintRecord(); break;
        case 20: case 21: name = "erase ref"; v.EraseRecord(ref); break;
        case 22: name = "erase by value"; v.EraseRecord("id", n); break;
        case 23: name = "erase many"; v.EraseRecords("a", (int)r.below(5), r.below(3)); break;
        case 24: case 25: name = "get record"; v.GetRecord("id", n, ref); break;
        case 26: name = "get records"; v.GetRecords("a", (int)r.below(5), many); break;
        case 27: name = "query eq"; v.RequestEqual("a", (int)r.below(5), set, (std::size_t)-1, pred); break;
        case 28: name = "query less"; v.RequestLess("a", (int)r.below(5), set); break;
        case 29: name = "query ge"; v.RequestGreaterOrEqual("id", n, set, r.below(6), pred); break;
        case 30: name = "query interval"; v.RequestInterval("s", std::string("a"), std::string("c"), set); break;
        case 31: name = "query own"; v.RequestGreater("t", Own((int)r.below(4)), set); break;
        case 32: case 33: name = "request and"; v.Request(mvlt::And(mvlt::GreaterOrEqual("a", (int)r.below(3)), mvlt::LessOrEqual("id", n, pred)), set); break;
        case 34: name = "request or"; v.Request(mvlt::Or(mvlt::Equal("a", 1), mvlt::And(mvlt::Less("id", n), mvlt::Greater("t", Own(1)))), set); break;
        case 35: name = "sort by"; v.SortBy(r.chance(50) ? "a" : "s", visit, r.chance(50), r.below(20)); break;
        case 36: name = "sorted"; many = v.GetSortedRecords(r.chance(50) ? "id" : "t", r.chance(50), r.chance(50) ? r.below(5) : (std::size_t)-1); break;
        case 37: name = "size"; v.Size(); v.GetKeys(); v.GetUniqueKeys(); v.IsKeyExist("d1"); { std::type_index t(typeid(void)); v.GetKeyType("a", t); } break;
        case 38: name = "json"; v.ToJson(r.chance(50), 2, r.chance(50)); break;
        case 39: name = "strings"; v.ToStrings(); break;
        case 40: name = "print"; v.Print(r.chance(50), r.chance(50) ? 3 : (std::size_t)-1, r.chance(50) ? "a" : "", r.chance(50)); break;
        case 41: if (files) { name = "save"; v.SaveToFile(dir + "/f" + std::to_string(me) + ".csv", {"id", "a", "s"}); } break;
        case 42: if (files) { name = "load"; v.ReadFile(dir + "/f" + std::to_string(me) + ".csv"); v.GetErrorsInLastReadedFile(); } break;
        case 43: name = "errors"; v.GetErrorsInLastReadedFile(); break;
        case 44: { name = "add key"; int k = (int)r.below(3); if (k == 0) v.AddKey("d0", 5); else if (k == 1) v.AddKey("d1", std::string("dyn")); else v.AddKey("d2", Own(9)); break; }
        case 45: name = "add unique key"; v.AddUniqueKey<int>("u2", [&](const std::size_t& c, const VaultRecordRef& q) { int i = 0; q.GetData("id", i); hold(r); return r.chance(90) ? (int)c : 1; }); break;
        case 46: name = "remove key"; v.RemoveKey(r.chance(30) ? "u2" : "d" + std::to_string(r.below(3))); break;
        case 47: name = "default"; v.UpdateKey("a", (int)r.below(5)); { int a; v.GetKeyValue("a", a); } break;
        case 48: if (r.chance(12)) { name = "drop data"; v.DropData(); } break;
        case 49: name = "set add"; set.AddRecord(ref); break;
        case 50: name = "set remove"; set.RemoveRecord(ref); set.CheckRecord(ref); break;
        case 51: name = "set clear"; set.Clear(); break;
        case 52: name = "set reset"; set.Reset(); break;
        case 53: name = "set algebra"; { int k = (int)r.below(3); if (k == 0) set.Join(set2); else if (k == 1) set.Exclude(set2); else set.Intersect(set2); } break;
        case 54: name = "set union"; { VaultRecordSet& d = l.sets[r.below(l.sets.size())]; if (r.chance(50)) Union(set, set2, d); else Intersection(set, set2, d); } break;
        case 55: name = "set copy"; { VaultRecordSet c(set); set2 = c; if (r.chance(50)) l.sets[r.below(l.sets.size())] = std::move(c); } break;
        case 56: name = "set equal"; (void)(set == set2); (void)(set != set2); set.Size(); set.GetKeys(); set.GetIsParentVaultValid(); break;
        case 57: name = "set query"; set.RequestLessOrEqual("a", (int)r.below(5), set2, (std::size_t)-1, pred); break;
        case 58: name = "set request"; set.Request(mvlt::Or(mvlt::Equal("a", 2), mvlt::Greater("id", n)), set2); break;
        case 59: name = "set views"; set.GetSortedRecords("a"); set.SortBy("id", visit); set.ToJson(); set.ToStrings(); break;
        case 60: name = "set print"; set.Print(); if (files) set.SaveToFile(dir + "/g" + std::to_string(me) + ".csv"); break;
        case 62:
        {
            name = "vault copy";
            Vault c(v);
            if (r.chance(50)) { Vault d; d.AddKey("zz", 1); d = v; if (d.ToStrings().size() != d.Size()) { std::lock_guard<std::mutex> g(badMtx); bad = "the copy of a shared vault lists another number of records than it has"; } }
            std::size_t rows = c.ToStrings().size(), size = c.Size(), sorted = c.IsKeyExist("a") ? c.GetSortedRecords("a").size() : size;
            if (rows != size || sorted != size) { std::lock_guard<std::mutex> g(badMtx); bad = "the copy of a shared vault of " + std::to_string(size) + " records lists " + std::to_string(rows) + " rows, " + std::to_string(sorted) + " by a key"; }
            break;
        }
        case 64: name = "drop vault"; v.DropVault(); break;
        case 65: name = "add all keys"; keysOf(v); break;
        case 66: name = "set remove by value"; if (r.chance(50)) set.RemoveRecord("id", n); else set.RemoveRecords("a", (int)r.below(5), r.below(4)); break;
        case 67:
        {
            name = "set key info";
            std::type_index t(typeid(void));
            int a = 0;
            set.GetKeyType("d0", t);
            set.GetKeyValue("a", a);
            set.IsKeyExist("d1");
            set.GetKeys();
            set.GetUniqueKeys();
            break;
        }
        default: name = "set lookup"; set.GetRecord("id", n, ref); set.GetRecords("a", 1, many); break;
        }
        ++l.ops[name];
        ++l.done;
    }

    // all handles against each other once the threads are gone
    void audit(std::vector<Local>& ls)
    {
        for (auto& vp : vs)
        {
            std::map<int, int> seen;
            std::size_t n = 0;
            int last = -1;
            vp->SortBy("id", [&](const VaultRecordRef& q)
            {
                int id = -1;
                if (!q.GetData("id", id).IsOperationSuccess) x.fail("a listed record has no id");
                if (n && id <= last) x.fail("ids are not strictly sorted after the run");
                last = id;
                ++seen[id];
                ++n;
                VaultRecordRef found;
                if (!vp->GetRecord("id", id, found).IsOperationSuccess || found != q) x.fail("record " + std::to_string(id) + " is not found by its id after the run");
                return true;
            });
            if (n != vp->Size()) x.fail("after the run the vault has " + std::to_string(vp->Size()) + " records, but " + std::to_string(n) + " are listed");
            std::size_t byA = vp->GetSortedRecords("a").size(), byT = vp->GetSortedRecords("t").size();
            if (byA != n || byT != n) x.fail("after the run the keys list different numbers of records: " + std::to_string(n) + ", " + std::to_string(byA) + ", " + std::to_string(byT));
        }
        for (auto& l : ls) for (auto& s : l.sets)
        {
            if (!s.GetIsParentVaultValid()) continue;
            std::size_t n = 0;
            Vault* home = nullptr;
            s.SortBy("a", [&](const VaultRecordRef& q)
            {
                ++n;
                if (!q.IsValid()) x.fail("a set lists a dead record after the run");
                int id = -1;
                if (!q.GetData("id", id).IsOperationSuccess) x.fail("a set lists a record without id");
                bool in = false;
                for (auto& vp : vs) { VaultRecordRef f; if (vp->GetRecord("id", id, f).IsOperationSuccess && f == q) { in = true; if (home && home != vp.get()) x.fail("a set has records of two vaults"); home = vp.get(); } }
                if (!in) x.fail("a set lists a record that is in no vault after the run");
                if (!s.CheckRecord(q)) x.fail("a set does not know its own record");
                return true;
            });
            if (n != s.Size()) x.fail("a set of " + std::to_string(s.Size()) + " records lists " + std::to_string(n));
            std::vector<std::string> k = s.GetKeys();
            if (s.ToStrings().size() != n) x.fail("set dump differs from its size");
        }
    }
};

static void caseStress(Ctx& x, Rng& r, bool progress)
{
    {
        Stress st(x);
        int T = r.range(2, progress ? 7 : 6), K = r.range(20, progress ? 120 : 70);
        st.files = r.chance(30);
        st.make(r.chance(progress ? 70 : 40) ? 2 : 1);
        st.bare = r.chance(12);
        unsigned level = (unsigned)r.below(5);
        uint64_t seed = r.next();
        std::vector<Stress::Local> ls((std::size_t)T);
        int pre = r.range(0, 20);
        std::vector<VaultRecordRef> common;
        for (int i = 0; i < pre; ++i) { VaultRecordRef q; if (st.vs[r.below(st.vs.size())]->CreateRecord(q, {{"id", i}, {"a", i % 5}}).IsOperationSuccess) common.push_back(q); }
        for (auto& l : ls)
        {
            l.refs.resize(6);
            l.sets.resize(3);
            if (!st.bare) for (auto& q : l.refs) if (!common.empty()) q = r.pick(common);
        }
        common.clear();
        Team team(T);
        std::string dir = x.scratch;
        chaos::delays = 0;
        chaos::start(seed, level);
        chaos::spurious(r.chance(50) ? (unsigned)r.below(90) : 0);
        for (int i = 0; i < T; ++i)
        {
            uint64_t s = r.next();
            team.add(i, s, [&, i, s]() { Rng g(s); for (int k = 0; k < K; ++k) { st.op(ls[(std::size_t)i], g, i, dir); if (g.chance(5)) chaos::pause(30); } });
        }
        team.run();
        chaos::stop();
        team.report(x);
        std::string tr = std::to_string(T) + " threads x " + std::to_string(K) + " operations on " + std::to_string(st.vs.size()) + " vaults, disturbance " + std::to_string(level) + ", schedule seed " + std::to_string(seed);
        x.t(tr);
        for (auto& l : ls) { for (auto& o : l.ops) x.cnt("op " + o.first, o.second); x.events += l.done; if (l.done != K) x.fail("a thread did not finish"); }
        x.cnt("injected delays", chaos::delays.load());
        if (!st.bad.empty()) x.fail(st.bad);
        if (!st.bare) st.audit(ls);
        else for (auto& v : st.vs) if (v->ToStrings().size() != v->Size()) x.fail("a vault lists another number of records than it has");
        std::string state;
        for (auto& v : st.vs) state += std::to_string(v->Size()) + "," + std::to_string(v->GetKeys().size()) + ";";
        for (auto& l : ls) for (auto& s : l.sets) state += std::to_string(s.Size()) + " ";
        x.t("end state: " + state);
        x.states.insert(hashStr(state));
        x.nontrivial = true;
        // any order of destruction
        if (r.chance(50)) ls.clear();
        if (r.chance(50)) st.vs.clear();
    }
    if (Own::live.load() != 0) { long n = Own::live.load(); Own::live = 0; x.fail(std::to_string(n) + " stored objects are alive after everything is gone"); }
}

// a writer against readers that never leave the lock free
static void caseStarve(Ctx& x, Rng& r)
{
    Vault v;
    v.AddUniqueKey<int>("id");
    v.AddKey("a", 0);
    for (int i = 0; i < 5; ++i) v.CreateRecord({{"id", i}});
    int T = r.range(2, 6), W = r.range(1, 2), K = r.range(3, 12);
    unsigned work = 200 + (unsigned)r.below(800);
    std::atomic<bool> stop{false};
    std::atomic<int> writers{W};
    std::atomic<long> reads{0};
    Team team(T + W);
    chaos::start(r.next(), (unsigned)r.below(3));
    chaos::spurious(r.chance(50) ? 50 : 0);
    for (int i = 0; i < T; ++i)
    {
        uint64_t s = r.next();
        team.add(i, s, [&, s]()
        {
            Rng g(s);
            // long overlapping reads: some reader is always inside
            while (!stop.load()) { v.SortBy("id", [&](const VaultRecordRef&) { timespec t = {0, (long)(work * 1000 / 5)}; nanosleep(&t, nullptr); return true; }); reads.fetch_add(1); }
        });
    }
    for (int w = 0; w < W; ++w)
        team.add(T + w, r.next(), [&, w]() { for (int k = 0; k < K; ++k) { VaultRecordRef q; v.GetRecord("id", w, q); q.SetData("a", k); } if (writers.fetch_sub(1) == 1) stop.store(true); });
    // a watchdog decides, not the driver, so that the reason is clear
    std::atomic<bool> over{false};
    std::string prop = x.prop;
    std::thread dog([&]() { for (int i = 0; i < 300 && !over.load(); ++i) std::this_thread::sleep_for(std::chrono::milliseconds(100)); if (!over.load()) stop.store(true); });
    bool starved = false;
    team.ready.load();
    std::thread watch([&]() { for (int i = 0; i < 280 && !over.load(); ++i) std::this_thread::sleep_for(std::chrono::milliseconds(100)); if (!over.load()) starved = true; });
    team.run();
    over.store(true);
    dog.join();
    watch.join();
    chaos::stop();
    x.t(std::to_string(T) + " readers, " + std::to_string(W) + " writers x " + std::to_string(K) + ", read length " + std::to_string(work) + " us");
    x.events += reads.load() + W * K;
    x.cnt("reads while writers waited", reads.load());
    x.cnt("writer turns", W * K);
    x.states.insert(mix((uint64_t)T, mix((uint64_t)W, (uint64_t)K)));
    x.nontrivial = true;
    if (starved) x.fail("a writer was not served within 28 s while readers kept arriving");
}

// ================================================================ P19: linearizability of recorded histories
enum K { CREATE, SETX, SETY, SETU, SETXY, SETXUY, GETX, ROWREF, ERASEREF, ERASEU, ERASEX, GETRECU, QUERY, QUERYLIM, SETSIZE, SETROWS, SORTVISIT, SORTED, SIZE, DROP, ALLROWS, VALID, ADDZ, DELZ, HASZ, COUNTX, SETADD, SETDEL, KS };
static const char* const kn[KS] = {"create", "set x", "set y", "set u", "set x,y", "set x,u,y", "get x", "ref.ToStrings", "erase ref", "erase u", "erase x", "GetRecord u", "query x>=", "query x>= lim", "set.Size", "set.ToStrings", "SortBy x", "GetSortedRecords", "Size", "DropData", "ToStrings", "IsValid", "AddKey z", "RemoveKey z", "IsKeyExist z", "GetRecords x", "set.AddRecord", "set.RemoveRecord"};
struct Op
{
    int th, kind, id = -1, a = 0, b = 0, c = 0; // id: record the operation refers to
    std::vector<std::string> res;
    long inv = 0, ret = 0;
    std::string show() const
    {
        std::string s = "t" + std::to_string(th) + " [" + std::to_string(inv) + "," + std::to_string(ret) + "] " + kn[kind] + " r" + std::to_string(id) + " (" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + ") ->";
        for (auto& q : res) s += " " + q;
        return s;
    }
};
struct MRec { int u, x, y; };
struct MState
{
    std::map<int, MRec> live;
    bool z = false;
    std::vector<std::set<int>> sets;
    std::string key() const
    {
        std::string s = z ? "z" : "-";
        for (auto& e : live) s += std::to_string(e.first) + ":" + std::to_string(e.second.u) + "," + std::to_string(e.second.x) + "," + std::to_string(e.second.y) + ";";
        for (auto& m : sets) { s += "|"; for (int i : m) s += std::to_string(i) + ","; }
        return s;
    }
    std::string row(int id) const { const MRec& m = live.at(id); return std::to_string(id) + "/" + std::to_string(m.u) + "/" + std::to_string(m.x) + "/" + std::to_string(m.y) + (z ? "/7" : ""); }
    bool hasU(int u, int except) const { for (auto& e : live) if (e.first != except && e.second.u == u) return true; return false; }
    void erase(int id) { live.erase(id); for (auto& s : sets) s.erase(id); }
    typedef std::vector<std::string> V;

    // applies the operation when its recorded result is what this state gives
    bool apply(const Op& o)
    {
        auto it = live.find(o.id);
        bool has = it != live.end();
        std::set<int>& mine = sets[(std::size_t)o.th];
        switch (o.kind)
        {
        case CREATE: if (hasU(o.a, -1)) return o.res == V{"dup"}; if (o.res != V{"ok"}) return false; live[o.id] = {o.a, o.b, o.c}; return true;
        case SETX: if (!has) return o.res == V{"invalid"}; if (o.res != V{"ok"}) return false; it->second.x = o.a; return true;
        case SETY: if (!has) return o.res == V{"invalid"}; if (o.res != V{"ok"}) return false; it->second.y = o.a; return true;
        case SETU: if (!has) return o.res == V{"invalid"}; if (hasU(o.a, o.id)) return o.res == V{"dup"}; if (o.res != V{"ok"}) return false; it->second.u = o.a; return true;
        case SETXY: if (!has) return o.res == V{"invalid"}; if (o.res != V{"ok"}) return false; it->second.x = o.a; it->second.y = o.b; return true;
        case SETXUY:
            if (!has) return o.res == V{"invalid"};
            if (hasU(o.b, o.id)) { if (o.res != V{"dup"}) return false; it->second.x = o.a; return true; }
            if (o.res != V{"ok"}) return false;
            it->second = {o.b, o.a, o.c};
            return true;
        case GETX: return o.res == (has ? V{std::to_string(it->second.x)} : V{"invalid"});
        case ROWREF: return o.res == (has ? V{row(o.id)} : V{});
        case ERASEREF: if (!has) return o.res == V{"no"}; if (o.res != V{"yes"}) return false; erase(o.id); return true;
        case ERASEU:
            for (auto& e : live) if (e.second.u == o.a) { if (o.res != V{"yes"}) return false; int k = e.first; erase(k); return true; }
            return o.res == V{"no"};
        case ERASEX:
        {
            std::vector<int> k;
            for (auto& e : live) if (e.second.x == o.a) k.push_back(e.first);
            if (k.empty()) return o.res == V{"no"};
            if (o.res != V{"yes"}) return false;
            for (int i : k) erase(i);
            return true;
        }
        case GETRECU:
            for (auto& e : live) if (e.second.u == o.a) return o.res.size() == 1 && (o.res[0] == "?" || o.res[0] == std::to_string(e.first));
            return o.res == V{"none"};
        case QUERY:
        {
            V want;
            mine.clear();
            for (auto& e : live) if (e.second.x >= o.a) { want.push_back(row(e.first)); mine.insert(e.first); }
            std::sort(want.begin(), want.end());
            return o.res == want;
        }
        case QUERYLIM: // a: bound, b: limit; result: rows accepted by the predicate, in the order it saw them
        {
            std::size_t n = 0;
            for (auto& e : live) if (e.second.x >= o.a) ++n;
            if (o.res.size() != std::min(n, (std::size_t)o.b)) return false;
            mine.clear();
            for (auto& s : o.res)
            {
                int id = atoi(s.c_str());
                if (!live.count(id) || live[id].x < o.a || row(id) != s || !mine.insert(id).second) return false;
            }
            return true;
        }
        case SETSIZE: return o.res == V{std::to_string(mine.size())};
        case SETROWS: { V want; for (int i : mine) want.push_back(row(i)); std::sort(want.begin(), want.end()); return o.res == want; }
        case SORTVISIT:
        {
            if (o.res.size() != live.size()) return false;
            int last = INT_MIN;
            std::set<int> ids;
            for (auto& s : o.res) { int id = atoi(s.c_str()); if (!live.count(id) || row(id) != s || live[id].x < last || !ids.insert(id).second) return false; last = live[id].x; }
            return true;
        }
        case SORTED:
        {
            if (o.res.size() != live.size()) return false;
            int last = INT_MIN;
            std::set<int> ids;
            for (auto& s : o.res) { if (s == "?") continue; int id = atoi(s.c_str()); if (!live.count(id) || live[id].x < last || !ids.insert(id).second) return false; last = live[id].x; }
            return true;
        }
        case COUNTX: { std::size_t n = 0; for (auto& e : live) if (e.second.x == o.a) ++n; return o.res == V{std::to_string(n)}; }
        case SIZE: return o.res == V{std::to_string(live.size())};
        case DROP: live.clear(); for (auto& s : sets) s.clear(); return true;
        case ALLROWS: { V want; for (auto& e : live) want.push_back(row(e.first)); std::sort(want.begin(), want.end()); return o.res == want; }
        case VALID: return o.res == V{has ? "yes" : "no"};
        case ADDZ: if (z) return o.res == V{"no"}; z = true; return o.res == V{"yes"};
        case DELZ: if (!z) return o.res == V{"no"}; z = false; return o.res == V{"yes"};
        case HASZ: return o.res == V{z ? "yes" : "no"};
        case SETADD: if (!has) return o.res == V{"invalid"}; if (!mine.insert(o.id).second) return o.res == V{"already"}; return o.res == V{"ok"};
        case SETDEL: if (!mine.count(o.id)) return o.res == V{"no"}; mine.erase(o.id); return o.res == V{"yes"};
        }
        return false;
    }
};
struct Linearizer
{
    const std::vector<Op>& ops;
    std::unordered_set<std::string> memo;
    long nodes = 0, limit;
    std::size_t deepest = 0;
    Linearizer(const std::vector<Op>& o, long lim) : ops(o), limit(lim) {}
    // 1 found, 0 impossible, -1 gave up
    int search(uint64_t done, const MState& s)
    {
        std::size_t n = (std::size_t)__builtin_popcountll(done);
        deepest = std::max(deepest, n);
        if (n == ops.size()) return 1;
        if (++nodes > limit) return -1;
        std::string k((const char*)&done, 8);
        k += s.key();
        if (!memo.insert(k).second) return 0;
        long first = LONG_MAX;
        for (std::size_t i = 0; i < ops.size(); ++i) if (!(done >> i & 1)) first = std::min(first, ops[i].ret);
        bool gave = false;
        for (std::size_t i = 0; i < ops.size(); ++i)
        {
            if ((done >> i & 1) || ops[i].inv > first) continue;
            MState t = s;
            if (!t.apply(ops[i])) continue;
            int res = search(done | 1ull << i, t);
            if (res == 1) return 1;
            if (res < 0) gave = true;
        }
        return gave ? -1 : 0;
    }
};
static std::string rowText(const std::vector<std::pair<std::string, std::string>>& f)
{
    std::string s;
    for (auto& p : f) s += (s.empty() ? "" : "/") + p.second;
    return s;
}
static void caseLin(Ctx& x, Rng& r)
{
    Vault v;
    v.AddKey("id", -1); // immutable name of a record
    v.AddUniqueKey<int>("u");
    v.AddKey("x", 0);
    v.AddKey("y", 0);
    int T = r.range(2, 4), per = r.range(4, 36 / T), us = r.range(2, 6), xs = r.range(2, 5);
    MState init;
    init.sets.resize((std::size_t)T);
    std::vector<VaultRecordRef> refs0;
    std::vector<int> ids0;
    int pre = r.range(0, 4);
    for (int i = 0; i < pre; ++i)
    {
        VaultRecordRef q;
        int xv = (int)r.below((uint64_t)xs);
        if (!v.CreateRecord(q, {{"id", i}, {"u", i}, {"x", xv}, {"y", 0}}).IsOperationSuccess) throw Foreign{"create"};
        init.live[i] = {i, xv, 0};
        refs0.push_back(q);
        ids0.push_back(i);
    }
    // focus makes a few kinds dominate
    std::vector<int> focus;
    int profile = (int)r.below(6);
    if (profile == 0) focus = {CREATE, ERASEU, ERASEREF, SETU, GETRECU};
    else if (profile == 1) focus = {SETXY, ROWREF, SORTVISIT, QUERY, ALLROWS, SETXUY};
    else if (profile == 2) focus = {QUERY, SETROWS, SETSIZE, SETX, ERASEREF, CREATE, SETADD, SETDEL, QUERYLIM};
    else if (profile == 3) focus = {CREATE, SORTED, SORTVISIT, SETX, DROP, ERASEX};
    else if (profile == 4) focus = {ADDZ, DELZ, HASZ, ALLROWS, ROWREF, SETROWS, CREATE};
    unsigned level = (unsigned)r.below(5);
    std::vector<std::vector<Op>> hist((std::size_t)T);
    std::atomic<long> clock{0};
    std::vector<std::vector<VaultRecordRef>> refs((std::size_t)T, refs0);
    std::vector<std::vector<int>> ids((std::size_t)T, ids0);
    std::vector<VaultRecordSet> sets((std::size_t)T);
    // sets are attached before the start
    for (auto& s : sets) { v.RequestEqual("u", -77, s); if (!s.GetIsParentVaultValid()) throw Foreign{"set not attached"}; }
    Team team(T);
    chaos::start(r.next(), level);
    chaos::spurious(r.chance(30) ? 50 : 0);
    for (int t = 0; t < T; ++t)
    {
        uint64_t s = r.next();
        team.add(t, s, [&, t, s]()
        {
            Rng g(s);
            auto& mine = refs[(std::size_t)t];
            auto& mid = ids[(std::size_t)t];
            auto& set = sets[(std::size_t)t];
            auto& h = hist[(std::size_t)t];
            h.reserve((std::size_t)per);
            for (int i = 0; i < per; ++i)
            {
                Op o;
                o.th = t;
                o.kind = !focus.empty() && g.chance(80) ? g.pick(focus) : (int)g.below(KS);
                if (o.kind == DROP && g.chance(50)) o.kind = SIZE;
                std::size_t ri = mine.empty() ? 0 : g.below(mine.size());
                bool needs = o.kind == SETX || o.kind == SETY || o.kind == SETU || o.kind == SETXY || o.kind == SETXUY || o.kind == GETX || o.kind == ROWREF || o.kind == ERASEREF || o.kind == VALID || o.kind == SETADD || o.kind == SETDEL;
                if (needs && mine.empty()) o.kind = CREATE;
                if (needs && !mine.empty()) o.id = mid[ri];
                VaultRecordRef none;
                VaultRecordRef& ref = mine.empty() ? none : mine[ri];
                auto code = [](const VaultOperationResult& q) -> std::string
                {
                    if (q.IsOperationSuccess) return "ok";
                    if (q.ResultCode == RC::UniqueKeyValueAlredyInSet) return "dup";
                    if (q.ResultCode == RC::DataRecordNotValid) return "invalid";
                    if (q.ResultCode == RC::RecordAlredyInSet) return "already";
                    return "code " + std::to_string((int)q.ResultCode);
                };
                auto rowOf = [](const VaultRecordRef& q) { return rowText(q.ToStrings()); };
                if (g.chance(20)) chaos::pause(10);
                o.a = (int)g.below((uint64_t)xs); o.b = (int)g.below((uint64_t)xs); o.c = (int)g.below((uint64_t)xs);
                switch (o.kind)
                {
                case CREATE:
                {
                    o.id = 100 + t * 100 + i; o.a = (int)g.below((uint64_t)us);
                    VaultRecordRef q;
                    std::vector<std::pair<std::string, VaultParamInput>> p = {{"id", o.id}, {"u", o.a}, {"x", o.b}, {"y", o.c}};
                    o.inv = clock.fetch_add(1);
                    VaultOperationResult w = v.CreateRecord(q, p);
                    o.ret = clock.fetch_add(1);
                    o.res = {code(w)};
                    if (w.IsOperationSuccess) { mine.push_back(q); mid.push_back(o.id); }
                    break;
                }
                case SETX: { o.inv = clock.fetch_add(1); auto w = ref.SetData("x", o.a); o.ret = clock.fetch_add(1); o.res = {code(w)}; break; }
                case SETY: { o.inv = clock.fetch_add(1); auto w = ref.SetData("y", o.a); o.ret = clock.fetch_add(1); o.res = {code(w)}; break; }
                case SETU: { o.a = (int)g.below((uint64_t)us); o.inv = clock.fetch_add(1); auto w = ref.SetData("u", o.a); o.ret = clock.fetch_add(1); o.res = {code(w)}; break; }
                case SETXY: { std::vector<std::pair<std::string, VaultParamInput>> p = {{"x", o.a}, {"y", o.b}}; o.inv = clock.fetch_add(1); auto w = ref.SetData(p); o.ret = clock.fetch_add(1); o.res = {code(w)}; break; }
                case SETXUY: { o.b = (int)g.below((uint64_t)us); std::vector<std::pair<std::string, VaultParamInput>> p = {{"x", o.a}, {"u", o.b}, {"y", o.c}}; o.inv = clock.fetch_add(1); auto w = ref.SetData(p); o.ret = clock.fetch_add(1); o.res = {code(w)}; break; }
                case GETX: { int q = 0; o.inv = clock.fetch_add(1); auto w = ref.GetData("x", q); o.ret = clock.fetch_add(1); o.res = {w.IsOperationSuccess ? std::to_string(q) : code(w)}; break; }
                case ROWREF: { o.inv = clock.fetch_add(1); auto w = ref.ToStrings(); o.ret = clock.fetch_add(1); if (!w.empty()) o.res = {rowText(w)}; break; }
                case ERASEREF: { o.inv = clock.fetch_add(1); bool w = v.EraseRecord(ref); o.ret = clock.fetch_add(1); o.res = {w ? "yes" : "no"}; break; }
                case ERASEU: { o.a = (int)g.below((uint64_t)us); o.inv = clock.fetch_add(1); auto w = v.EraseRecord("u", o.a); o.ret = clock.fetch_add(1); o.res = {w.IsOperationSuccess ? "yes" : "no"}; break; }
                case ERASEX: { o.inv = clock.fetch_add(1); auto w = v.EraseRecords("x", o.a); o.ret = clock.fetch_add(1); o.res = {w.IsOperationSuccess ? "yes" : "no"}; break; }
                case GETRECU:
                {
                    o.a = (int)g.below((uint64_t)us);
                    VaultRecordRef q;
                    o.inv = clock.fetch_add(1); auto w = v.GetRecord("u", o.a, q); o.ret = clock.fetch_add(1);
                    int id = -1;
                    if (!w.IsOperationSuccess) o.res = {"none"};
                    else if (q.GetData("id", id).IsOperationSuccess) { o.res = {std::to_string(id)}; mine.push_back(q); mid.push_back(id); }
                    else o.res = {"?"};
                    break;
                }
                case QUERY: case QUERYLIM:
                {
                    o.b = o.kind == QUERY ? -1 : (int)g.below(4);
                    o.inv = clock.fetch_add(1);
                    v.RequestGreaterOrEqual("x", o.a, set, (std::size_t)(long)o.b, [&](const VaultRecordRef& q) { o.res.push_back(rowOf(q)); return true; });
                    o.ret = clock.fetch_add(1);
                    if (o.kind == QUERY) std::sort(o.res.begin(), o.res.end());
                    break;
                }
                case SETSIZE: { o.inv = clock.fetch_add(1); auto w = set.Size(); o.ret = clock.fetch_add(1); o.res = {std::to_string(w)}; break; }
                case SETROWS: { o.inv = clock.fetch_add(1); auto w = set.ToStrings(); o.ret = clock.fetch_add(1); for (auto& q : w) o.res.push_back(rowText(q)); std::sort(o.res.begin(), o.res.end()); break; }
                case SORTVISIT: { o.inv = clock.fetch_add(1); v.SortBy("x", [&](const VaultRecordRef& q) { o.res.push_back(rowOf(q)); return true; }); o.ret = clock.fetch_add(1); break; }
                case SORTED:
                {
                    o.inv = clock.fetch_add(1); auto w = v.GetSortedRecords("x"); o.ret = clock.fetch_add(1);
                    for (auto& q : w) { int id; o.res.push_back(q.GetData("id", id).IsOperationSuccess ? std::to_string(id) : "?"); }
                    break;
                }
                case COUNTX: { std::vector<VaultRecordRef> w; o.inv = clock.fetch_add(1); v.GetRecords("x", o.a, w); o.ret = clock.fetch_add(1); o.res = {std::to_string(w.size())}; break; }
                case SIZE: { o.inv = clock.fetch_add(1); auto w = v.Size(); o.ret = clock.fetch_add(1); o.res = {std::to_string(w)}; break; }
                case DROP: o.inv = clock.fetch_add(1); v.DropData(); o.ret = clock.fetch_add(1); break;
                case ALLROWS: { o.inv = clock.fetch_add(1); auto w = v.ToStrings(); o.ret = clock.fetch_add(1); for (auto& q : w) o.res.push_back(rowText(q)); std::sort(o.res.begin(), o.res.end()); break; }
                case VALID: { o.inv = clock.fetch_add(1); bool w = ref.IsValid(); o.ret = clock.fetch_add(1); o.res = {w ? "yes" : "no"}; break; }
                case ADDZ: { o.inv = clock.fetch_add(1); bool w = v.AddKey("z", 7); o.ret = clock.fetch_add(1); o.res = {w ? "yes" : "no"}; break; }
                case DELZ: { o.inv = clock.fetch_add(1); bool w = v.RemoveKey("z"); o.ret = clock.fetch_add(1); o.res = {w ? "yes" : "no"}; break; }
                case HASZ: { o.inv = clock.fetch_add(1); bool w = v.IsKeyExist("z"); o.ret = clock.fetch_add(1); o.res = {w ? "yes" : "no"}; break; }
                case SETADD: { o.inv = clock.fetch_add(1); auto w = set.AddRecord(ref); o.ret = clock.fetch_add(1); o.res = {code(w)}; break; }
                case SETDEL: { o.inv = clock.fetch_add(1); bool w = set.RemoveRecord(ref); o.ret = clock.fetch_add(1); o.res = {w ? "yes" : "no"}; break; }
                }
                h.push_back(o);
            }
        });
    }
    team.run();
    chaos::stop();
    std::vector<Op> ops;
    for (auto& h : hist) for (auto& o : h) { ops.push_back(o); x.cnt(std::string("op ") + kn[o.kind]); }
    // the end of the history is an operation too
    Op last;
    last.th = 0; last.kind = SORTVISIT; last.inv = clock.fetch_add(1);
    v.SortBy("x", [&](const VaultRecordRef& q) { last.res.push_back(rowText(q.ToStrings())); return true; });
    last.ret = clock.fetch_add(1);
    ops.push_back(last);
    for (int t = 0; t < T; ++t)
    {
        Op o;
        o.th = t; o.kind = SETROWS; o.inv = clock.fetch_add(1);
        auto w = sets[(std::size_t)t].ToStrings();
        o.ret = clock.fetch_add(1);
        for (auto& q : w) o.res.push_back(rowText(q));
        std::sort(o.res.begin(), o.res.end());
        ops.push_back(o);
    }
    std::sort(ops.begin(), ops.end(), [](const Op& a, const Op& b) { return a.inv < b.inv; });
    long overlap = 0;
    for (std::size_t i = 0; i < ops.size(); ++i) for (std::size_t k = i + 1; k < ops.size() && ops[k].inv < ops[i].ret; ++k) ++overlap;
    x.t("start: " + init.key());
    for (auto& o : ops) x.t(o.show());
    x.events += (long)ops.size();
    x.cnt("overlapping operation pairs", overlap);
    x.cnt("max_overlaps of a history", overlap);
    Linearizer lin(ops, 400000);
    int ok = lin.search(0, init);
    x.cnt("search nodes", lin.nodes);
    if (ok < 0) { ++x.inconclusive; return; }
    if (ok == 0) x.fail("history of " + std::to_string(ops.size()) + " operations by " + std::to_string(T) + " threads is not linearizable (at most " + std::to_string(lin.deepest) + " could be ordered)");
    if (overlap) { x.nontrivial = true; std::string sig; for (auto& o : ops) sig += (char)('a' + o.th), sig += std::to_string(o.kind); x.states.insert(hashStr(sig)); }
}

// ---------------------------------------------------------------- P19: conservation in long runs
static void caseCons(Ctx& x, Rng& r)
{
    const int T = r.range(3, 8), Kops = r.range(80, 400), US = r.range(3, 40);
    Vault v;
    v.AddKey("rid", -1);
    v.AddUniqueKey<int>("u");
    v.AddKey("a", 0);
    v.AddKey("b", 0);
    for (int t = 0; t < T; ++t) v.AddKey("c" + std::to_string(t), 0);
    const int cap = T * Kops + 1;
    std::unique_ptr<std::atomic<int>[]> erased(new std::atomic<int>[(std::size_t)cap]);
    for (int i = 0; i < cap; ++i) erased[i].store(0);
    std::atomic<long> created{0}, removed{0}, snapshots{0};
    std::vector<std::map<int, int>> last((std::size_t)T); // per thread: rid -> last acknowledged own counter
    std::vector<std::map<int, VaultRecordRef>> known((std::size_t)T);
    std::mutex poolMtx;
    std::deque<std::pair<int, VaultRecordRef>> pool; // records offered to all threads
    Team team(T);
    chaos::start(r.next(), (unsigned)r.below(4));
    chaos::spurious(r.chance(30) ? 60 : 0);
    for (int t = 0; t < T; ++t)
    {
        uint64_t s = r.next();
        team.add(t, s, [&, t, s]()
        {
            Rng g(s);
            VaultRecordSet set;
            int own = 0;
            auto pair = [&](const VaultRecordRef& q)
            {
                int a = 0, b = 1;
                if (!q.GetData("a", a).IsOperationSuccess || !q.GetData("b", b).IsOperationSuccess) throw Violation{"a record seen under the lock can not be read"};
                if (a != b) throw Violation{"a two-value update is seen half done: " + std::to_string(a) + " and " + std::to_string(b)};
            };
            std::string bad; // no exception may cross the library
            auto safePair = [&](const VaultRecordRef& q) { try { pair(q); } catch (Violation& w) { bad = w.what; } return true; };
            for (int i = 0; i < Kops && !team.failed.load(); ++i)
            {
                int w = (int)g.below(100), val = (int)g.below(1000);
                VaultRecordRef ref;
                int rid = -1;
                if (w >= 20 && w < 75)
                {
                    std::lock_guard<std::mutex> l(poolMtx);
                    if (!pool.empty()) { auto& p = pool[g.below(pool.size())]; rid = p.first; ref = p.second; }
                }
                if (w < 20)
                {
                    rid = t * Kops + i;
                    if (v.CreateRecord(ref, {{"rid", rid}, {"u", (int)g.below((uint64_t)US)}, {"a", val}, {"b", val}}).IsOperationSuccess)
                    {
                        created.fetch_add(1);
                        known[(std::size_t)t][rid] = ref;
                        std::lock_guard<std::mutex> l(poolMtx);
                        pool.emplace_back(rid, ref);
                        if (pool.size() > 30) pool.pop_front();
                    }
                }
                else if (w < 40 && rid >= 0) { ref.SetData({{"a", val}, {"b", val}}); }
                else if (w < 60 && rid >= 0) { if (ref.SetData("c" + std::to_string(t), ++own).IsOperationSuccess) last[(std::size_t)t][rid] = own; }
                else if (w < 65 && rid >= 0) ref.SetData("u", (int)g.below((uint64_t)US));
                else if (w < 72 && rid >= 0) { if (v.EraseRecord(ref)) { removed.fetch_add(1); if (erased[rid].fetch_add(1) != 0) throw Violation{"record " + std::to_string(rid) + " was erased twice"}; } }
                else if (w < 75) { if (v.EraseRecord("u", (int)g.below((uint64_t)US)).IsOperationSuccess) removed.fetch_add(1); }
                else if (w < 80)
                {
                    int lastU = INT_MIN;
                    v.SortBy("u", [&](const VaultRecordRef& q)
                    {
                        int u = 0;
                        q.GetData("u", u);
                        if (u <= lastU) bad = "unique values are not strictly increasing in a sorted visit";
                        lastU = u;
                        safePair(q);
                        return true;
                    });
                    snapshots.fetch_add(1);
                }
                else if (w < 85) { v.RequestGreaterOrEqual("a", (int)g.below(1000), set, (std::size_t)-1, safePair); snapshots.fetch_add(1); }
                else if (w < 90) { v.Request(mvlt::Or(mvlt::Less("a", val, safePair), mvlt::GreaterOrEqual("b", val)), set); snapshots.fetch_add(1); }
                else if (w < 95)
                {
                    for (auto& row : (g.chance(50) ? v.ToStrings() : set.ToStrings()))
                        if (row.size() < 4 || row[2].second != row[3].second) throw Violation{"a dump shows a two-value update half done"};
                    snapshots.fetch_add(1);
                }
                else
                {
                    std::vector<VaultRecordRef> m = set.GetSortedRecords("a");
                    if (m.size() > (std::size_t)cap) throw Violation{"set listing"};
                    ref.IsValid();
                }
                if (!bad.empty()) throw Violation{bad};
            }
        });
    }
    team.run();
    chaos::stop();
    x.t(std::to_string(T) + " threads x " + std::to_string(Kops) + ", " + std::to_string(US) + " unique values; created " + std::to_string(created.load()) + ", erased " + std::to_string(removed.load()) + ", left " + std::to_string(v.Size()));
    team.report(x);
    if ((long)v.Size() != created.load() - removed.load()) x.fail(std::to_string(created.load()) + " acknowledged creations and " + std::to_string(removed.load()) + " erasures, but " + std::to_string(v.Size()) + " records");
    std::set<int> us;
    std::size_t n = 0;
    v.SortBy("rid", [&](const VaultRecordRef& q)
    {
        int rid = -1, u = 0, a = 0, b = 1;
        q.GetData("rid", rid); q.GetData("u", u); q.GetData("a", a); q.GetData("b", b);
        ++n;
        if (!us.insert(u).second) x.fail("two records have the unique value " + std::to_string(u));
        if (a != b) x.fail("a two-value update is half done at the end");
        if (rid < 0 || rid >= cap || erased[rid].load()) x.fail("an erased record is still listed");
        for (int t = 0; t < T; ++t)
        {
            int c = -1;
            q.GetData("c" + std::to_string(t), c);
            auto it = last[(std::size_t)t].find(rid);
            if (c != (it == last[(std::size_t)t].end() ? 0 : it->second)) x.fail("the last acknowledged update of thread " + std::to_string(t) + " is lost: " + std::to_string(c));
        }
        VaultRecordRef f;
        if (!v.GetRecord("u", u, f).IsOperationSuccess || f != q) x.fail("a record is not found by its unique value");
        return true;
    });
    if (n != v.Size()) x.fail("sorted listing of " + std::to_string(n) + " of " + std::to_string(v.Size()));
    for (auto& k : known) for (auto& e : k)
    {
        int rid = -1;
        if (e.second.IsValid()) { if (erased[e.first].load()) x.fail("an erased record is still valid"); if (!e.second.GetData("rid", rid).IsOperationSuccess || rid != e.first) x.fail("a reference denotes another record"); }
    }
    x.events += (long)T * Kops;
    x.cnt("acknowledged creations", created.load());
    x.cnt("acknowledged erasures", removed.load());
    x.cnt("atomic views", snapshots.load());
    x.states.insert(mix((uint64_t)created.load(), (uint64_t)removed.load()));
    if (created.load() > 0) x.nontrivial = true;
}

// ================================================================ P20: the lock
template <class M> struct LockLab
{
    struct Mtx
    {
        M m;
        std::atomic<int> readers{0}, writer{0};
        long plain[2] = {0, 0}; // guarded by m
    };
    struct Held { int r = 0, w = 0; };

    static std::string& note() { static thread_local std::string s; return s; }
    static void in(Mtx& q, int me, bool write)
    {
        if (write)
        {
            int o = q.writer.exchange(me);
            if (o != 0) throw Violation{"thread " + std::to_string(me) + " got the write lock while thread " + std::to_string(o) + " holds it"};
            int n = q.readers.load();
            if (n != 0) throw Violation{"thread " + std::to_string(me) + " got the write lock while " + std::to_string(n) + " readers hold it"};
            ++q.plain[0];
            ++q.plain[1];
        }
        else
        {
            q.readers.fetch_add(1);
            int o = q.writer.load();
            if (o != 0) throw Violation{"thread " + std::to_string(me) + " got the read lock while thread " + std::to_string(o) + " holds the write lock"};
            if (q.plain[0] != q.plain[1]) throw Violation{"a reader sees a writer's work half done"};
        }
    }
    static void during(Mtx& q, int me, bool write)
    {
        if (write)
        {
            if (q.writer.load() != me || q.readers.load() != 0) throw Violation{"write lock of thread " + std::to_string(me) + " is shared: " + std::to_string(q.readers.load()) + " readers, writer " + std::to_string(q.writer.load())};
            ++q.plain[0];
            chaos::pause(3);
            ++q.plain[1];
        }
        else
        {
            if (q.writer.load() != 0) throw Violation{"thread " + std::to_string(q.writer.load()) + " writes while thread " + std::to_string(me) + " reads"};
            if (q.plain[0] != q.plain[1]) throw Violation{"a reader sees a writer's work half done"};
        }
    }
    static void out(Mtx& q, int me, bool write)
    {
        if (write) { int o = q.writer.exchange(0); if (o != me) throw Violation{"write lock of thread " + std::to_string(me) + " was taken by " + std::to_string(o)}; }
        else q.readers.fetch_sub(1);
    }
    static void nest(std::vector<std::unique_ptr<Mtx>>& ms, std::vector<Held>& h, Rng& g, int me, int depth, bool recursive, long& acquired)
    {
        // mutexes are taken in index order so that the workload itself can not deadlock
        int top = -1;
        for (std::size_t i = 0; i < h.size(); ++i) if (h[i].r || h[i].w) top = (int)i;
        std::vector<std::pair<int, bool>> can;
        for (int i = 0; i < (int)ms.size(); ++i)
        {
            bool held = h[(std::size_t)i].r || h[(std::size_t)i].w;
            if (held && !recursive) continue;
            if (!held && i < top) continue;
            can.emplace_back(i, false);
            // write inside read gives the read lock up for a moment: only when nothing later is held
            if (!held || h[(std::size_t)i].w || i == top) can.emplace_back(i, true);
        }
        if (can.empty()) return;
        std::pair<int, bool> c = can[g.below(can.size())];
        Mtx& q = *ms[(std::size_t)c.first];
        Held& k = h[(std::size_t)c.first];
        ++acquired;
        if (c.second)
        {
            bool outer = k.w == 0, upgrade = outer && k.r > 0;
            if (upgrade) out(q, me, false);
            bool guard = g.chance(30);
            std::unique_ptr<mvlt::WriteLock<M>> lk;
            if (guard) lk.reset(new mvlt::WriteLock<M>(q.m)); else q.m.WriteLock();
            if (outer) in(q, me, true);
            ++k.w;
            work(ms, h, g, me, depth, recursive, acquired, q, true);
            --k.w;
            if (outer) out(q, me, true);
            if (guard) lk.reset(); else q.m.WriteUnlock();
            if (upgrade) in(q, me, false);
        }
        else
        {
            bool outer = k.w == 0 && k.r == 0;
            bool guard = g.chance(30);
            std::unique_ptr<mvlt::ReadLock<M>> lk;
            if (guard) lk.reset(new mvlt::ReadLock<M>(q.m)); else q.m.ReadLock();
            if (outer) in(q, me, false);
            bool inWrite = k.w > 0;
            if (!inWrite) ++k.r;
            work(ms, h, g, me, depth, recursive, acquired, q, inWrite);
            if (!inWrite) --k.r;
            if (outer) out(q, me, false);
            if (guard) lk.reset(); else q.m.ReadUnlock();
        }
    }
    static void work(std::vector<std::unique_ptr<Mtx>>& ms, std::vector<Held>& h, Rng& g, int me, int depth, bool recursive, long& acquired, Mtx& q, bool write)
    {
        during(q, me, write);
        int kids = depth > 0 ? (int)g.below(3) : 0;
        for (int i = 0; i < kids; ++i)
        {
            nest(ms, h, g, me, depth - 1, recursive, acquired);
            during(q, me, write); // still held after the inner release
        }
        if (g.chance(20)) chaos::pause(10);
        during(q, me, write);
    }
    static void random(Ctx& x, Rng& r, bool recursive)
    {
        int T = r.range(2, 7), M2 = r.range(1, 3), rounds = r.range(10, 80);
        std::vector<std::unique_ptr<Mtx>> ms;
        for (int i = 0; i < M2; ++i) ms.emplace_back(new Mtx());
        std::vector<long> acq((std::size_t)T);
        Team team(T);
        unsigned level = (unsigned)r.below(5), sp = r.chance(60) ? (unsigned)r.range(10, 95) : 0;
        chaos::delays = 0; chaos::wakeups = 0; chaos::waits = 0;
        chaos::start(r.next(), level);
        chaos::spurious(sp);
        for (int t = 0; t < T; ++t)
        {
            uint64_t s = r.next();
            team.add(t, s, [&, t, s]() {
                Rng g(s);
                std::vector<Held> h(ms.size());
                for (int i = 0; i < rounds && !team.failed.load(); ++i) nest(ms, h, g, t + 1, recursive ? 4 : 2, recursive, acq[(std::size_t)t]);
            });
        }
        team.run();
        chaos::stop();
        long all = 0;
        for (long a : acq) all += a;
        x.t(std::string(recursive ? "recursive" : "plain") + " locks: " + std::to_string(T) + " threads, " + std::to_string(M2) + " mutexes, " + std::to_string(all) + " acquisitions, spurious " + std::to_string(sp) + "%");
        team.report(x);
        for (auto& q : ms) if (q->readers.load() || q->writer.load() || q->plain[0] != q->plain[1]) x.fail("a lock is still held, or an update was lost, at the end");
        x.events += all;
        x.cnt("acquisitions", all);
        x.cnt("waits for readers", chaos::waits.load());
        x.cnt("spurious wake-ups", chaos::wakeups.load());
        x.cnt("injected delays", chaos::delays.load());
        x.states.insert(mix((uint64_t)all, (uint64_t)chaos::waits.load()));
        x.nontrivial = true;
        // free again for everybody
        for (auto& q : ms) { std::thread t([&]() { q->m.WriteLock(); q->m.WriteUnlock(); q->m.ReadLock(); q->m.ReadUnlock(); }); t.join(); }
    }
    static bool sleeping(pid_t tid)
    {
        std::string p = "/proc/self/task/" + std::to_string(tid) + "/stat";
        FILE* f = fopen(p.c_str(), "r");
        if (!f) return false;
        char b[256] = {0};
        size_t n = fread(b, 1, 255, f);
        fclose(f);
        b[n] = 0;
        char* q = strrchr(b, ')');
        return q && q[1] == ' ' && q[2] == 'S';
    }
    // waits until a thread that was sent to block is asleep (or long enough for any spin)
    static void settled(std::atomic<pid_t>& tid)
    {
        while (!tid.load()) std::this_thread::yield();
        int calm = 0;
        for (int i = 0; i < 100 && calm < 4; ++i)
        {
            std::this_thread::sleep_for(std::chrono::microseconds(500));
            calm = sleeping(tid.load()) ? calm + 1 : 0;
        }
    }
    // a lock that is switched off does not block anybody, in no combination, and does not touch another one
    static void disabled(Ctx& x, Rng& r)
    {
        M off, on;
        off.Disable();
        int n = r.range(2, 4);
        std::atomic<int> inside{0}, holders{0};
        std::atomic<bool> shared{false};
        chaos::start(r.next(), (unsigned)r.below(3));
        Team team(n);
        for (int i = 0; i < n; ++i)
        {
            bool write = i == 0 || r.chance(60);
            int depth = r.range(1, 3);
            team.add(i, r.next(), [&, n, write, depth]() {
                for (int d = 0; d < depth; ++d) { if (write) off.WriteLock(); else off.ReadLock(); }
                inside.fetch_add(1);
                for (int k = 0; k < 20000 && inside.load() < n; ++k) std::this_thread::sleep_for(std::chrono::microseconds(500));
                if (inside.load() < n) throw Violation{"a lock that is switched off blocks: only " + std::to_string(inside.load()) + " of " + std::to_string(n) + " are inside"};
                on.WriteLock();
                if (holders.fetch_add(1) != 0) shared.store(true);
                chaos::pause(3);
                holders.fetch_sub(1);
                on.WriteUnlock();
                for (int d = 0; d < depth; ++d) { if (write) off.WriteUnlock(); else off.ReadUnlock(); }
            });
        }
        team.run();
        chaos::stop();
        x.t(std::to_string(n) + " threads with a lock that is switched off");
        team.report(x);
        if (shared.load()) x.fail("a lock does not exclude writers that also use a lock that is switched off");
        ++x.events;
        x.cnt("scenario switched off");
        x.nontrivial = true;
    }
    // fixed scenarios
    static void scenario(Ctx& x, Rng& r, bool recursive)
    {
        if (r.chance(4)) { disabled(x, r); return; }
        int kind = (int)r.below(recursive ? 5 : 3);
        M m;
        unsigned sp = r.chance(50) ? (unsigned)r.range(20, 80) : 0;
        chaos::wakeups = 0; chaos::waits = 0;
        chaos::start(r.next(), (unsigned)r.below(3));
        chaos::spurious(sp);
        std::string bad;
        if (kind == 0)
        {
            // several readers inside together
            int n = r.range(2, 6);
            std::atomic<int> inside{0};
            Team team(n);
            for (int i = 0; i < n; ++i) team.add(i, r.next(), [&, n]() {
                m.ReadLock();
                inside.fetch_add(1);
                for (int k = 0; k < 20000 && inside.load() < n; ++k) std::this_thread::sleep_for(std::chrono::microseconds(500));
                if (inside.load() < n) throw Violation{"readers do not share the lock: only " + std::to_string(inside.load()) + " of " + std::to_string(n) + " are inside"};
                m.ReadUnlock();
            });
            team.run();
            chaos::stop();
            x.t(std::to_string(n) + " readers together");
            team.report(x);
        }
        else if (kind == 1 || kind == 2)
        {
            // reader inside, writer waits, new readers arrive; kind 2: the first reader leaves in between
            int late = r.range(1, 4), depth = recursive ? r.range(1, 3) : 1;
            std::atomic<pid_t> wt{0};
            std::atomic<int> order{0}, wAt{0};
            std::vector<std::atomic<int>> rAt((std::size_t)late);
            std::vector<std::atomic<pid_t>> rt((std::size_t)late);
            for (auto& q : rAt) q.store(0);
            for (auto& q : rt) q.store(0);
            std::atomic<bool> leave{false};
            std::atomic<int> overlap{0};
            for (int d = 0; d < depth; ++d) m.ReadLock();
            uint64_t ws = r.next();
            std::thread w([&]() { chaos::thread(ws); wt.store((pid_t)syscall(SYS_gettid)); m.WriteLock(); wAt.store(order.fetch_add(1) + 1); if (!leave.load()) overlap.store(1); chaos::pause(50); m.WriteUnlock(); });
            settled(wt);
            if (wAt.load()) bad = "a writer got in while a reader is inside";
            std::vector<std::thread> rs;
            for (int i = 0; i < late; ++i) { uint64_t s = r.next(); rs.emplace_back([&, i, s]() { chaos::thread(s); rt[(std::size_t)i].store((pid_t)syscall(SYS_gettid)); m.ReadLock(); rAt[(std::size_t)i].store(order.fetch_add(1) + 1); m.ReadUnlock(); }); }
            for (int i = 0; i < late; ++i) settled(rt[(std::size_t)i]);
            if (recursive && r.chance(60)) { m.ReadLock(); m.ReadUnlock(); } // the reader inside may nest although a writer waits
            if (recursive) for (int d = 1; d < depth; ++d) { m.ReadUnlock(); std::this_thread::sleep_for(std::chrono::microseconds(300)); if (wAt.load()) bad = "a writer got in after an inner release"; }
            for (auto& q : rAt) if (q.load()) bad = "a newly arriving reader overtook a waiting writer";
            leave.store(true);
            m.ReadUnlock();
            w.join();
            for (auto& t : rs) t.join();
            chaos::stop();
            x.t("writer behind a reader of depth " + std::to_string(depth) + ", " + std::to_string(late) + " late readers, spurious " + std::to_string(sp) + "%");
            if (overlap.load()) bad = "a writer got in while a reader is inside";
            if (bad.empty()) for (auto& q : rAt) if (q.load() < wAt.load()) bad = "a newly arriving reader was served before the waiting writer";
        }
        else if (kind == 3)
        {
            // everything nested in one thread, then another thread must get in, and not before
            int d = r.range(1, 5);
            std::vector<bool> writes;
            bool anyWrite = false;
            for (int i = 0; i < d; ++i) { bool wr = r.chance(50); writes.push_back(wr); if (wr) m.WriteLock(); else m.ReadLock(); anyWrite = anyWrite || wr; }
            bool probeWrite = !anyWrite || r.chance(50);
            std::atomic<pid_t> tid{0};
            std::atomic<bool> got{false};
            uint64_t s = r.next();
            std::thread t([&]() { chaos::thread(s); tid.store((pid_t)syscall(SYS_gettid)); if (probeWrite) m.WriteLock(); else m.ReadLock(); got.store(true); if (probeWrite) m.WriteUnlock(); else m.ReadUnlock(); });
            settled(tid);
            if (got.load()) bad = "another thread got in while the lock is held";
            bool waits = true;
            for (int i = d - 1; i >= 0; --i)
            {
                // after the last write inside reads is released the lock may be handed over for a moment
                if (writes[(std::size_t)i]) { bool more = false; for (int k = 0; k < i; ++k) more = more || writes[(std::size_t)k]; if (!more) waits = false; }
                if (writes[(std::size_t)i]) m.WriteUnlock(); else m.ReadUnlock();
                if (i > 0 && waits) { if (r.chance(50)) std::this_thread::sleep_for(std::chrono::microseconds(200)); if (got.load()) bad = "another thread got in after an inner release"; }
            }
            t.join();
            chaos::stop();
            x.t("nested depth " + std::to_string(d));
        }
        else
        {
            // separate tracking: the state of one mutex says nothing about another
            M m2;
            bool firstWrite = r.chance(50), secondWrite = r.chance(60);
            if (firstWrite) m.WriteLock(); else m.ReadLock();
            if (secondWrite) m2.WriteLock(); else m2.ReadLock();
            std::atomic<pid_t> tid{0};
            std::atomic<bool> got{false};
            uint64_t s = r.next();
            std::thread t([&]() { chaos::thread(s); tid.store((pid_t)syscall(SYS_gettid)); m2.WriteLock(); got.store(true); m2.WriteUnlock(); });
            settled(tid);
            if (got.load()) bad = "a second mutex locked by the same thread does not exclude a writer";
            if (r.chance(50)) { if (firstWrite) m.WriteUnlock(); else m.ReadUnlock(); std::this_thread::sleep_for(std::chrono::microseconds(300)); if (got.load()) bad = "releasing one mutex released another"; if (secondWrite) m2.WriteUnlock(); else m2.ReadUnlock(); }
            else { if (secondWrite) m2.WriteUnlock(); else m2.ReadUnlock(); if (firstWrite) m.WriteUnlock(); else m.ReadUnlock(); }
            t.join();
            std::thread f([&]() { m.WriteLock(); m.WriteUnlock(); });
            f.join();
            chaos::stop();
            x.t(std::string("two mutexes ") + (firstWrite ? "write" : "read") + (secondWrite ? " write" : " read"));
        }
        chaos::stop();
        ++x.events;
        x.cnt("scenario " + std::to_string(kind));
        x.cnt("spurious wake-ups", chaos::wakeups.load());
        x.cnt("waits for readers", chaos::waits.load());
        x.states.insert(hashStr(x.trace));
        x.nontrivial = true;
        if (!bad.empty()) x.fail(bad);
    }
    // another thread tries to get in: tells whether it did
    struct Probe
    {
        std::atomic<pid_t> tid{0};
        std::atomic<bool> got{false};
        std::thread t;
        Probe(M& m, bool write, uint64_t s) : t([this, &m, write, s]() {
            chaos::thread(s);
            tid.store((pid_t)syscall(SYS_gettid));
            if (write) m.WriteLock(); else m.ReadLock();
            got.store(true);
            if (write) m.WriteUnlock(); else m.ReadUnlock();
        }) {}
        bool waits() { settled(tid); return !got.load(); }
        void join() { if (t.joinable()) t.join(); }
    };
    // limits: deep nesting, crowds of readers and writers, many mutexes at once, mutexes that come and go
    static void limits(Ctx& x, Rng& r, bool recursive)
    {
        int kind = (int)r.below(recursive ? 4 : 1);
        std::string bad;
        chaos::wakeups = 0; chaos::waits = 0;
        chaos::start(r.next(), kind == 0 ? 0 : (unsigned)r.below(2));
        if (kind == 0)
        {
            // a crowd of readers inside, writers behind it
            int n = r.chance(30) ? r.range(257, 300) : r.range(20, 140), writers = r.range(1, 3), d = recursive ? r.range(1, 2) : 1;
            M m;
            std::atomic<int> inside{0}, left{0};
            std::atomic<bool> leave{false};
            std::atomic<pid_t> wt{0};
            std::atomic<int> early{0}, served{0};
            std::vector<std::thread> ts;
            for (int i = 0; i < n; ++i) ts.emplace_back([&, d]() {
                for (int k = 0; k < d; ++k) m.ReadLock();
                inside.fetch_add(1);
                while (!leave.load()) std::this_thread::sleep_for(std::chrono::microseconds(300));
                left.fetch_add(1);
                for (int k = 0; k < d; ++k) m.ReadUnlock();
            });
            for (int k = 0; k < 40000 && inside.load() < n; ++k) std::this_thread::sleep_for(std::chrono::microseconds(500));
            if (inside.load() < n) bad = "readers do not share the lock: only " + std::to_string(inside.load()) + " of " + std::to_string(n) + " are inside";
            for (int i = 0; i < writers; ++i) ts.emplace_back([&]() {
                wt.store((pid_t)syscall(SYS_gettid));
                m.WriteLock();
                if (left.load() < n) early.store(1);
                served.fetch_add(1);
                m.WriteUnlock();
            });
            settled(wt);
            if (served.load()) bad = "a writer got in while " + std::to_string(n) + " readers are inside";
            leave.store(true);
            for (auto& t : ts) t.join();
            if (early.load()) bad = "a writer got in before the last of " + std::to_string(n) + " readers left";
            x.t("crowd of " + std::to_string(n) + " readers, " + std::to_string(writers) + " writers");
            x.cnt("max_readers_together", inside.load());
        }
        else if (kind == 1)
        {
            // deep nesting: reads, then writes, then reads, unwound in order
            auto depth = [&]() { return r.chance(15) ? r.range(65000, 70000) : r.chance(50) ? r.range(250, 600) : r.range(1, 40); };
            long a = r.chance(70) ? depth() : 0, b = r.chance(70) || !a ? depth() : 0, c = r.chance(50) ? depth() : 0;
            M m;
            for (long i = 0; i < a; ++i) m.ReadLock();
            { Probe p(m, false, r.next()); p.join(); } // another reader shares (b is not held yet)
            Probe* w = nullptr;
            // a writer must wait; started only when no write inside read would hand the lock over
            for (long i = 0; i < b; ++i) m.WriteLock();
            for (long i = 0; i < c; ++i) m.ReadLock();
            bool pw = r.chance(50) || b == 0;
            w = new Probe(m, pw, r.next());
            if (!w->waits()) bad = "another thread got in while the lock is held " + std::to_string(a) + "+" + std::to_string(b) + "+" + std::to_string(c) + " deep";
            for (long i = c; i > 0; --i) m.ReadUnlock();
            if (w->got.load()) bad = "another thread got in after the innermost reads were released";
            for (long i = b; i > 1; --i) m.WriteUnlock();
            if (b) { if (!w->waits()) bad = "another thread got in after the inner writes were released"; m.WriteUnlock(); }
            else
            {
                for (long i = a; i > 1; --i) m.ReadUnlock();
                if (!w->waits()) bad = "another thread got in after the inner reads were released";
            }
            if (b && a && pw)
            {
                // the writer comes in at the hand-over or after the outermost read
                for (long i = a; i > 0; --i) m.ReadUnlock();
            }
            else if (b && a)
            {
                w->join();
                // back in the read lock: a writer waits until the outermost release
                Probe q(m, true, r.next());
                if (!q.waits()) bad = "a writer got in while the outer read lock is held " + std::to_string(a) + " deep";
                for (long i = a; i > 1; --i) m.ReadUnlock();
                if (!q.waits()) bad = "a writer got in after the inner reads were released";
                m.ReadUnlock();
                q.join();
            }
            else if (a) m.ReadUnlock();
            w->join();
            delete w;
            Probe f(m, true, r.next());
            f.join();
            x.t("depth " + std::to_string(a) + " reads, " + std::to_string(b) + " writes, " + std::to_string(c) + " reads");
            x.cnt("max_depth", a + b + c);
        }
        else if (kind == 2)
        {
            // many mutexes held by one thread, released in any order
            int n = r.chance(20) ? r.range(60, 120) : r.range(3, 20);
            std::vector<std::unique_ptr<M>> ms;
            std::vector<std::vector<bool>> held((std::size_t)n); // true: write
            for (int i = 0; i < n; ++i)
            {
                ms.emplace_back(new M());
                for (int d = r.range(1, 3); d > 0; --d)
                {
                    bool w = r.chance(50);
                    held[(std::size_t)i].push_back(w);
                    if (w) ms.back()->WriteLock(); else ms.back()->ReadLock();
                }
            }
            std::vector<int> order;
            for (int i = 0; i < n; ++i) order.push_back(i);
            for (int i = n - 1; i > 0; --i) std::swap(order[(std::size_t)i], order[r.below((std::size_t)i + 1)]);
            int probes = 0;
            while (!order.empty())
            {
                std::size_t at = r.below(order.size());
                int i = order[at];
                auto& h = held[(std::size_t)i];
                if (h.back()) ms[(std::size_t)i]->WriteUnlock(); else ms[(std::size_t)i]->ReadUnlock();
                h.pop_back();
                if (h.empty())
                {
                    order.erase(order.begin() + (long)at);
                    Probe p(*ms[(std::size_t)i], true, r.next());
                    p.join(); // free again
                }
                if (!order.empty() && probes < 3 && r.chance(10))
                {
                    // one that is still held excludes a writer
                    int k = order[r.below(order.size())];
                    ++probes;
                    Probe p(*ms[(std::size_t)k], true, r.next());
                    if (!p.waits()) { bad = "one of " + std::to_string(n) + " mutexes held by a thread does not exclude a writer"; }
                    auto& hk = held[(std::size_t)k];
                    while (!hk.empty()) { if (hk.back()) ms[(std::size_t)k]->WriteUnlock(); else ms[(std::size_t)k]->ReadUnlock(); hk.pop_back(); }
                    order.erase(std::find(order.begin(), order.end(), k));
                    p.join();
                }
            }
            x.t(std::to_string(n) + " mutexes held together");
            x.cnt("max_mutexes_held_together", n);
        }
        else
        {
            // mutexes that come and go while another is held, often at the same address
            M outer;
            bool ow = r.chance(50), hold = r.chance(60);
            if (hold) { if (ow) outer.WriteLock(); else outer.ReadLock(); }
            alignas(M) unsigned char place[sizeof(M)];
            int rounds = r.range(2, 12);
            for (int i = 0; i < rounds && bad.empty(); ++i)
            {
                M* m = new (place) M();
                int d = r.range(1, 3);
                std::vector<bool> h;
                bool any = false, firstRead = false;
                for (int k = 0; k < d; ++k) { bool w = r.chance(50); h.push_back(w); if (k == 0) firstRead = !w; any = any || w; if (w) m->WriteLock(); else m->ReadLock(); }
                (void)firstRead;
                if (r.chance(30)) { Probe p(*m, true, r.next()); if (!p.waits()) bad = "a new mutex at the place of an old one does not exclude a writer"; while (!h.empty()) { if (h.back()) m->WriteUnlock(); else m->ReadUnlock(); h.pop_back(); } p.join(); }
                else if (!any && r.chance(60)) { Probe p(*m, false, r.next()); p.join(); }
                while (!h.empty()) { if (h.back()) m->WriteUnlock(); else m->ReadUnlock(); h.pop_back(); }
                if (r.chance(50)) { Probe p(*m, true, r.next()); p.join(); }
                m->~M();
            }
            if (hold)
            {
                Probe p(outer, true, r.next());
                if (!p.waits()) bad = "the outer mutex does not exclude a writer after others came and went";
                if (ow) outer.WriteUnlock(); else outer.ReadUnlock();
                p.join();
            }
            x.t(std::to_string(rounds) + " mutexes came and went" + (hold ? " inside another" : ""));
        }
        chaos::stop();
        ++x.events;
        x.cnt("limits " + std::to_string(kind));
        x.states.insert(hashStr(x.trace));
        x.nontrivial = true;
        if (!bad.empty()) x.fail(bad);
    }
};

int main(int argc, char** argv)
{
    Ctx x;
    x.parse(argc, argv);
    muteStdout(false);
    std::string mode = x.opts.count("mode") ? x.opts["mode"] : "stress";
    return x.run([&](long, Rng& r)
    {
        chaos::thread(r.next());
        if (mode == "stress") caseStress(x, r, false);
        else if (mode == "progress") caseStress(x, r, true);
        else if (mode == "starve") caseStarve(x, r);
        else if (mode == "lin") caseLin(x, r);
        else if (mode == "cons") caseCons(x, r);
        else if (mode == "lock") { if (r.chance(70)) LockLab<mvlt::RecursiveReadWriteMutex>::random(x, r, true); else LockLab<mvlt::ReadWriteMutex>::random(x, r, false); }
        else if (mode == "scenario") { if (r.chance(65)) LockLab<mvlt::RecursiveReadWriteMutex>::scenario(x, r, true); else LockLab<mvlt::ReadWriteMutex>::scenario(x, r, false); }
        else if (mode == "limits") { if (r.chance(75)) LockLab<mvlt::RecursiveReadWriteMutex>::limits(x, r, true); else LockLab<mvlt::ReadWriteMutex>::limits(x, r, false); }
        else { fprintf(stderr, "unknown mode\n"); _exit(3); }
    });
}
