// Reference-model monitor: drives random histories of public operations on real vaults, sets, refs and
// requests, mirrors them in a simple in-memory model and compares every observable after the operations.
#pragma once
#include <exception>
#include "kinds.h"
#include <algorithm>
#include <climits>

namespace vf
{
    typedef VaultOperationResultCode RC;

    // what kind of observation disagreed
    enum Aspect : unsigned
    {
        A_VSIZE = 1u << 0, A_VKEYS = 1u << 1, A_VDEF = 1u << 2, A_VVAL = 1u << 3, A_VLOOK = 1u << 4, A_VITER = 1u << 5,
        A_QUERY = 1u << 6, A_COMPLEX = 1u << 7, A_SORT = 1u << 8, A_UNIQ = 1u << 9, A_RESULT = 1u << 10,
        A_REF = 1u << 11, A_REFEQ = 1u << 12, A_SMEM = 1u << 13, A_SKEYS = 1u << 14, A_SLOOK = 1u << 15,
        A_SATT = 1u << 16, A_SETOP = 1u << 17, A_SEQ = 1u << 18, A_COPY = 1u << 19, A_OBJ = 1u << 20, A_TEXT = 1u << 21,
        A_SITER = 1u << 22, A_EFFECT = 1u << 23, A_OUT = 1u << 24
    };
    // what the last operation was
    enum Cat { CAT_NONE, CAT_SCHEMA, CAT_RECORD, CAT_ERASE, CAT_QUERY, CAT_COMPLEX, CAT_SORT, CAT_SETOP, CAT_VCOPY, CAT_SCOPY, CAT_REF, CAT_DESTROY, CAT_DROP };

    enum OpId
    {
        O_NEWVAULT, O_ADDKEY, O_ADDUNIQ, O_ADDUNIQFN, O_UPDATEKEY, O_REMOVEKEY, O_CREATE, O_GETREC, O_GETRECS, O_ERASEREF, O_ERASEKEY,
        O_ERASEKEYS, O_DROPDATA, O_DROPVAULT, O_VCOPYC, O_VCOPYA, O_VMOVEC, O_VMOVEA, O_VDESTROY, O_VQUERY, O_SQUERY, O_COMPLEX, O_REQOP,
        O_SORT, O_SADD, O_SREMREF, O_SREMKEY, O_SREMKEYS, O_SJOIN, O_SUNION, O_SCLEAR, O_SRESET, O_SCOPYC, O_SCOPYA, O_SMOVEC, O_SMOVEA,
        O_SDESTROY, O_SETDATA, O_SETMULTI, O_GETDATA, O_REFCOPY, O_REFMOVE, O_REFRESET, O_REFDESTROY, O_LOADFILE, O_STORM, O_COUNT
    };
    extern const char* const opName[O_COUNT];

    struct Profile
    {
        int w[O_COUNT];
        int nv, ns, nr;
        int auditPct;      // chance of a full audit after each operation
    };

    struct MKey { std::string name; int k; int def; bool uniq; };
    struct MRec
    {
        std::string id;
        std::map<std::string, int> v;
        int vault = -1;
        bool alive = true;
        long uid = 0;
    };
    typedef std::shared_ptr<MRec> RecP;
    struct MVault
    {
        std::unique_ptr<Vault> v;
        std::vector<MKey> keys;
        std::vector<RecP> recs;
        std::vector<std::pair<std::size_t, std::set<std::string>>> errs; // of the last load
        bool errsKnown = true;
        const MKey* key(const std::string& n) const
        {
            for (auto& k : keys) if (k.name == n) return &k;
            return nullptr;
        }
    };
    struct MSet
    {
        std::unique_ptr<VaultRecordSet> s;
        int parent = -1;
        std::set<MRec*> mem;
    };
    struct MRef
    {
        std::unique_ptr<VaultRecordRef> r;
        RecP rec;
        bool valid() const { return rec && rec->alive; }
    };
    // model of a predicate: accepts by id hash, or by a value under a key
    struct MPred
    {
        int mode = 0;      // 0 none, 1 id hash, 2 value below threshold, 3 all, 4 nothing
        uint64_t salt = 0;
        std::string key;
        int k = 0, thr = 0;
    };
    struct MReq
    {
        bool leaf = true, isAnd = false;
        Cmp c = C_EQ;
        std::string key;
        int k = 0, val = 0;
        MPred pred;
        std::shared_ptr<MReq> a, b;
    };
    struct ReqSlot { std::unique_ptr<ReqNode> n; std::shared_ptr<MReq> m; };

    class Engine
    {
    public:
        Ctx& x;
        Rng& rng;
        Profile pf;
        std::vector<MVault> vs;
        std::vector<MSet> ss;
        std::vector<MRef> rs;
        std::vector<ReqSlot> qs;
        std::vector<std::string> names;
        std::vector<int> pool[KINDS];
        std::vector<int> usedKinds;
        std::size_t maxRecs = 10;
        long nextUid = 0;
        Cat lastCat = CAT_NONE;
        bool lastFailed = false;
        bool hadCopy = false;
        int alivePct = 0;   // chance to refill empty handles before an operation
        bool quiet = false; // no audits (used by the debug/release comparison)
        uint64_t stateHash = 0;
        std::ostringstream* sink = nullptr; // canonical log of results

        Engine(Ctx& c, Rng& r, const Profile& p);
        ~Engine();
        void run(int ops);

    private:
        [[noreturn]] void D(unsigned aspects, const std::string& msg);
        void expect(bool ok, unsigned aspects, const std::string& msg) { if (!ok) D(aspects, msg); }
        bool mine(unsigned aspects) const;

        // generation helpers
        int anyVault();
        int anySet();
        int anyRef();
        std::string anyName(int v = -1);
        int peerSet(int s);
        void keepAlive();
        void opFill(int t);
        void opFetch(int r);
        const MKey* anyKey(int v);
        int poolVal(int k) { return rng.pick(pool[k]); }
        int queryVal(int k) { return rng.chance(80) ? poolVal(k) : (int)rng.below(kind(k).n); }
        std::size_t anyLimit(std::size_t around);
        MPred anyPred(int v);
        Pred realPred(const MPred& p) const;
        Pred nestPred(MPred& p, int v, const std::string& nm, int target, std::exception_ptr& err, int fixedSet = -1);
        void nested(int v, const VaultRecordRef& ref, const std::set<std::string>& fixedKeys, int fixedSet, int target);
        bool accepts(const MPred& p, const MRec& r) const;
        static bool cmp(Cmp c, int v, int a, int b, bool ia, bool ib);
        std::shared_ptr<MReq> genTree(int v, int depth, int badPct);
        std::unique_ptr<ReqNode> build(const MReq& m);
        bool evalTree(const MReq& m, const MRec& r) const;
        void badLeaves(const MReq& m, int v, std::vector<const MReq*>& bad) const;
        std::string treeStr(const MReq& m) const;

        // model helpers
        std::vector<MRec*> recsOf(int v) const;
        std::vector<MRec*> members(const MSet& s) const { return std::vector<MRec*>(s.mem.begin(), s.mem.end()); }
        MRec* byId(int v, const std::string& id) const;
        void kill(MRec* r);
        void detachSets(int v);
        std::string newRecordId(int v, bool& known);
        bool uniqClash(int v, const std::string& key, int val, const MRec* self) const;
        std::set<std::string> idsOf(const std::vector<MRec*>& rs) const;
        std::vector<std::string> realIds(const Vault& v, const std::string& key) const;
        void checkRes(const VaultOperationResult& r, bool ok, RC code, unsigned aspects, const std::string& what);
        void checkRes(const VaultOperationResult& r, bool ok, RC code, const std::string& key, std::type_index req, std::type_index saved, unsigned aspects, const std::string& what);
        void afterQuery(const VaultOperationResult& r, int target, int parent, const std::vector<MRec*>& sat, std::size_t lim, bool bad,
            unsigned aspect, const std::string& what);

        // operations
        void op(int o);
        void opNewVault(); void opAddKey(); void opAddUniq(); void opAddUniqFn(); void opUpdateKey(); void opRemoveKey(); void opCreate();
        void opGetRec(); void opGetRecs(); void opEraseRef(); void opEraseKey(bool many); void opDropData(); void opDropVault();
        void opVCopy(bool assign, bool move); void opVDestroy(); void opVQuery(); void opSQuery(); void opComplex(); void opReqOp(); void opSort();
        void opSAdd(); void opSRemRef(); void opSRemKey(bool many); void opSJoin(); void opSUnion(); void opSClear(); void opSReset();
        void opSCopy(bool assign, bool move); void opSDestroy(); void opSetData(); void opSetMulti(); void opGetData();
        void opRefCopy(); void opRefMove(); void opRefReset(); void opRefDestroy(); void opLoadFile(); void opStorm();
        void onKeyAdded(int v, const MKey& k);

        // monitors
        void auditVault(int v, bool full);
        void auditSet(int s, bool full);
        void auditRef(int r);
        void auditAll(bool full);
        template <class V> void auditFile(const V& view, int v, const std::vector<MRec*>& recs, bool isSet, const std::string& nm);
        template <class V> void auditView(const V& view, int v, const std::vector<MRec*>& recs, bool isSet, bool full, const std::string& nm);
        std::string recStr(const MRec* r) const;
        std::string vname(int v) const { return "V" + std::to_string(v); }
        std::string sname(int s) const { return "S" + std::to_string(s); }
        std::string rname(int r) const { return "R" + std::to_string(r); }
        std::string predStr(const MPred& p) const;
        static std::string codeName(RC c);
        void teardown();
    };
    Profile profileFor(const std::string& prop, Rng& rng);
}
