#include "engine.h"
#include <iostream>

namespace vf
{
    const char* const opName[O_COUNT] = {
        "newVault", "addKey", "addUnique", "addUniqueFn", "updateKey", "removeKey", "create", "getRecord", "getRecords", "eraseRef", "eraseKey",
        "eraseKeys", "dropData", "dropVault", "vaultCopyCtor", "vaultCopyAssign", "vaultMoveCtor", "vaultMoveAssign", "vaultDestroy", "vaultQuery", "setQuery", "complex", "requestOp",
        "sort", "setAdd", "setRemoveRef", "setRemoveKey", "setRemoveKeys", "setJoin", "setUnion", "setClear", "setReset", "setCopyCtor", "setCopyAssign", "setMoveCtor", "setMoveAssign",
        "setDestroy", "setData", "setMulti", "getData", "refCopy", "refMove", "refReset", "refDestroy", "loadFile", "storm"};

    static std::string S(long n) { return std::to_string(n); }
    static std::string joinIds(const std::set<std::string>& s)
    {
        std::string r = "{";
        for (auto& i : s) r += (r.size() > 1 ? " " : "") + i;
        return r + "}";
    }
    static std::string limS(std::size_t l) { return l == NPOS ? "-1" : S((long)l); }

    std::string Engine::codeName(RC c)
    {
        static const char* n[] = {"OtherParentVaultNotValid", "SameVaultRecordSet", "TryToAddUniqueKeyInNonEmptyVaultWithoutLambda", "DuplicateKey", "UniqueKey", "RecordAlredyInSet",
            "ParentVaultNotMatch", "ParentVaultNotValid", "DataRecordNotValid", "WrongKey", "WrongType", "Idle", "WrongValue", "UniqueKeyValueAlredyInSet", "Success"};
        int i = (int)c;
        return i >= 0 && i < 15 ? n[i] : "?" + S(i);
    }

    bool Engine::mine(unsigned a) const
    {
        const std::string& p = x.prop;
        const unsigned vaultView = A_VSIZE | A_VKEYS | A_VDEF | A_VVAL | A_VLOOK | A_VITER | A_EFFECT;
        const unsigned setView = A_SMEM | A_SKEYS | A_SLOOK | A_SATT | A_SITER;
        if (p == "P01") return a & (vaultView | A_UNIQ);
        if (p == "P02") return (a & (A_QUERY | A_VLOOK | A_SLOOK)) || lastCat == CAT_QUERY;
        if (p == "P03") return (a & A_COMPLEX) || lastCat == CAT_COMPLEX;
        if (p == "P04") return (a & (A_SORT | A_VITER | A_SITER)) || lastCat == CAT_SORT;
        if (p == "P05") return a & A_UNIQ;
        if (p == "P06") return (a & (A_RESULT | A_OUT)) || lastFailed;
        if (p == "P07") return (a & (A_VKEYS | A_VDEF | A_SKEYS)) || lastCat == CAT_SCHEMA;
        if (p == "P08") return (a & (A_REF | A_REFEQ)) || lastCat == CAT_REF;
        if (p == "P09") return a & setView;
        if (p == "P10") return (a & (A_SETOP | A_SEQ)) || lastCat == CAT_SETOP;
        if (p == "P11") return (a & A_COPY) || lastCat == CAT_VCOPY || lastCat == CAT_SCOPY || hadCopy;
        if (p == "P12") return a & A_OBJ;
        return true;
    }

    void Engine::D(unsigned aspects, const std::string& msg)
    {
        if (mine(aspects)) throw Violation{msg};
        throw Foreign{msg};
    }

    Engine::Engine(Ctx& c, Rng& r, const Profile& p) : x(c), rng(r), pf(p)
    {
        vs.resize(p.nv);
        ss.resize(p.ns);
        rs.resize(p.nr);
        qs.resize(4);
        for (auto& s : ss) s.s.reset(new VaultRecordSet());
        for (auto& q : rs) q.r.reset(new VaultRecordRef());
        static const char* const nm[] = {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "", "key", "K0", "a b", "\"q\"", "\xd0\xba"};
        int n = rng.range(2, 8);
        std::set<std::string> used;
        while ((int)used.size() < n) used.insert(nm[rng.below(13)]);
        names.assign(used.begin(), used.end());
        for (int k = 0; k < KINDS; ++k)
        {
            int sz = rng.chance(20) ? rng.range(12, 40) : rng.range(2, 8);
            std::set<int> s;
            if (rng.chance(75)) s.insert(kind(k).def);
            for (int i = 0; i < sz; ++i)
            {
                // neighbouring values are as interesting as distant ones
                if (!s.empty() && rng.chance(50)) s.insert(std::min(kind(k).n - 1, *s.rbegin() + 1));
                else s.insert((int)rng.below(kind(k).n));
            }
            pool[k].assign(s.begin(), s.end());
        }
        int nk = rng.range(1, 4);
        std::set<int> uk;
        while ((int)uk.size() < nk) uk.insert((int)rng.below(KINDS));
        if (rng.chance(40)) uk.insert(K_TRK);
        usedKinds.assign(uk.begin(), uk.end());
        int m = (int)rng.below(100);
        maxRecs = m < 60 ? rng.range(2, 10) : m < 92 ? rng.range(8, 30) : m < 99 ? rng.range(40, 140) : rng.range(257, 330);
        static const int alive[] = {0, 0, 5, 15, 30, 60};
        alivePct = alive[rng.below(6)];
    }

    Engine::~Engine() {}

    // ---------------------------------------------------------------- generation helpers
    int Engine::anyVault()
    {
        std::vector<int> e;
        for (int i = 0; i < (int)vs.size(); ++i) if (vs[i].v) e.push_back(i);
        if (e.empty()) { opNewVault(); return anyVault(); }
        return rng.pick(e);
    }
    int Engine::anySet() { return ss.empty() ? -1 : (int)rng.below(ss.size()); }
    int Engine::anyRef() { return rs.empty() ? -1 : (int)rng.below(rs.size()); }
    std::string Engine::anyName(int v)
    {
        if (v >= 0 && !vs[v].keys.empty() && rng.chance(75)) return anyKey(v)->name;
        return rng.chance(92) ? rng.pick(names) : std::string("missing");
    }
    // another set attached to the same vault, when there is one
    int Engine::peerSet(int s)
    {
        std::vector<int> c;
        for (int i = 0; i < (int)ss.size(); ++i) if (i != s && ss[s].parent >= 0 && ss[i].parent == ss[s].parent) c.push_back(i);
        return c.empty() ? anySet() : rng.pick(c);
    }
    // a part of a vault goes to a set
    void Engine::opFill(int t)
    {
        std::vector<int> c;
        for (int i = 0; i < (int)vs.size(); ++i) if (vs[i].v && !vs[i].keys.empty() && !vs[i].recs.empty()) c.push_back(i);
        if (c.empty()) return;
        int v = rng.chance(70) ? c[0] : rng.pick(c);
        const MKey key = *anyKey(v);
        MPred mp;
        int m = (int)rng.below(10);
        mp.mode = m < 6 ? 1 : m < 8 ? 0 : 2;
        mp.salt = rng.next();
        if (mp.mode == 2) { const MKey* k2 = anyKey(v); mp.key = k2->name; mp.k = k2->k; mp.thr = vs[v].recs[rng.below(vs[v].recs.size())]->v.at(k2->name); }
        std::string what = vname(v) + " RequestGreaterOrEqual " + show(key.name) + " lowest" + predStr(mp) + " -> " + sname(t);
        x.t(what);
        lastCat = CAT_QUERY;
        lastFailed = false;
        std::vector<MRec*> sat;
        for (auto* r : recsOf(v)) if (accepts(mp, *r)) sat.push_back(r);
        Pred p;
        if (mp.mode) p = realPred(mp);
        VaultOperationResult r = kind(key.k).Query(*vs[v].v, C_GE, key.name, 0, 0, true, true, *ss[t].s, NPOS, mp.mode ? &p : nullptr);
        checkRes(r, true, RC::Success, key.name, kind(key.k).type, kind(key.k).type, A_QUERY, what);
        afterQuery(r, t, v, sat, NPOS, false, A_QUERY, what);
    }
    // a reference gets a record
    void Engine::opFetch(int ri)
    {
        int v = anyVault();
        if (vs[v].keys.empty() || vs[v].recs.empty()) return;
        const MKey key = *anyKey(v);
        const int val = vs[v].recs[rng.below(vs[v].recs.size())]->v.at(key.name);
        x.t(vname(v) + " GetRecord " + show(key.name) + " " + kind(key.k).name + "==" + show(kind(key.k).Str(val)) + " -> " + rname(ri));
        lastCat = CAT_QUERY;
        lastFailed = false;
        VaultOperationResult r = kind(key.k).GetRecord(*vs[v].v, key.name, val, *rs[ri].r);
        checkRes(r, true, RC::Success, key.name, kind(key.k).type, kind(key.k).type, A_VLOOK | A_QUERY | (key.uniq ? A_UNIQ : 0), "GetRecord");
        MRec* got = byId(v, rs[ri].r->GetRecordUniqueId());
        expect(got && got->v.at(key.name) == val, A_VLOOK | A_QUERY, "GetRecord returned a record which does not hold the value");
        for (auto& q : vs[v].recs) if (q.get() == got) rs[ri].rec = q;
    }
    void Engine::keepAlive()
    {
        int v = anyVault();
        if (vs[v].keys.empty()) op(O_ADDKEY);
        else if (vs[v].recs.size() < 2) for (int i = rng.range(1, 5); i > 0; --i) op(O_CREATE);
        for (int i = 0; i < (int)ss.size(); ++i) if ((ss[i].parent < 0 || ss[i].mem.empty()) && rng.chance(50)) opFill(i);
        for (int i = 0; i < (int)rs.size(); ++i) if (!rs[i].valid() && rng.chance(50)) opFetch(i);
    }
    // very many handles of one record, or sets with it, come and go
    void Engine::opStorm()
    {
        std::vector<int> c;
        for (int i = 0; i < (int)rs.size(); ++i) if (rs[i].valid()) c.push_back(i);
        if (c.empty()) return;
        MRef& m = rs[rng.pick(c)];
        const bool sets = rng.chance(40) && !vs[m.rec->vault].keys.empty();
        const int n = sets ? rng.range(20, 300) : rng.chance(20) ? 70000 : rng.range(100, 700);
        const bool erase = rng.chance(40);
        lastCat = CAT_REF;
        x.t("storm of " + S(n) + (sets ? " sets with" : " references to") + " #" + S(m.rec->uid) + (erase ? ", erased below them" : ""));
        const int v = m.rec->vault;
        if (sets)
        {
            std::vector<std::unique_ptr<VaultRecordSet>> l;
            const MKey k = vs[v].keys[0];
            const MRec* me = m.rec.get();
            Pred p = [me](const VaultRecordRef& r) { return r.GetRecordUniqueId() == me->id; };
            for (int i = 0; i < n; ++i)
            {
                l.emplace_back(new VaultRecordSet());
                VaultOperationResult r = kind(k.k).Query(*vs[v].v, C_GE, k.name, 0, 0, true, true, *l.back(), NPOS, &p);
                expect(r.IsOperationSuccess && l.back()->Size() == 1, A_QUERY | A_SMEM, "a query for one record finds " + S((long)l.back()->Size()));
            }
            if (erase) { expect(vs[v].v->EraseRecord(*m.r), A_EFFECT, "EraseRecord failed"); kill(m.rec.get()); }
            for (auto& s : l) expect(s->Size() == (erase ? 0u : 1u) && s->GetIsParentVaultValid(), A_SMEM, "one of many sets has " + S((long)s->Size()) + " records");
            while (!l.empty()) { std::swap(l.back(), l[rng.below(l.size())]); l.pop_back(); }
        }
        else
        {
            std::vector<VaultRecordRef> l;
            for (int i = 0; i < n; ++i) l.push_back(*m.r);
            if (erase) { expect(vs[v].v->EraseRecord(*m.r), A_EFFECT, "EraseRecord failed"); kill(m.rec.get()); }
            for (auto& r : l) expect(r.IsValid() == !erase && r == *m.r, A_REF | A_REFEQ, "one of many references is wrong");
            while (l.size() > 1) l.pop_back();
            expect(l[0].IsValid() == !erase && m.r->IsValid() == !erase, A_REF, "a reference is wrong after many others have gone");
        }
    }
    const MKey* Engine::anyKey(int v)
    {
        if (vs[v].keys.empty()) return nullptr;
        return &vs[v].keys[rng.below(vs[v].keys.size())];
    }
    std::size_t Engine::anyLimit(std::size_t around)
    {
        int c = (int)rng.below(10);
        if (c < 4) return NPOS;
        // a limit may be larger than any smaller integer type can hold
        if (c == 4) { static const int bits[] = {8, 16, 31, 32, 33, 63}; return ((std::size_t)1 << bits[rng.below(6)]) + rng.below(3); }
        if (c == 5) return 0;
        if (c == 6) return around;
        return rng.below(around + 3);
    }
    MPred Engine::anyPred(int v)
    {
        MPred p;
        int c = (int)rng.below(10);
        if (c < 5) return p;
        if (c < 7) { p.mode = 1; p.salt = rng.next(); return p; }
        if (c == 7) { p.mode = 3; return p; }
        if (c == 8 && rng.chance(50)) { p.mode = 4; return p; }
        const MKey* k = anyKey(v);
        p.mode = 2;
        p.key = k ? k->name : "missing";
        p.k = k ? k->k : 0;
        p.thr = poolVal(p.k);
        return p;
    }
    Pred Engine::realPred(const MPred& p) const
    {
        MPred q = p;
        return [q](const VaultRecordRef& ref) -> bool
        {
            switch (q.mode)
            {
            case 1: return (mix(hashStr(ref.GetRecordUniqueId()), q.salt) & 3) != 0;
            case 2:
            {
                int i = kind(q.k).def;
                VaultOperationResult r = kind(q.k).GetData(ref, q.key, i);
                return r.IsOperationSuccess && i <= q.thr;
            }
            case 4: return false;
            default: return ref.IsValid();
            }
        };
    }
    // Predicates, visitors and key functions are user code that may use the library itself. One such use, on a record the library
    // handed out: fixedKeys are keys whose values must stay, fixedSet and target are sets which must not be written
    void Engine::nested(int v, const VaultRecordRef& ref, const std::set<std::string>& fixedKeys, int fixedSet, int target)
    {
        MRec* m = byId(v, ref.GetRecordUniqueId());
        expect(m, A_QUERY | A_SORT, "a callback got a record that is not in the vault");
        if (vs[v].keys.empty()) return;
        const MKey& key = vs[v].keys[rng.below(vs[v].keys.size())];
        std::string what = "  nested ";
        switch (rng.below(5))
        {
        case 0: // update another key
        case 1:
        {
            if (fixedKeys.count(key.name)) return;
            int val = poolVal(key.k);
            what += "SetData " + m->id + " " + show(key.name) + " = " + show(kind(key.k).Str(val));
            x.t(what);
            VaultRecordRef own(ref);
            bool clash = key.uniq && uniqClash(v, key.name, val, m);
            VaultOperationResult r = kind(key.k).SetData(own, key.name, val);
            if (clash) { checkRes(r, false, RC::UniqueKeyValueAlredyInSet, A_UNIQ, what); return; }
            checkRes(r, true, RC::Success, 0, what);
            m->v[key.name] = val;
            x.cnt("nested:update");
            break;
        }
        case 2: // query into another set
        {
            if (ss.empty()) return;
            int t = (int)rng.below(ss.size());
            if (t == fixedSet || t == target) return;
            int a = m->v.at(key.name);
            std::vector<MRec*> sat;
            for (auto* o : recsOf(v)) if (o->v.at(key.name) == a) sat.push_back(o);
            what += "RequestEqual " + show(key.name) + " -> " + sname(t);
            x.t(what);
            VaultOperationResult r = kind(key.k).Query(*vs[v].v, C_EQ, key.name, a, a, true, true, *ss[t].s, NPOS, nullptr);
            checkRes(r, true, RC::Success, A_QUERY | A_VLOOK, what);
            afterQuery(r, t, v, sat, NPOS, false, A_QUERY | A_VLOOK, what);
            x.cnt("nested:query");
            break;
        }
        case 3: // sorted listing
        {
            bool rev = rng.chance(50);
            what += "GetSortedRecords " + show(key.name);
            x.t(what);
            auto refs = vs[v].v->GetSortedRecords(key.name, rev);
            expect(refs.size() == vs[v].recs.size(), A_SORT | A_VITER, what + ": wrong number of records");
            std::vector<int> got;
            for (auto& q : refs) { MRec* o = byId(v, q.GetRecordUniqueId()); expect(o, A_SORT | A_VITER, what + ": lists a foreign record"); got.push_back(o->v.at(key.name)); }
            expect(rev ? std::is_sorted(got.rbegin(), got.rend()) : std::is_sorted(got.begin(), got.end()), A_SORT | A_VITER, what + ": not in order");
            x.cnt("nested:sort");
            break;
        }
        default: // read
        {
            int o = kind(key.k).def;
            what += "GetData " + show(key.name);
            expect(kind(key.k).GetData(ref, key.name, o).IsOperationSuccess && o == m->v.at(key.name), A_VVAL, what + ": wrong value");
            x.cnt("nested:read");
        }
        }
    }
    Pred Engine::nestPred(MPred& p, int v, const std::string& nm, int target, std::exception_ptr& err, int fixedSet)
    {
        if (!p.mode) p.mode = 3;
        Pred base = realPred(p);
        std::set<std::string> fixedKeys{nm, p.key};
        return [this, base, v, fixedKeys, fixedSet, target, &err](const VaultRecordRef& ref) -> bool
        {
            if (!err)
            {
                try { if (rng.chance(40)) nested(v, ref, fixedKeys, fixedSet, target); }
                catch (...) { err = std::current_exception(); }
            }
            return base(ref);
        };
    }
    bool Engine::accepts(const MPred& p, const MRec& r) const
    {
        switch (p.mode)
        {
        case 1: return (mix(hashStr(r.id), p.salt) & 3) != 0;
        case 2:
        {
            const MKey* k = vs[r.vault].key(p.key);
            return k && k->k == p.k && r.v.at(p.key) <= p.thr;
        }
        case 4: return false;
        default: return true;
        }
    }
    std::string Engine::predStr(const MPred& p) const
    {
        switch (p.mode)
        {
        case 0: return "";
        case 1: return " pred:hash" + S((long)(p.salt % 1000));
        case 2: return " pred:" + p.key + "<=" + show(kind(p.k).Str(p.thr), 20);
        case 3: return " pred:all";
        default: return " pred:none";
        }
    }
    bool Engine::cmp(Cmp c, int v, int a, int b, bool ia, bool ib)
    {
        switch (c)
        {
        case C_GT: return v > a;
        case C_GE: return v >= a;
        case C_EQ: return v == a;
        case C_LE: return v <= a;
        case C_LT: return v < a;
        default: return (ia ? v >= a : v > a) && (ib ? v <= b : v < b);
        }
    }
    std::shared_ptr<MReq> Engine::genTree(int v, int depth, int badPct)
    {
        std::shared_ptr<MReq> m(new MReq());
        if (depth > 0 && rng.chance(75))
        {
            m->leaf = false;
            m->isAnd = rng.chance(55);
            m->a = genTree(v, depth - 1, badPct);
            m->b = genTree(v, depth - 1, badPct);
            // the library has a special path for  (key > a) && (key < b)
            if (m->isAnd && rng.chance(50) && m->a->leaf)
            {
                if (rng.chance(70)) m->a->c = rng.chance(50) ? C_GT : C_GE;
                std::shared_ptr<MReq> b(new MReq(*m->a));
                b->c = rng.chance(80) ? (rng.chance(50) ? C_LT : C_LE) : (Cmp)rng.below(5);
                if (rng.chance(10)) { b->k = rng.pick(usedKinds); }
                b->val = queryVal(b->k);
                if (rng.chance(60)) b->pred = anyPred(v);
                m->b = b;
                if (rng.chance(20)) std::swap(m->a, m->b);
            }
            return m;
        }
        m->c = (Cmp)rng.below(5);
        const MKey* k = anyKey(v);
        if (k == nullptr || rng.chance(badPct))
        {
            if (k && rng.chance(60)) { m->key = k->name; do m->k = (int)rng.below(KINDS); while (m->k == k->k); }
            else { m->key = "missing"; m->k = rng.pick(usedKinds); }
        }
        else { m->key = k->name; m->k = k->k; }
        m->val = queryVal(m->k);
        m->pred = anyPred(v);
        return m;
    }
    std::unique_ptr<ReqNode> Engine::build(const MReq& m)
    {
        if (m.leaf)
        {
            if (m.pred.mode == 0) return kind(m.k).Leaf(m.c, m.key, m.val, nullptr);
            Pred p = realPred(m.pred);
            return kind(m.k).Leaf(m.c, m.key, m.val, &p);
        }
        std::unique_ptr<ReqNode> a = build(*m.a), b = build(*m.b);
        return combine(m.isAnd, *a, *b); // operands die here
    }
    bool Engine::evalTree(const MReq& m, const MRec& r) const
    {
        if (m.leaf) return cmp(m.c, r.v.at(m.key), m.val, m.val, false, false) && accepts(m.pred, r);
        return m.isAnd ? evalTree(*m.a, r) && evalTree(*m.b, r) : evalTree(*m.a, r) || evalTree(*m.b, r);
    }
    void Engine::badLeaves(const MReq& m, int v, std::vector<const MReq*>& bad) const
    {
        if (!m.leaf) { badLeaves(*m.a, v, bad); badLeaves(*m.b, v, bad); return; }
        const MKey* k = vs[v].key(m.key);
        if (!k || k->k != m.k) bad.push_back(&m);
    }
    std::string Engine::treeStr(const MReq& m) const
    {
        if (m.leaf) return "[" + show(m.key, 10) + " " + kind(m.k).name + cmpName[m.c] + show(kind(m.k).Str(m.val), 12) + predStr(m.pred) + "]";
        return "(" + treeStr(*m.a) + (m.isAnd ? " && " : " || ") + treeStr(*m.b) + ")";
    }

    // ---------------------------------------------------------------- model helpers
    std::vector<MRec*> Engine::recsOf(int v) const
    {
        std::vector<MRec*> r;
        for (auto& p : vs[v].recs) r.push_back(p.get());
        return r;
    }
    MRec* Engine::byId(int v, const std::string& id) const
    {
        for (auto& p : vs[v].recs) if (p->id == id) return p.get();
        return nullptr;
    }
    void Engine::kill(MRec* r)
    {
        r->alive = false;
        for (auto& s : ss) s.mem.erase(r);
        auto& l = vs[r->vault].recs;
        for (std::size_t i = 0; i < l.size(); ++i)
            if (l[i].get() == r) { l.erase(l.begin() + i); break; }
    }
    void Engine::detachSets(int v)
    {
        for (auto& s : ss) if (s.parent == v) { s.parent = -1; s.mem.clear(); }
    }
    bool Engine::uniqClash(int v, const std::string& key, int val, const MRec* self) const
    {
        for (auto& p : vs[v].recs) if (p.get() != self && p->v.at(key) == val) return true;
        return false;
    }
    std::set<std::string> Engine::idsOf(const std::vector<MRec*>& r) const
    {
        std::set<std::string> s;
        for (auto* m : r) s.insert(m->id);
        return s;
    }
    std::vector<std::string> Engine::realIds(const Vault& v, const std::string& key) const
    {
        std::vector<std::string> r;
        for (auto& ref : v.GetSortedRecords(key)) r.push_back(ref.GetRecordUniqueId());
        return r;
    }
    std::string Engine::recStr(const MRec* r) const
    {
        std::string s = "#" + S(r->uid) + "{";
        for (auto& kv : r->v)
        {
            const MKey* k = r->vault >= 0 ? vs[r->vault].key(kv.first) : nullptr;
            s += show(kv.first, 10) + "=" + (k ? show(kind(k->k).Str(kv.second), 12) : S(kv.second)) + " ";
        }
        return s + "}";
    }
    void Engine::checkRes(const VaultOperationResult& r, bool ok, RC code, unsigned aspects, const std::string& what)
    {
        expect(r.IsOperationSuccess == ok, aspects | A_RESULT | A_EFFECT, what + ": returned " + (r.IsOperationSuccess ? "success" : "failure (" + codeName(r.ResultCode) + ")") + ", expected " +
            (ok ? std::string("success") : "failure (" + codeName(code) + ")"));
        expect(r.ResultCode == code, aspects | A_RESULT, what + ": result code " + codeName(r.ResultCode) + ", expected " + codeName(code));
        if (!ok) { lastFailed = true; x.cnt("failed:" + codeName(code)); }
        if (rng.chance(1))
        {
            // the words and the comparison of results
            static const char* const words[] = {"another", "same", "without lambda", "alredy in vault|already in vault|duplicate", "update", "record is al", "match", "parent vault is not|vault is not valid", "vaultrecordref|reference",
                "key was not found|key not found", "type", "idle", "value was not found|value not found", "value al", "success"};
            auto low = [](std::string t) { for (char& c : t) c = (char)tolower((unsigned char)c); return t; };
            std::string text = low(r.ResultCodeString()), w = words[(int)code];
            bool found = false;
            for (std::size_t b = 0; b <= w.size();)
            {
                std::size_t e = std::min(w.find('|', b), w.size());
                found |= text.find(w.substr(b, e - b)) != std::string::npos;
                b = e + 1;
            }
            expect(found, A_RESULT, what + ": the text of " + codeName(code) + " is " + show(text));
            std::ostringstream o;
            std::streambuf* old = std::cout.rdbuf(o.rdbuf());
            r.Print();
            std::cout.rdbuf(old);
            std::string out = o.str();
            if (!out.empty()) expect(low(out).find(ok ? "success!" : "failed!") != std::string::npos && low(out).find(text) != std::string::npos && out.find(r.Key) != std::string::npos && out.find(r.SavedType.name()) != std::string::npos &&
                out.find(r.RequestedType.name()) != std::string::npos, A_RESULT, what + ": the printed result is " + show(out, 300));
            VaultOperationResult q = r;
            expect(q == r, A_RESULT, what + ": a copied result differs from its source");
            switch (rng.below(5))
            {
            case 0: q.IsOperationSuccess = !q.IsOperationSuccess; break;
            case 1: q.ResultCode = (RC)(((int)q.ResultCode + 1 + (int)rng.below(14)) % 15); break;
            case 2: q.Key += "x"; break;
            case 3: q.RequestedType = typeid(Engine); break;
            default: q.SavedType = typeid(Engine); break;
            }
            expect(!(q == r), A_RESULT, what + ": two different results are equal");
            x.cnt("result_texts");
        }
    }
    void Engine::checkRes(const VaultOperationResult& r, bool ok, RC code, const std::string& key, std::type_index req, std::type_index saved, unsigned aspects, const std::string& what)
    {
        checkRes(r, ok, code, aspects, what);
        expect(r.Key == key, A_RESULT, what + ": reported key " + show(r.Key) + ", expected " + show(key));
        expect(r.RequestedType == req, A_RESULT, what + ": reported requested type " + r.RequestedType.name() + ", expected " + req.name());
        expect(r.SavedType == saved, A_RESULT, what + ": reported saved type " + r.SavedType.name() + ", expected " + saved.name());
    }

    // ---------------------------------------------------------------- vault operations
    void Engine::opNewVault()
    {
        int v = (int)rng.below(vs.size());
        if (vs[v].v) { // destroying the previous one is covered by opVDestroy
            for (int i = 0; i < (int)vs.size(); ++i) if (!vs[i].v) v = i;
            if (vs[v].v) return;
        }
        x.t("new " + vname(v));
        vs[v].v.reset(new Vault());
        vs[v].errs.clear();
        vs[v].errsKnown = true;
        int n = rng.range(0, 4);
        for (int i = 0; i < n; ++i)
        {
            std::string nm = rng.pick(names);
            if (vs[v].key(nm)) continue;
            int k = rng.pick(usedKinds);
            if (rng.chance(x.prop == "P05" ? 60 : 15) )
            {
                x.t(vname(v) + " AddUniqueKey " + show(nm) + " " + kind(k).name);
                VaultOperationResult r = kind(k).AddUniqueKey(*vs[v].v, nm);
                checkRes(r, true, RC::Success, A_EFFECT, "AddUniqueKey");
                vs[v].keys.push_back(MKey{nm, k, kind(k).def, true});
            }
            else
            {
                int d = poolVal(k);
                x.t(vname(v) + " AddKey " + show(nm) + " " + kind(k).name + " = " + show(kind(k).Str(d)));
                bool ok = kind(k).AddKey(*vs[v].v, nm, d);
                expect(ok, A_EFFECT | A_RESULT, "AddKey returned false for a new key");
                vs[v].keys.push_back(MKey{nm, k, d, false});
            }
        }
    }
    void Engine::onKeyAdded(int v, const MKey& k)
    {
        vs[v].keys.push_back(k);
    }
    void Engine::opAddKey()
    {
        int v = anyVault();
        std::string nm = rng.pick(names);
        int k = rng.pick(usedKinds), d = poolVal(k);
        bool dup = vs[v].key(nm) != nullptr;
        x.t(vname(v) + " AddKey " + show(nm) + " " + kind(k).name + " = " + show(kind(k).Str(d)));
        lastCat = CAT_SCHEMA;
        bool ok = kind(k).AddKey(*vs[v].v, nm, d);
        lastFailed = dup;
        expect(ok == !dup, A_RESULT | A_EFFECT, std::string("AddKey returned ") + (ok ? "true" : "false"));
        if (dup) return;
        onKeyAdded(v, MKey{nm, k, d, false});
        for (auto& r : vs[v].recs) r->v[nm] = d;
    }
    void Engine::opAddUniq()
    {
        int v = anyVault();
        std::string nm = rng.pick(names);
        int k = rng.pick(usedKinds);
        const MKey* old = vs[v].key(nm);
        x.t(vname(v) + " AddUniqueKey " + show(nm) + " " + kind(k).name);
        lastCat = CAT_SCHEMA;
        VaultOperationResult r = kind(k).AddUniqueKey(*vs[v].v, nm);
        if (old) { checkRes(r, false, RC::DuplicateKey, nm, kind(k).type, kind(old->k).type, 0, "AddUniqueKey"); return; }
        if (!vs[v].recs.empty())
        {
            checkRes(r, false, RC::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda, A_UNIQ, "AddUniqueKey without function");
            expect(r.Key == nm && r.RequestedType == kind(k).type, A_RESULT, "AddUniqueKey: wrong key or type in the result");
            return;
        }
        checkRes(r, true, RC::Success, A_UNIQ, "AddUniqueKey");
        onKeyAdded(v, MKey{nm, k, kind(k).def, true});
    }
    void Engine::opAddUniqFn()
    {
        int v = anyVault();
        std::string nm = rng.pick(names);
        int k = rng.pick(usedKinds);
        const MKey* old = vs[v].key(nm);
        std::size_t n = vs[v].recs.size();
        bool dup = n >= 2 && (rng.chance(35) || n > (std::size_t)kind(k).n);
        if (n > (std::size_t)kind(k).n && !dup) return;
        std::map<std::string, int> val;
        std::vector<int> order;
        for (int i = 0; i < kind(k).n; ++i) order.push_back(i);
        for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[rng.below(i)]);
        std::size_t i = 0;
        for (auto& r : vs[v].recs) { val[r->id] = order[i % order.size()]; ++i; }
        if (dup && n <= order.size())
        {
            std::size_t a = rng.below(n), b = (a + 1 + rng.below(n - 1)) % n;
            val[vs[v].recs[a]->id] = val[vs[v].recs[b]->id];
        }
        x.t(vname(v) + " AddUniqueKeyFn " + show(nm) + " " + kind(k).name + (dup ? " (duplicating function)" : ""));
        lastCat = CAT_SCHEMA;
        std::set<std::string> seen;
        std::size_t next = 0;
        std::string fnErr;
        VaultOperationResult r = kind(k).AddUniqueKeyFn(*vs[v].v, nm, [&](std::size_t c, const VaultRecordRef& ref) -> int
        {
            std::string id = ref.GetRecordUniqueId();
            if (c != next) fnErr = "unique key function got counter " + S((long)c) + " instead of " + S((long)next);
            ++next;
            if (!seen.insert(id).second) fnErr = "unique key function called twice for one record";
            auto it = val.find(id);
            if (it == val.end()) { fnErr = "unique key function called for an unknown record " + id; return 0; }
            MRec* m = byId(v, id);
            for (auto& kk : vs[v].keys)
            {
                int o = kind(kk.k).def;
                if (!kind(kk.k).GetData(ref, kk.name, o).IsOperationSuccess || o != m->v.at(kk.name)) fnErr = "unique key function can not read " + show(kk.name) + " of its record";
            }
            return it->second;
        });
        if (old) { checkRes(r, false, RC::DuplicateKey, nm, kind(k).type, kind(old->k).type, 0, "AddUniqueKeyFn"); return; }
        expect(fnErr.empty(), A_UNIQ | A_EFFECT, fnErr);
        if (dup)
        {
            checkRes(r, false, RC::UniqueKeyValueAlredyInSet, A_UNIQ, "AddUniqueKeyFn duplicating");
            expect(r.Key == nm && r.RequestedType == kind(k).type, A_RESULT, "AddUniqueKeyFn: wrong key or type in the result");
            return;
        }
        checkRes(r, true, RC::Success, A_UNIQ, "AddUniqueKeyFn");
        expect(seen.size() == n, A_UNIQ | A_EFFECT, "unique key function called for " + S((long)seen.size()) + " of " + S((long)n) + " records");
        onKeyAdded(v, MKey{nm, k, kind(k).def, true});
        for (auto& rec : vs[v].recs) rec->v[nm] = val[rec->id];
    }
    void Engine::opUpdateKey()
    {
        int v = anyVault();
        std::string nm = anyName(v);
        MKey* key = nullptr;
        for (auto& k : vs[v].keys) if (k.name == nm) key = &k;
        int k = key && rng.chance(80) ? key->k : rng.pick(usedKinds);
        int d = poolVal(k);
        x.t(vname(v) + " UpdateKey " + show(nm) + " " + kind(k).name + " = " + show(kind(k).Str(d)));
        lastCat = CAT_SCHEMA;
        VaultOperationResult r = kind(k).UpdateKey(*vs[v].v, nm, d);
        if (!key) { checkRes(r, false, RC::WrongKey, nm, kind(k).type, typeid(void), 0, "UpdateKey"); return; }
        if (key->k != k) { checkRes(r, false, RC::WrongType, nm, kind(k).type, kind(key->k).type, 0, "UpdateKey"); return; }
        if (key->uniq) { checkRes(r, false, RC::UniqueKey, nm, kind(k).type, kind(k).type, A_UNIQ, "UpdateKey"); return; }
        checkRes(r, true, RC::Success, nm, kind(k).type, kind(k).type, 0, "UpdateKey");
        key->def = d;
    }
    void Engine::opRemoveKey()
    {
        int v = anyVault();
        std::string nm = anyName(v);
        const MKey* key = vs[v].key(nm);
        // a copy of keyless records could not be identified: keep one key while there are records
        if (key && vs[v].keys.size() == 1 && !vs[v].recs.empty() && rng.chance(80)) return;
        x.t(vname(v) + " RemoveKey " + show(nm));
        lastCat = CAT_SCHEMA;
        bool ok = vs[v].v->RemoveKey(nm);
        lastFailed = key == nullptr;
        expect(ok == (key != nullptr), A_RESULT | A_EFFECT, std::string("RemoveKey returned ") + (ok ? "true" : "false"));
        if (!key) return;
        for (std::size_t i = 0; i < vs[v].keys.size(); ++i)
            if (vs[v].keys[i].name == nm) { vs[v].keys.erase(vs[v].keys.begin() + i); break; }
        for (auto& r : vs[v].recs) r->v.erase(nm);
    }
    void Engine::opCreate()
    {
        int v = anyVault();
        MVault& mv = vs[v];
        if (mv.recs.size() >= maxRecs) { if (rng.chance(50)) opEraseKey(true); return; }
        int badAt = rng.chance(12) ? (int)rng.below(4) : -1;
        std::vector<std::pair<std::string, VaultParamInput>> params;
        std::map<std::string, int> nv;
        for (auto& k : mv.keys) nv[k.name] = k.def;
        std::string tr;
        // expected failure
        bool bad = false;
        RC code = RC::Success;
        std::string badKey;
        std::type_index breq = typeid(void), bsaved = typeid(void);
        std::vector<MKey> order = mv.keys;
        for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[rng.below(i)]);
        int cnt = 0;
        auto add = [&](const std::string& nm, int k, int val)
        {
            params.emplace_back(nm, kind(k).Param(val));
            tr += " " + show(nm, 10) + ":" + kind(k).name + "=" + show(kind(k).Str(val), 12);
            if (bad) return;
            const MKey* key = mv.key(nm);
            if (!key) { bad = true; code = RC::WrongKey; badKey = nm; breq = kind(k).type; return; }
            if (key->k != k) { bad = true; code = RC::WrongType; badKey = nm; breq = kind(k).type; bsaved = kind(key->k).type; return; }
            nv[nm] = val;
        };
        for (auto& k : order)
        {
            if (cnt++ == badAt)
            {
                if (rng.chance(50)) add("missing", rng.pick(usedKinds), 0);
                else { int o; do o = (int)rng.below(KINDS); while (o == k.k); add(k.name, o, poolVal(o)); }
            }
            if (!rng.chance(k.uniq ? 92 : 65)) continue;
            int val = k.uniq && rng.chance(70) ? (int)rng.below(kind(k.k).n) : poolVal(k.k);
            if (rng.chance(4)) add(k.name, k.k, poolVal(k.k)); // repeated key: the last value wins
            add(k.name, k.k, val);
        }
        bool withRef = !rs.empty() && (mv.keys.empty() || rng.chance(70));
        int ri = withRef ? anyRef() : -1;
        if (mv.keys.empty() && !withRef) return;
        x.t(vname(v) + " CreateRecord" + (withRef ? " -> " + rname(ri) : "") + tr);
        lastCat = CAT_RECORD;
        VaultOperationResult r = withRef ? mv.v->CreateRecord(*rs[ri].r, params) : mv.v->CreateRecord(params);
        if (bad)
        {
            checkRes(r, false, code, badKey, breq, bsaved, 0, "CreateRecord");
            return;
        }
        std::vector<std::string> clash;
        for (auto& k : mv.keys) if (k.uniq && uniqClash(v, k.name, nv[k.name], nullptr)) clash.push_back(k.name);
        if (!clash.empty())
        {
            checkRes(r, false, RC::UniqueKeyValueAlredyInSet, A_UNIQ, "CreateRecord with a duplicate unique value");
            bool okKey = std::find(clash.begin(), clash.end(), r.Key) != clash.end();
            expect(okKey, A_RESULT | A_UNIQ, "CreateRecord: reported key " + show(r.Key) + " has no duplicate value");
            expect(r.RequestedType == kind(mv.key(r.Key)->k).type, A_RESULT, "CreateRecord: wrong requested type for duplicate unique value");
            return;
        }
        bool hasUniq = false;
        for (auto& k : mv.keys) hasUniq |= k.uniq;
        checkRes(r, true, RC::Success, hasUniq ? A_UNIQ : 0, "CreateRecord");
        RecP rec(new MRec());
        rec->v = nv;
        rec->vault = v;
        rec->uid = nextUid++;
        if (withRef)
        {
            rec->id = rs[ri].r->GetRecordUniqueId();
            expect(rs[ri].r->IsValid() && rec->id != "null", A_REF | A_EFFECT, "CreateRecord: the reference is not valid after success");
            expect(byId(v, rec->id) == nullptr, A_REF | A_EFFECT, "CreateRecord: the reference denotes an already existing record");
            rs[ri].rec = rec;
        }
        else
        {
            const MKey& k = mv.keys[rng.below(mv.keys.size())];
            std::vector<std::string> ids = realIds(*mv.v, k.name);
            std::vector<std::string> fresh;
            for (auto& id : ids) if (!byId(v, id)) fresh.push_back(id);
            expect(fresh.size() == 1, A_VITER | A_VSIZE, "CreateRecord: " + S((long)fresh.size()) + " new records are listed after one creation");
            rec->id = fresh[0];
        }
        mv.recs.push_back(rec);
    }
    // lines of a csv file become records, or errors, one by one
    void Engine::opLoadFile()
    {
        int v = anyVault();
        MVault& mv = vs[v];
        if (mv.keys.empty() || x.scratch.empty()) return;
        if (mv.recs.size() >= maxRecs) { if (rng.chance(50)) opEraseKey(true); return; }
        const int mode = (int)rng.below(4); // 0 keys in the file, 1 keys of the vault, 2 given keys, 3 keys in the file and a line handler
        std::vector<std::string> head;
        for (auto& k : mv.keys) head.push_back(k.name);
        if (mode != 1)
        {
            for (std::size_t i = head.size(); i > 1; --i) std::swap(head[i - 1], head[rng.below(i)]);
            if (rng.chance(40)) head.resize(1 + rng.below(head.size()));
            if (rng.chance(5)) head.insert(head.begin() + rng.below(head.size() + 1), "missing");
        }
        const bool hasHead = mode == 0 || mode == 3;
        const char sep = rng.chance(70) ? ',' : ';';
        std::string file;
        auto put = [&](const std::vector<std::string>& row)
        {
            for (std::size_t i = 0; i < row.size(); ++i)
            {
                if (i) file += sep;
                if (row[i].find_first_of(",;\"\r\n") == std::string::npos && !row[i].empty() && rng.chance(70)) { file += row[i]; continue; }
                file += '"';
                for (char c : row[i]) { if (c == '"') file += '"'; file += c; }
                file += '"';
            }
            file += "\r\n";
        };
        if (hasHead) put(head);
        typedef std::pair<std::size_t, std::set<std::string>> Err;
        std::vector<Err> errs;
        std::vector<std::map<std::string, int>> added;
        const int lines = rng.range(0, 6);
        bool anyUniq = false, clashed = false;
        for (auto& k : mv.keys) anyUniq |= k.uniq;
        for (int l = 1; l <= lines; ++l)
        {
            std::vector<std::string> row;
            std::map<std::string, int> nv;
            for (auto& k : mv.keys) nv[k.name] = k.def;
            bool bad = false;
            std::size_t n = rng.chance(15) ? 1 + rng.below(head.size()) : head.size();
            for (std::size_t i = 0; i < n; ++i)
            {
                const MKey* k = mv.key(head[i]);
                if (!k) { row.push_back("x"); if (!bad) errs.push_back(Err{(std::size_t)l + hasHead, {head[i]}}); bad = true; continue; }
                if (k->k != K_STR && rng.chance(3)) { row.push_back("x!"); if (!bad) errs.push_back(Err{(std::size_t)l + hasHead, {head[i]}}); bad = true; continue; }
                std::string s;
                int val = -1;
                for (int t = 0; t < 8; ++t)
                {
                    int c = k->uniq && rng.chance(60) ? (int)rng.below(kind(k->k).n) : poolVal(k->k);
                    if (kind(k->k).FileText(c, s)) { val = c; break; }
                }
                if (val < 0) { val = kind(k->k).def; if (!kind(k->k).FileText(val, s)) throw Foreign{"generator"}; }
                nv[k->name] = val;
                row.push_back(s);
            }
            if (n == head.size() && rng.chance(8)) row.push_back("extra");
            put(row);
            if (bad) continue;
            Err e{(std::size_t)l, {}};
            for (auto& k : mv.keys)
            {
                if (!k.uniq) continue;
                bool c = uniqClash(v, k.name, nv[k.name], nullptr);
                for (auto& a : added) c |= a[k.name] == nv[k.name];
                if (c) e.second.insert(k.name);
            }
            if (!e.second.empty()) { errs.push_back(e); clashed = true; continue; }
            added.push_back(nv);
        }
        std::string path = x.scratch + "/load.csv";
        if (!Ctx::writeAll(path, file)) throw Foreign{"file not written"};
        x.t(vname(v) + " ReadFile mode " + S(mode) + " sep " + sep + " " + show(file, 400));
        lastCat = CAT_RECORD;
        bool ok;
        std::size_t calls = 0, seen = 0;
        if (mode == 0) ok = mv.v->ReadFile(path, sep);
        else if (mode == 1) ok = mv.v->ReadFile(path, sep, false);
        else if (mode == 2) ok = mv.v->ReadFile(path, sep, false, head);
        else ok = mv.v->ReadFile(path, sep, [&](const std::vector<std::string>&, std::vector<std::string>&) { ++calls; seen = mv.v->Size(); });
        const unsigned U = anyUniq ? A_UNIQ : 0;
        expect(ok, A_RESULT | A_EFFECT, "ReadFile returned false for a readable file");
        if (mode == 3) expect(calls == (std::size_t)lines, A_EFFECT, "ReadFile called the handler " + S((long)calls) + " times for " + S(lines) + " lines");
        auto got = mv.v->GetErrorsInLastReadedFile();
        std::string gs, ws;
        for (auto& e : got) gs += " " + S((long)e.first) + ":" + show(e.second, 20);
        for (auto& e : errs) { ws += " " + S((long)e.first) + ":"; for (auto& k : e.second) ws += show(k, 20) + "/"; }
        bool same = got.size() == errs.size();
        for (std::size_t i = 0; same && i < got.size(); ++i) same = errs[i].second.count(got[i].second) && got[i].first == errs[i].first;
        mv.errs = errs;
        mv.errsKnown = true;
        expect(same, A_RESULT | U, "ReadFile reports the errors" + gs + ", expected" + ws);
        expect(mv.v->Size() == mv.recs.size() + added.size(), A_VSIZE | U, "vault has " + S((long)mv.v->Size()) + " records after ReadFile, expected " + S((long)(mv.recs.size() + added.size())));
        // find the new records
        auto show1 = [](const std::map<std::string, int>& m) { std::string t; for (auto& kv : m) t += kv.first + "\x1f" + S(kv.second) + "\x1e"; return t; };
        std::multiset<std::string> want;
        for (auto& a : added) want.insert(show1(a));
        auto refs = mv.v->GetSortedRecords(mv.keys[rng.below(mv.keys.size())].name);
        expect(refs.size() == mv.recs.size() + added.size(), A_VITER | U, "vault lists " + S((long)refs.size()) + " records after ReadFile, expected " + S((long)(mv.recs.size() + added.size())));
        std::vector<RecP> fresh;
        for (auto& ref : refs)
        {
            if (byId(v, ref.GetRecordUniqueId())) continue;
            std::map<std::string, int> g;
            for (auto& k : mv.keys)
            {
                int o = kind(k.k).def;
                VaultOperationResult r = kind(k.k).GetData(ref, k.name, o);
                expect(r.IsOperationSuccess, A_VVAL, "a loaded record can not be read under key " + show(k.name));
                g[k.name] = o;
            }
            auto it = want.find(show1(g));
            expect(it != want.end(), A_VVAL | U, "ReadFile made a record whose values are on no accepted line of the file");
            want.erase(it);
            RecP rec(new MRec());
            rec->id = ref.GetRecordUniqueId();
            rec->v = g;
            rec->vault = v;
            rec->uid = nextUid++;
            fresh.push_back(rec);
        }
        expect(want.empty(), A_VVAL | A_VITER, S((long)want.size()) + " accepted lines have no record after ReadFile");
        for (auto& r : fresh) mv.recs.push_back(r);
        x.cnt("loaded_records", (long)fresh.size());
        if (clashed) x.cnt("loaded_unique_clashes");
        lastFailed = !errs.empty();
    }
    void Engine::opGetRec()
    {
        int v = anyVault();
        int si = -1;
        if (!ss.empty() && rng.chance(40)) { si = anySet(); if (ss[si].parent >= 0) v = ss[si].parent; }
        std::string nm = anyName(v);
        const MKey* key = vs[v].key(nm);
        int k = key && rng.chance(88) ? key->k : rng.pick(usedKinds);
        int val = queryVal(k);
        int ri = anyRef();
        if (ri < 0) return;
        x.t((si >= 0 ? sname(si) : vname(v)) + " GetRecord " + show(nm) + " " + kind(k).name + "==" + show(kind(k).Str(val)) + " -> " + rname(ri));
        lastCat = CAT_QUERY;
        const unsigned LK = si >= 0 ? A_SLOOK | A_QUERY : A_VLOOK | A_QUERY;
        std::string idBefore = rs[ri].r->GetRecordUniqueId();
        VaultOperationResult r = si >= 0 ? kind(k).GetRecord(*ss[si].s, nm, val, *rs[ri].r) : kind(k).GetRecord(*vs[v].v, nm, val, *rs[ri].r);
        if (si >= 0 && ss[si].parent < 0) { checkRes(r, false, RC::ParentVaultNotValid, nm, kind(k).type, typeid(void), A_SATT, "set GetRecord"); return; }
        if (!key) { checkRes(r, false, RC::WrongKey, nm, kind(k).type, typeid(void), LK, "GetRecord"); return; }
        if (key->k != k) { checkRes(r, false, RC::WrongType, nm, kind(k).type, kind(key->k).type, LK, "GetRecord"); return; }
        std::vector<MRec*> all = si >= 0 ? members(ss[si]) : recsOf(v), sat;
        for (auto* m : all) if (m->v.at(nm) == val) sat.push_back(m);
        if (sat.empty())
        {
            checkRes(r, false, RC::WrongValue, nm, kind(k).type, kind(k).type, LK, "GetRecord");
            expect(!rs[ri].r->IsValid(), A_REF | A_OUT, "GetRecord: reference still valid after a missed lookup");
            rs[ri].rec.reset();
            return;
        }
        checkRes(r, true, RC::Success, nm, kind(k).type, kind(k).type, LK, "GetRecord");
        std::string id = rs[ri].r->GetRecordUniqueId();
        MRec* got = byId(v, id);
        expect(got && got->v.at(nm) == val && std::find(sat.begin(), sat.end(), got) != sat.end(), LK, "GetRecord returned record " + id + " which does not hold the value");
        for (auto& p : vs[v].recs) if (p.get() == got) rs[ri].rec = p;
    }
    void Engine::opGetRecs()
    {
        int v = anyVault();
        int si = -1;
        if (!ss.empty() && rng.chance(40)) { si = anySet(); if (ss[si].parent >= 0) v = ss[si].parent; }
        std::string nm = anyName(v);
        const MKey* key = vs[v].key(nm);
        int k = key && rng.chance(88) ? key->k : rng.pick(usedKinds);
        int val = queryVal(k);
        std::vector<MRec*> all = si >= 0 ? members(ss[si]) : recsOf(v), sat;
        if (key && key->k == k) for (auto* m : all) if (m->v.at(nm) == val) sat.push_back(m);
        std::size_t lim = anyLimit(sat.size());
        x.t((si >= 0 ? sname(si) : vname(v)) + " GetRecords " + show(nm) + " " + kind(k).name + "==" + show(kind(k).Str(val)) + " limit " + limS(lim));
        lastCat = CAT_QUERY;
        const unsigned LK = si >= 0 ? A_SLOOK | A_QUERY : A_VLOOK | A_QUERY;
        std::vector<VaultRecordRef> out(rng.below(3));
        if (!rs.empty() && !out.empty()) out[0] = *rs[anyRef()].r;
        VaultOperationResult r = si >= 0 ? kind(k).GetRecords(*ss[si].s, nm, val, out, lim) : kind(k).GetRecords(*vs[v].v, nm, val, out, lim);
        if (si >= 0 && ss[si].parent < 0) { checkRes(r, false, RC::ParentVaultNotValid, nm, kind(k).type, typeid(void), A_SATT, "set GetRecords"); return; }
        if (!key) checkRes(r, false, RC::WrongKey, nm, kind(k).type, typeid(void), LK, "GetRecords");
        else if (key->k != k) checkRes(r, false, RC::WrongType, nm, kind(k).type, kind(key->k).type, LK, "GetRecords");
        else if (sat.empty()) checkRes(r, false, RC::WrongValue, nm, kind(k).type, kind(k).type, LK, "GetRecords");
        else
        {
            checkRes(r, true, RC::Success, nm, kind(k).type, kind(k).type, LK, "GetRecords");
            std::size_t want = std::min(lim, sat.size());
            std::set<std::string> got, ids = idsOf(sat);
            for (auto& ref : out) got.insert(ref.GetRecordUniqueId());
            expect(got.size() == out.size(), LK, "GetRecords returned one record twice");
            expect(out.size() == want, LK, "GetRecords returned " + S((long)out.size()) + " records, expected " + S((long)want));
            for (auto& id : got) expect(ids.count(id), LK, "GetRecords returned record " + id + " which does not hold the value");
            if (!rs.empty() && !out.empty() && rng.chance(50))
            {
                int ri = anyRef();
                std::string id = out.back().GetRecordUniqueId();
                *rs[ri].r = std::move(out.back());
                for (auto& p : vs[v].recs) if (p->id == id) rs[ri].rec = p;
            }
            return;
        }
        expect(out.empty(), A_OUT | A_RESULT, "GetRecords failed but left records in the output");
    }
    void Engine::opEraseRef()
    {
        int v = anyVault(), ri = anyRef();
        if (ri < 0) return;
        bool ok = rs[ri].valid() && rs[ri].rec->vault == v;
        x.t(vname(v) + " EraseRecord " + rname(ri));
        lastCat = CAT_ERASE;
        bool r = vs[v].v->EraseRecord(*rs[ri].r);
        lastFailed = !ok;
        expect(r == ok, A_RESULT | A_EFFECT, std::string("EraseRecord(ref) returned ") + (r ? "true" : "false"));
        if (ok) kill(rs[ri].rec.get());
    }
    void Engine::opEraseKey(bool many)
    {
        int v = anyVault();
        std::string nm = anyName(v);
        const MKey* key = vs[v].key(nm);
        int k = key && rng.chance(90) ? key->k : rng.pick(usedKinds);
        int val = queryVal(k);
        if (key && key->k == k && !vs[v].recs.empty() && rng.chance(60)) val = vs[v].recs[rng.below(vs[v].recs.size())]->v.at(nm);
        std::vector<MRec*> sat;
        if (key && key->k == k) for (auto* m : recsOf(v)) if (m->v.at(nm) == val) sat.push_back(m);
        std::size_t lim = many ? anyLimit(sat.size()) : 1;
        x.t(vname(v) + (many ? " EraseRecords " : " EraseRecord ") + show(nm) + " " + kind(k).name + "==" + show(kind(k).Str(val)) + (many ? " limit " + limS(lim) : ""));
        lastCat = CAT_ERASE;
        VaultOperationResult r = many ? kind(k).EraseRecords(*vs[v].v, nm, val, lim) : kind(k).EraseRecord(*vs[v].v, nm, val);
        const unsigned LK = A_VLOOK;
        if (!key) { checkRes(r, false, RC::WrongKey, nm, kind(k).type, typeid(void), LK, "EraseRecord"); return; }
        if (key->k != k) { checkRes(r, false, RC::WrongType, nm, kind(k).type, kind(key->k).type, LK, "EraseRecord"); return; }
        if (sat.empty()) { checkRes(r, false, RC::WrongValue, nm, kind(k).type, kind(k).type, LK, "EraseRecord"); return; }
        checkRes(r, true, RC::Success, nm, kind(k).type, kind(k).type, LK, "EraseRecord");
        std::size_t want = std::min(lim, sat.size());
        std::vector<std::string> now = realIds(*vs[v].v, nm);
        std::set<std::string> nowSet(now.begin(), now.end());
        std::vector<MRec*> gone;
        for (auto* m : sat) if (!nowSet.count(m->id)) gone.push_back(m);
        expect(gone.size() == want, A_VITER | A_VSIZE | A_QUERY, "erase by value removed " + S((long)gone.size()) + " records, expected " + S((long)want));
        for (auto* m : gone) kill(m);
    }
    void Engine::opDropData()
    {
        int v = anyVault();
        x.t(vname(v) + " DropData");
        lastCat = CAT_DROP;
        vs[v].v->DropData();
        while (!vs[v].recs.empty()) kill(vs[v].recs.back().get());
    }
    void Engine::opDropVault()
    {
        int v = anyVault();
        x.t(vname(v) + " DropVault");
        lastCat = CAT_DROP;
        vs[v].v->DropVault();
        detachSets(v);
        while (!vs[v].recs.empty()) kill(vs[v].recs.back().get());
        vs[v].keys.clear();
        vs[v].errsKnown = false;
    }
    void Engine::opVCopy(bool assign, bool move)
    {
        int from = anyVault(), to = (int)rng.below(vs.size());
        if (vs[from].keys.empty() && !vs[from].recs.empty() && !move) return;
        if (assign && !vs[to].v) assign = false;
        if (!assign)
        {
            if (vs[to].v) for (int i = 0; i < (int)vs.size(); ++i) if (!vs[i].v) to = i;
            if (vs[to].v) assign = true;
        }
        if (!assign && to == from) return;
        x.t(vname(to) + (assign ? " = " : " (ctor) ") + (move ? "move " : "copy ") + vname(from));
        lastCat = CAT_VCOPY;
        hadCopy = true;
        if (to == from)
        {
            Vault& a = *vs[to].v;
            Vault& b = *vs[from].v;
            if (move) a = std::move(b); else a = b;
            return;
        }
        if (assign)
        {
            detachSets(to);
            while (!vs[to].recs.empty()) kill(vs[to].recs.back().get());
            vs[to].keys.clear();
            if (move) *vs[to].v = std::move(*vs[from].v); else *vs[to].v = *vs[from].v;
        }
        else
        {
            if (move) vs[to].v.reset(new Vault(std::move(*vs[from].v))); else vs[to].v.reset(new Vault(*vs[from].v));
        }
        if (move)
        {
            vs[to].keys = std::move(vs[from].keys);
            vs[to].recs = std::move(vs[from].recs);
            vs[from].keys.clear();
            vs[from].recs.clear();
            vs[to].errs = std::move(vs[from].errs);
            vs[to].errsKnown = vs[from].errsKnown;
            vs[from].errs.clear();
            vs[from].errsKnown = true;
            for (auto& r : vs[to].recs) r->vault = to;
            for (auto& s : ss) if (s.parent == from) s.parent = to;
            return;
        }
        vs[to].keys = vs[from].keys;
        vs[to].errsKnown = false;
        // match the new records to the source records by their values
        std::multimap<std::string, MRec*> want;
        for (auto& r : vs[from].recs)
        {
            std::string t;
            for (auto& kv : r->v) t += kv.first + "\x1f" + S(kv.second) + "\x1e";
            want.emplace(t, r.get());
        }
        expect(vs[to].v->Size() == vs[from].recs.size(), A_COPY | A_VSIZE, "copied vault has " + S((long)vs[to].v->Size()) + " records, expected " + S((long)vs[from].recs.size()));
        if (vs[from].recs.empty()) return;
        auto refs = vs[to].v->GetSortedRecords(vs[to].keys[0].name);
        expect(refs.size() == vs[from].recs.size(), A_COPY | A_VITER, "copied vault lists " + S((long)refs.size()) + " records, expected " + S((long)vs[from].recs.size()));
        for (auto& ref : refs)
        {
            std::map<std::string, int> got;
            for (auto& k : vs[to].keys)
            {
                int o = kind(k.k).def;
                VaultOperationResult r = kind(k.k).GetData(ref, k.name, o);
                expect(r.IsOperationSuccess, A_COPY | A_VVAL, "copied record can not be read under key " + show(k.name));
                got[k.name] = o;
            }
            std::string t;
            for (auto& kv : got) t += kv.first + "\x1f" + S(kv.second) + "\x1e";
            auto it = want.find(t);
            expect(it != want.end(), A_COPY | A_VVAL, "copied vault holds a record that is not in the source");
            want.erase(it);
            RecP rec(new MRec());
            rec->id = ref.GetRecordUniqueId();
            rec->v = got;
            rec->vault = to;
            rec->uid = nextUid++;
            expect(byId(from, rec->id) == nullptr, A_COPY | A_REF, "copied vault shares a record with the source");
            vs[to].recs.push_back(rec);
        }
    }
    void Engine::opVDestroy()
    {
        int v = anyVault();
        x.t("destroy " + vname(v));
        lastCat = CAT_DESTROY;
        vs[v].v.reset();
        detachSets(v);
        while (!vs[v].recs.empty()) kill(vs[v].recs.back().get());
        vs[v].keys.clear();
    }

    // ---------------------------------------------------------------- queries
    void Engine::afterQuery(const VaultOperationResult& r, int target, int parent, const std::vector<MRec*>& sat, std::size_t lim, bool bad, unsigned aspect, const std::string& what)
    {
        MSet& t = ss[target];
        t.parent = parent;
        t.mem.clear();
        expect(t.s->GetIsParentVaultValid(), aspect | A_SATT, what + ": result set is not attached");
        std::size_t want = bad ? 0 : std::min(lim, sat.size());
        expect(t.s->Size() == want, aspect, what + ": result has " + S((long)t.s->Size()) + " records, expected " + S((long)want) + (bad ? " after a failure" : ""));
        if (bad) return;
        std::set<std::string> ids = idsOf(sat), got;
        if (vs[parent].keys.empty()) return;
        auto refs = t.s->GetSortedRecords(vs[parent].keys[rng.below(vs[parent].keys.size())].name);
        for (auto& ref : refs)
        {
            std::string id = ref.GetRecordUniqueId();
            expect(got.insert(id).second, aspect, what + ": result lists a record twice");
            MRec* m = byId(parent, id);
            expect(m && ids.count(id), aspect, what + ": result contains " + (m ? recStr(m) : id) + " which does not satisfy the request");
            t.mem.insert(m);
        }
        expect(got.size() == want, aspect, what + ": result lists " + S((long)got.size()) + " records, expected " + S((long)want));
        x.cnt(std::string("query_hits:") + (want == 0 ? "none" : want == sat.size() ? "all" : "limited"));
    }
    void Engine::opVQuery()
    {
        int v = anyVault(), t = anySet();
        if (t < 0) return;
        std::string nm = anyName(v);
        const MKey* key = vs[v].key(nm);
        int k = key && rng.chance(90) ? key->k : rng.pick(usedKinds);
        Cmp c = (Cmp)rng.below(6);
        int a = queryVal(k), b = queryVal(k);
        if (c == C_INT && a > b && rng.chance(85)) std::swap(a, b);
        if (c == C_INT && rng.chance(15)) b = a;
        bool ia = rng.chance(60), ib = rng.chance(60);
        MPred mp = anyPred(v);
        bool bad = !key || key->k != k;
        const bool nest = rng.chance(12);
        std::vector<MRec*> sat;
        if (!bad) for (auto* m : recsOf(v)) if (cmp(c, m->v.at(nm), a, b, ia, ib) && accepts(mp, *m)) sat.push_back(m);
        std::size_t lim = anyLimit(sat.size());
        std::string what = vname(v) + " Request" + cmpName[c] + " " + show(nm) + " " + kind(k).name + " " + show(kind(k).Str(a)) + (c == C_INT ? ".." + show(kind(k).Str(b)) + (ia ? "[" : "(") + (ib ? "]" : ")") : "") +
            " limit " + limS(lim) + predStr(mp) + " -> " + sname(t);
        x.t(what);
        lastCat = CAT_QUERY;
        Pred p;
        std::exception_ptr err;
        if (nest) p = nestPred(mp, v, nm, t, err);
        else if (mp.mode) p = realPred(mp);
        VaultOperationResult r = kind(k).Query(*vs[v].v, c, nm, a, b, ia, ib, *ss[t].s, lim, mp.mode ? &p : nullptr);
        if (err) std::rethrow_exception(err);
        if (!key) checkRes(r, false, RC::WrongKey, nm, kind(k).type, typeid(void), A_QUERY | A_VLOOK, what);
        else if (bad) checkRes(r, false, RC::WrongType, nm, kind(k).type, kind(key->k).type, A_QUERY | A_VLOOK, what);
        else checkRes(r, true, RC::Success, nm, kind(k).type, kind(k).type, A_QUERY | A_VLOOK, what);
        afterQuery(r, t, v, sat, lim, bad, A_QUERY | A_VLOOK, what);
    }
    void Engine::opSQuery()
    {
        int s = anySet(), t = anySet();
        if (s < 0) return;
        int v = ss[s].parent >= 0 ? ss[s].parent : anyVault();
        std::string nm = anyName(v);
        const MKey* key = vs[v].key(nm);
        int k = key && rng.chance(90) ? key->k : rng.pick(usedKinds);
        Cmp c = (Cmp)rng.below(6);
        int a = queryVal(k), b = queryVal(k);
        if (c == C_INT && a > b && rng.chance(85)) std::swap(a, b);
        bool ia = rng.chance(60), ib = rng.chance(60);
        MPred mp = anyPred(v);
        bool bad = !key || key->k != k;
        const bool nest = rng.chance(12);
        std::vector<MRec*> sat;
        if (!bad && ss[s].parent >= 0) for (auto* m : ss[s].mem) if (cmp(c, m->v.at(nm), a, b, ia, ib) && accepts(mp, *m)) sat.push_back(m);
        std::size_t lim = anyLimit(sat.size());
        std::string what = sname(s) + " Request" + cmpName[c] + " " + show(nm) + " " + kind(k).name + " " + show(kind(k).Str(a)) + (c == C_INT ? ".." + show(kind(k).Str(b)) + (ia ? "[" : "(") + (ib ? "]" : ")") : "") +
            " limit " + limS(lim) + predStr(mp) + " -> " + sname(t);
        x.t(what);
        lastCat = CAT_QUERY;
        Pred p;
        std::exception_ptr err;
        if (nest) p = nestPred(mp, v, nm, t, err, s);
        else if (mp.mode) p = realPred(mp);
        VaultOperationResult r = kind(k).Query(*ss[s].s, c, nm, a, b, ia, ib, *ss[t].s, lim, mp.mode ? &p : nullptr);
        if (err) std::rethrow_exception(err);
        if (ss[s].parent < 0) { checkRes(r, false, RC::ParentVaultNotValid, nm, kind(k).type, typeid(void), A_QUERY | A_SATT, what); return; }
        if (s == t) { checkRes(r, false, RC::SameVaultRecordSet, A_QUERY | A_SLOOK, what); expect(r.Key == nm, A_RESULT, what + ": wrong key reported"); return; }
        if (!key) checkRes(r, false, RC::WrongKey, nm, kind(k).type, typeid(void), A_QUERY | A_SLOOK, what);
        else if (bad) checkRes(r, false, RC::WrongType, nm, kind(k).type, kind(key->k).type, A_QUERY | A_SLOOK, what);
        else checkRes(r, true, RC::Success, nm, kind(k).type, kind(k).type, A_QUERY | A_SLOOK, what);
        afterQuery(r, t, v, sat, lim, bad, A_QUERY | A_SLOOK, what);
    }
    void Engine::opComplex()
    {
        if (ss.empty()) return;
        int t = anySet(), s = -1, v = anyVault();
        if (rng.chance(45)) { s = anySet(); if (ss[s].parent >= 0) v = ss[s].parent; }
        std::shared_ptr<MReq> m;
        std::unique_ptr<ReqNode> own;
        const ReqNode* node = nullptr;
        int q = -1;
        if (rng.chance(35))
        {
            q = (int)rng.below(qs.size());
            if (qs[q].n) { m = qs[q].m; node = qs[q].n.get(); }
        }
        if (!node)
        {
            q = -1;
            m = genTree(v, rng.range(0, 4), 6);
            if (rng.chance(4)) // a long chain
                for (int i = rng.range(5, 40); i > 0; --i)
                {
                    std::shared_ptr<MReq> c(new MReq());
                    c->leaf = false;
                    c->isAnd = rng.chance(40);
                    c->a = m;
                    c->b = genTree(v, 0, 0);
                    if (rng.chance(50)) std::swap(c->a, c->b);
                    m = c;
                }
            own = build(*m);
            node = own.get();
            if (rng.chance(30))
            {
                q = (int)rng.below(qs.size());
                qs[q].n = std::move(own);
                qs[q].m = m;
            }
        }
        std::string what = (s >= 0 ? sname(s) : vname(v)) + " Request " + (q >= 0 ? "Q" + S(q) + " " : "") + treeStr(*m) + " -> " + sname(t);
        x.t(what);
        lastCat = CAT_COMPLEX;
        if (s >= 0 && ss[s].parent < 0)
        {
            VaultOperationResult r = node->runSet(*ss[s].s, *ss[t].s);
            checkRes(r, false, RC::ParentVaultNotValid, A_COMPLEX | A_SATT, what);
            return;
        }
        if (s >= 0 && s == t)
        {
            VaultOperationResult r = node->runSet(*ss[s].s, *ss[t].s);
            checkRes(r, false, RC::SameVaultRecordSet, A_COMPLEX, what);
            return;
        }
        std::vector<const MReq*> bad;
        badLeaves(*m, v, bad);
        std::vector<MRec*> sat, all = s >= 0 ? members(ss[s]) : recsOf(v);
        if (bad.empty()) for (auto* r : all) if (evalTree(*m, *r)) sat.push_back(r);
        int times = rng.chance(10) ? 2 : 1;
        VaultOperationResult r;
        for (int i = 0; i < times; ++i) r = s >= 0 ? node->runSet(*ss[s].s, *ss[t].s) : node->runVault(*vs[v].v, *ss[t].s);
        if (bad.empty()) checkRes(r, true, RC::Success, A_COMPLEX, what);
        else
        {
            expect(!r.IsOperationSuccess, A_COMPLEX | A_RESULT, what + ": succeeded although an operand names a missing key or a wrong type");
            lastFailed = true;
            bool match = false;
            for (auto* l : bad)
            {
                const MKey* k = vs[v].key(l->key);
                if (r.ResultCode == (k ? RC::WrongType : RC::WrongKey) && r.Key == l->key && r.RequestedType == kind(l->k).type && (!k || r.SavedType == kind(k->k).type)) match = true;
            }
            expect(match, A_COMPLEX | A_RESULT, what + ": reported " + codeName(r.ResultCode) + " for key " + show(r.Key) + ", which is no failing operand");
            x.cnt("complex_bad");
        }
        x.cnt(bad.empty() ? (sat.empty() ? "complex_empty" : sat.size() == all.size() ? "complex_all" : "complex_some") : "complex_refused");
        afterQuery(r, t, v, sat, NPOS, !bad.empty(), A_COMPLEX, what);
    }
    void Engine::opReqOp()
    {
        int a = (int)rng.below(qs.size()), b = (int)rng.below(qs.size());
        int v = anyVault();
        lastCat = CAT_COMPLEX;
        int c = (int)rng.below(7);
        if (c == 0)
        {
            qs[a].m = genTree(v, rng.range(0, 3), 4);
            qs[a].n = build(*qs[a].m);
            x.t("Q" + S(a) + " = new " + treeStr(*qs[a].m));
        }
        else if (c == 1 && qs[b].n)
        {
            x.t("Q" + S(a) + " = copy Q" + S(b));
            std::unique_ptr<ReqNode> n = qs[b].n->clone();
            std::shared_ptr<MReq> m = qs[b].m;
            qs[a].n = std::move(n);
            qs[a].m = m;
        }
        else if (c == 2 && qs[b].n && a != b)
        {
            x.t("Q" + S(a) + " = move Q" + S(b));
            qs[a].n = qs[b].n->moveOut();
            qs[a].m = qs[b].m;
            qs[b].n.reset();
            qs[b].m.reset();
        }
        else if (c == 3 && qs[a].n && qs[b].n && qs[a].n->type() == qs[b].n->type())
        {
            x.t("Q" + S(a) + " := Q" + S(b));
            std::shared_ptr<MReq> m = qs[b].m;
            qs[a].n->assignFrom(*qs[b].n);
            qs[a].m = m;
        }
        else if (c == 4 && qs[b].n && a != b)
        {
            x.t("Q" + S(a) + " := default, := move Q" + S(b));
            std::unique_ptr<ReqNode> n = qs[b].n->defaultOf();
            n->moveFrom(*qs[b].n);
            qs[a].n = std::move(n);
            qs[a].m = qs[b].m;
            qs[b].n.reset();
            qs[b].m.reset();
        }
        else if (c == 5 && qs[a].n && qs[b].n)
        {
            std::function<int(const MReq&)> sz = [&](const MReq& m) -> int { return m.leaf ? 1 : sz(*m.a) + sz(*m.b); };
            if (sz(*qs[a].m) + sz(*qs[b].m) > 16) return;
            std::shared_ptr<MReq> m(new MReq());
            m->leaf = false;
            m->isAnd = rng.chance(50);
            m->a = qs[a].m;
            m->b = qs[b].m;
            std::unique_ptr<ReqNode> n = combine(m->isAnd, *qs[a].n, *qs[b].n);
            int d = (int)rng.below(qs.size());
            x.t("Q" + S(d) + " = Q" + S(a) + (m->isAnd ? " && " : " || ") + "Q" + S(b));
            qs[d].n = std::move(n);
            qs[d].m = m;
        }
        else if (c == 6)
        {
            x.t("Q" + S(a) + " destroyed");
            qs[a].n.reset();
            qs[a].m.reset();
        }
    }
    void Engine::opSort()
    {
        int v = anyVault(), s = -1;
        if (!ss.empty() && rng.chance(45)) { s = anySet(); if (ss[s].parent >= 0) v = ss[s].parent; }
        std::string nm = anyName(v);
        const MKey* key = vs[v].key(nm);
        std::vector<MRec*> all = s >= 0 ? members(ss[s]) : recsOf(v);
        bool rev = rng.chance(50);
        std::size_t lim = anyLimit(all.size());
        std::size_t stopAt = rng.chance(40) ? rng.below(all.size() + 2) : NPOS; // the visitor returns false on its stopAt-th call (0 based)
        const unsigned SO = A_SORT | (s >= 0 ? A_SITER : A_VITER);
        bool visit = rng.chance(50);
        if (!visit) stopAt = NPOS;
        const bool nest = visit && rng.chance(25);
        std::exception_ptr nestErr;
        std::string what = (s >= 0 ? sname(s) : vname(v)) + (visit ? " SortBy " : " GetSortedRecords ") + show(nm) + (rev ? " desc" : " asc") + " limit " + limS(lim) + (stopAt == NPOS ? "" : " stop at " + S((long)stopAt));
        x.t(what);
        lastCat = CAT_SORT;
        std::vector<std::string> got;
        std::vector<int> vals;
        auto see = [&](const VaultRecordRef& ref)
        {
            got.push_back(ref.GetRecordUniqueId());
            int o = key ? kind(key->k).def : 0;
            if (key)
            {
                VaultOperationResult r = kind(key->k).GetData(ref, nm, o);
                expect(r.IsOperationSuccess, SO, what + ": value of a visited record can not be read");
            }
            vals.push_back(o);
        };
        if (visit)
        {
            std::size_t calls = 0;
            std::string err;
            auto f = [&](const VaultRecordRef& ref) -> bool
            {
                try { see(ref); } catch (Violation& e) { err = e.what; } catch (Foreign&) {}
                if (nest && err.empty() && !nestErr && rng.chance(50))
                {
                    try { nested(v, ref, {nm}, s, -1); } catch (...) { nestErr = std::current_exception(); }
                }
                return calls++ != stopAt;
            };
            if (s >= 0) { if (lim == NPOS && !rev && rng.chance(50)) ss[s].s->SortBy(nm, f); else ss[s].s->SortBy(nm, f, rev, lim); }
            else { if (lim == NPOS && !rev && rng.chance(50)) vs[v].v->SortBy(nm, f); else vs[v].v->SortBy(nm, f, rev, lim); }
            expect(err.empty(), SO, err);
            if (nestErr) std::rethrow_exception(nestErr);
        }
        else
        {
            std::vector<VaultRecordRef> refs = s >= 0 ? ss[s].s->GetSortedRecords(nm, rev, lim) : vs[v].v->GetSortedRecords(nm, rev, lim);
            for (auto& r : refs) see(r);
        }
        std::size_t want = key && !(s >= 0 && ss[s].parent < 0) ? std::min(lim, all.size()) : 0;
        if (stopAt != NPOS) want = std::min(want, stopAt + 1);
        expect(got.size() == want, SO, what + ": visited " + S((long)got.size()) + " records, expected " + S((long)want));
        std::set<std::string> ids = idsOf(all), seen;
        std::vector<int> mv;
        for (std::size_t i = 0; i < got.size(); ++i)
        {
            expect(ids.count(got[i]), SO, what + ": visited a record that is not a member");
            expect(seen.insert(got[i]).second, SO, what + ": visited a record twice");
            MRec* m = byId(v, got[i]);
            expect(vals[i] == m->v.at(nm), SO | A_VVAL, what + ": visited record holds another value than stored");
            mv.push_back(m->v.at(nm));
        }
        std::vector<int> sorted;
        if (key) for (auto* m : all) sorted.push_back(m->v.at(nm));
        std::sort(sorted.begin(), sorted.end());
        if (rev) std::reverse(sorted.begin(), sorted.end());
        sorted.resize(want);
        expect(mv == sorted, SO, what + ": values are not in order or not the first ones");
    }

    // ---------------------------------------------------------------- set operations
    void Engine::opSAdd()
    {
        int s = anySet(), r = anyRef();
        if (s < 0 || r < 0) return;
        x.t(sname(s) + " AddRecord " + rname(r));
        lastCat = CAT_SETOP;
        MSet& t = ss[s];
        VaultOperationResult res = t.s->AddRecord(*rs[r].r);
        if (t.parent < 0) { checkRes(res, false, RC::ParentVaultNotValid, A_SETOP | A_SATT, "AddRecord"); return; }
        if (!rs[r].valid()) { checkRes(res, false, RC::DataRecordNotValid, A_SETOP, "AddRecord"); return; }
        if (rs[r].rec->vault != t.parent) { checkRes(res, false, RC::ParentVaultNotMatch, A_SETOP, "AddRecord"); return; }
        if (t.mem.count(rs[r].rec.get())) { checkRes(res, false, RC::RecordAlredyInSet, A_SETOP, "AddRecord"); return; }
        checkRes(res, true, RC::Success, A_SETOP, "AddRecord");
        t.mem.insert(rs[r].rec.get());
    }
    void Engine::opSRemRef()
    {
        int s = anySet(), r = anyRef();
        if (s < 0 || r < 0) return;
        x.t(sname(s) + " RemoveRecord " + rname(r));
        lastCat = CAT_SETOP;
        bool in = ss[s].parent >= 0 && rs[r].valid() && ss[s].mem.count(rs[r].rec.get());
        bool ok = ss[s].s->RemoveRecord(*rs[r].r);
        lastFailed = !in;
        expect(ok == in, A_SETOP | A_RESULT, std::string("set RemoveRecord(ref) returned ") + (ok ? "true" : "false"));
        if (in) ss[s].mem.erase(rs[r].rec.get());
    }
    void Engine::opSRemKey(bool many)
    {
        int s = anySet();
        if (s < 0) return;
        int v = ss[s].parent >= 0 ? ss[s].parent : anyVault();
        std::string nm = anyName(v);
        const MKey* key = vs[v].key(nm);
        int k = key && rng.chance(90) ? key->k : rng.pick(usedKinds);
        int val = queryVal(k);
        if (key && key->k == k && !ss[s].mem.empty() && rng.chance(60)) val = members(ss[s])[rng.below(ss[s].mem.size())]->v.at(nm);
        std::vector<MRec*> sat;
        if (key && key->k == k && ss[s].parent >= 0) for (auto* m : ss[s].mem) if (m->v.at(nm) == val) sat.push_back(m);
        std::size_t lim = many ? anyLimit(sat.size()) : 1;
        std::string what = sname(s) + (many ? " RemoveRecords " : " RemoveRecord ") + show(nm) + " " + kind(k).name + "==" + show(kind(k).Str(val)) + (many ? " limit " + limS(lim) : "");
        x.t(what);
        lastCat = CAT_SETOP;
        VaultOperationResult r = many ? kind(k).RemoveRecords(*ss[s].s, nm, val, lim) : kind(k).RemoveRecord(*ss[s].s, nm, val);
        if (ss[s].parent < 0) { checkRes(r, false, RC::ParentVaultNotValid, nm, kind(k).type, typeid(void), A_SETOP | A_SATT, what); return; }
        if (!key) { checkRes(r, false, RC::WrongKey, nm, kind(k).type, typeid(void), A_SETOP, what); return; }
        if (key->k != k) { checkRes(r, false, RC::WrongType, nm, kind(k).type, kind(key->k).type, A_SETOP, what); return; }
        if (sat.empty()) { checkRes(r, false, RC::WrongValue, nm, kind(k).type, kind(k).type, A_SETOP, what); return; }
        checkRes(r, true, RC::Success, nm, kind(k).type, kind(k).type, A_SETOP, what);
        std::size_t want = std::min(lim, sat.size());
        std::set<std::string> now;
        for (auto& ref : ss[s].s->GetSortedRecords(nm)) now.insert(ref.GetRecordUniqueId());
        std::vector<MRec*> gone;
        for (auto* m : sat) if (!now.count(m->id)) gone.push_back(m);
        expect(gone.size() == want, A_SETOP | A_QUERY | A_SITER, what + " removed " + S((long)gone.size()) + " records, expected " + S((long)want));
        for (auto* m : gone) ss[s].mem.erase(m);
    }
    void Engine::opSJoin()
    {
        int a = anySet(), b = anySet();
        if (a < 0) return;
        if (ss.size() > 1 && a == b && rng.chance(70)) b = (a + 1) % (int)ss.size();
        if (rng.chance(60)) b = peerSet(a);
        int c = (int)rng.below(3);
        static const char* const nm[] = {" Join ", " Exclude ", " Intersect "};
        std::string what = sname(a) + nm[c] + sname(b);
        x.t(what);
        lastCat = CAT_SETOP;
        VaultOperationResult r = c == 0 ? ss[a].s->Join(*ss[b].s) : c == 1 ? ss[a].s->Exclude(*ss[b].s) : ss[a].s->Intersect(*ss[b].s);
        if (ss[a].parent < 0) { checkRes(r, false, RC::ParentVaultNotValid, A_SETOP, what); return; }
        if (ss[b].parent < 0) { checkRes(r, false, RC::OtherParentVaultNotValid, A_SETOP, what); return; }
        if (ss[a].parent != ss[b].parent) { checkRes(r, false, RC::ParentVaultNotMatch, A_SETOP, what); return; }
        if (a == b) { checkRes(r, false, RC::SameVaultRecordSet, A_SETOP, what); return; }
        checkRes(r, true, RC::Success, A_SETOP, what);
        std::set<MRec*> n;
        if (c == 0) { n = ss[a].mem; n.insert(ss[b].mem.begin(), ss[b].mem.end()); }
        else for (auto* m : ss[a].mem) if ((ss[b].mem.count(m) != 0) == (c == 2)) n.insert(m);
        x.cnt(std::string("setop") + nm[c] + (n == ss[a].mem ? "unchanged" : n.empty() ? "empty" : "changed"));
        ss[a].mem = n;
    }
    void Engine::opSUnion()
    {
        int a = anySet(), b = anySet(), t = anySet();
        if (a < 0) return;
        if (ss.size() > 2 && rng.chance(80))
        {
            if (rng.chance(70)) b = peerSet(a);
            if (a == b) b = (a + 1) % (int)ss.size();
            while (t == a || t == b) t = (t + 1) % (int)ss.size();
        }
        bool un = rng.chance(50);
        std::string what = sname(t) + (un ? " = Union " : " = Intersection ") + sname(a) + " " + sname(b);
        x.t(what);
        lastCat = CAT_SETOP;
        VaultOperationResult r = un ? mvlt::Union(*ss[a].s, *ss[b].s, *ss[t].s) : mvlt::Intersection(*ss[a].s, *ss[b].s, *ss[t].s);
        if (a == b || a == t || b == t) { checkRes(r, false, RC::SameVaultRecordSet, A_SETOP, what); return; }
        if (ss[a].parent < 0) { checkRes(r, false, RC::ParentVaultNotValid, A_SETOP, what); return; }
        if (ss[b].parent < 0) { checkRes(r, false, RC::OtherParentVaultNotValid, A_SETOP, what); return; }
        if (ss[a].parent != ss[b].parent) { checkRes(r, false, RC::ParentVaultNotMatch, A_SETOP, what); return; }
        checkRes(r, true, RC::Success, A_SETOP, what);
        ss[t].parent = ss[a].parent;
        ss[t].mem.clear();
        std::size_t na = ss[a].mem.size(), nb = ss[b].mem.size();
        x.cnt(std::string(un ? "union " : "intersection ") + (na == 0 || nb == 0 ? "with an empty set" : na < nb ? "of a smaller set" : na > nb ? "of a larger set" : "of sets of one size"));
        for (auto* m : ss[a].mem) if (un || ss[b].mem.count(m)) ss[t].mem.insert(m);
        if (un) ss[t].mem.insert(ss[b].mem.begin(), ss[b].mem.end());
    }
    void Engine::opSClear()
    {
        int s = anySet();
        if (s < 0) return;
        x.t(sname(s) + " Clear");
        lastCat = CAT_SETOP;
        ss[s].s->Clear();
        ss[s].mem.clear();
    }
    void Engine::opSReset()
    {
        int s = anySet();
        if (s < 0) return;
        x.t(sname(s) + " Reset");
        lastCat = CAT_SETOP;
        ss[s].s->Reset();
        ss[s].mem.clear();
        ss[s].parent = -1;
    }
    void Engine::opSCopy(bool assign, bool move)
    {
        int from = anySet(), to = anySet();
        if (from < 0) return;
        if (!assign && from == to) return;
        x.t(sname(to) + (assign ? " = " : " (ctor) ") + (move ? "move " : "copy ") + sname(from));
        lastCat = CAT_SCOPY;
        hadCopy = true;
        if (assign)
        {
            VaultRecordSet& d = *ss[to].s;
            VaultRecordSet& f = *ss[from].s;
            if (move) d = std::move(f); else d = f;
        }
        else
        {
            std::unique_ptr<VaultRecordSet> n(move ? new VaultRecordSet(std::move(*ss[from].s)) : new VaultRecordSet(*ss[from].s));
            ss[to].s = std::move(n);
        }
        if (from == to) return;
        ss[to].mem = ss[from].mem;
        ss[to].parent = ss[from].parent;
        if (move) { ss[from].mem.clear(); ss[from].parent = -1; }
    }
    void Engine::opSDestroy()
    {
        int s = anySet();
        if (s < 0) return;
        x.t("destroy " + sname(s));
        lastCat = CAT_DESTROY;
        ss[s].s.reset(new VaultRecordSet());
        ss[s].mem.clear();
        ss[s].parent = -1;
    }

    // ---------------------------------------------------------------- reference operations
    void Engine::opSetData()
    {
        int ri = anyRef();
        if (ri < 0) return;
        MRef& m = rs[ri];
        int v = m.valid() ? m.rec->vault : anyVault();
        std::string nm = anyName(v);
        if (rng.chance(50)) if (const MKey* kk = anyKey(v)) nm = kk->name;
        const MKey* key = vs[v].key(nm);
        int k = key && rng.chance(92) ? key->k : rng.pick(usedKinds);
        int val = poolVal(k);
        if (key && key->k == k && m.valid() && rng.chance(10)) val = m.rec->v.at(nm);
        std::string what = rname(ri) + " SetData " + show(nm) + " " + kind(k).name + " = " + show(kind(k).Str(val));
        x.t(what);
        lastCat = CAT_RECORD;
        VaultOperationResult r = kind(k).SetData(*m.r, nm, val);
        if (!m.valid()) { checkRes(r, false, RC::DataRecordNotValid, nm, kind(k).type, typeid(void), A_REF, what); return; }
        if (!key) { checkRes(r, false, RC::WrongKey, nm, kind(k).type, typeid(void), 0, what); return; }
        if (key->k != k) { checkRes(r, false, RC::WrongType, nm, kind(k).type, kind(key->k).type, 0, what); return; }
        if (key->uniq && uniqClash(v, nm, val, m.rec.get())) { checkRes(r, false, RC::UniqueKeyValueAlredyInSet, nm, kind(k).type, kind(k).type, A_UNIQ, what); return; }
        checkRes(r, true, RC::Success, nm, kind(k).type, kind(k).type, key->uniq ? A_UNIQ : 0, what);
        m.rec->v[nm] = val;
    }
    void Engine::opSetMulti()
    {
        int ri = anyRef();
        if (ri < 0) return;
        MRef& m = rs[ri];
        int v = m.valid() ? m.rec->vault : anyVault();
        std::vector<std::pair<std::string, VaultParamInput>> params;
        struct P { std::string nm; int k, val; };
        std::vector<P> ps;
        int n = rng.range(0, 5);
        std::string tr;
        for (int i = 0; i < n; ++i)
        {
            const MKey* kk = anyKey(v);
            std::string nm = kk && rng.chance(92) ? kk->name : anyName(v);
            const MKey* key = vs[v].key(nm);
            int k = key && rng.chance(93) ? key->k : rng.pick(usedKinds);
            int val = poolVal(k);
            ps.push_back(P{nm, k, val});
            params.emplace_back(nm, kind(k).Param(val));
            tr += " " + show(nm, 10) + ":" + kind(k).name + "=" + show(kind(k).Str(val), 12);
        }
        std::string what = rname(ri) + " SetData{" + tr + "}";
        x.t(what);
        lastCat = CAT_RECORD;
        VaultOperationResult r = m.r->SetData(params);
        if (!m.valid())
        {
            if (ps.empty()) checkRes(r, false, RC::DataRecordNotValid, A_REF, what);
            else checkRes(r, false, RC::DataRecordNotValid, ps[0].nm, kind(ps[0].k).type, typeid(void), A_REF, what);
            return;
        }
        for (auto& p : ps)
        {
            const MKey* key = vs[v].key(p.nm);
            if (!key) { checkRes(r, false, RC::WrongKey, p.nm, kind(p.k).type, typeid(void), 0, what); return; }
            if (key->k != p.k) { checkRes(r, false, RC::WrongType, p.nm, kind(p.k).type, kind(key->k).type, 0, what); return; }
            if (key->uniq && uniqClash(v, p.nm, p.val, m.rec.get())) { checkRes(r, false, RC::UniqueKeyValueAlredyInSet, p.nm, kind(p.k).type, kind(p.k).type, A_UNIQ, what); return; }
            m.rec->v[p.nm] = p.val;
        }
        expect(r.IsOperationSuccess, A_RESULT | A_EFFECT, what + ": failed with " + codeName(r.ResultCode));
        if (!ps.empty()) checkRes(r, true, RC::Success, ps.back().nm, kind(ps.back().k).type, kind(ps.back().k).type, 0, what);
    }
    void Engine::opGetData()
    {
        int ri = anyRef();
        if (ri < 0) return;
        MRef& m = rs[ri];
        int v = m.valid() ? m.rec->vault : anyVault();
        std::string nm = anyName(v);
        const MKey* key = vs[v].key(nm);
        int k = key && rng.chance(60) ? key->k : rng.pick(usedKinds);
        int sent = queryVal(k), out = sent;
        std::string what = rname(ri) + " GetData " + show(nm) + " " + kind(k).name;
        x.t(what);
        lastCat = CAT_REF;
        VaultOperationResult r = kind(k).GetData(*m.r, nm, out);
        bool ok = false;
        if (!m.valid()) checkRes(r, false, RC::DataRecordNotValid, nm, kind(k).type, typeid(void), A_REF, what);
        else if (!key) checkRes(r, false, RC::WrongKey, nm, kind(k).type, typeid(void), A_REF, what);
        else if (key->k != k) checkRes(r, false, RC::WrongType, nm, kind(k).type, kind(key->k).type, A_REF, what);
        else { checkRes(r, true, RC::Success, nm, kind(k).type, kind(k).type, A_REF, what); ok = true; }
        int want = ok ? m.rec->v.at(nm) : sent;
        expect(out == want, A_REF | A_VVAL | A_OUT, what + ": destination is " + (out < 0 ? "unknown" : show(kind(k).Str(out))) + ", expected " + show(kind(k).Str(want)));
        std::string str = "untouched";
        r = m.r->GetDataAsString(nm, str);
        if (!m.valid()) checkRes(r, false, RC::DataRecordNotValid, A_REF, "GetDataAsString");
        else if (!key) checkRes(r, false, RC::WrongKey, A_REF, "GetDataAsString");
        else
        {
            checkRes(r, true, RC::Success, A_REF, "GetDataAsString");
            expect(str == kind(key->k).Str(m.rec->v.at(nm)), A_REF | A_TEXT | A_VVAL, "GetDataAsString returned " + show(str) + ", expected " + show(kind(key->k).Str(m.rec->v.at(nm))));
            return;
        }
        expect(str == "untouched", A_REF | A_OUT, "failed GetDataAsString changed its output");
    }
    void Engine::opRefCopy()
    {
        int a = anyRef(), b = anyRef();
        if (a < 0) return;
        bool ctor = rng.chance(40);
        x.t(rname(a) + (ctor ? " (ctor) copy " : " = copy ") + rname(b));
        lastCat = CAT_REF;
        if (ctor)
        {
            std::unique_ptr<VaultRecordRef> n(new VaultRecordRef(*rs[b].r));
            rs[a].r = std::move(n);
        }
        else { VaultRecordRef& d = *rs[a].r; const VaultRecordRef& s = *rs[b].r; d = s; }
        rs[a].rec = rs[b].rec;
    }
    void Engine::opRefMove()
    {
        int a = anyRef(), b = anyRef();
        if (a < 0) return;
        bool ctor = rng.chance(40) && a != b;
        x.t(rname(a) + (ctor ? " (ctor) move " : " = move ") + rname(b));
        lastCat = CAT_REF;
        if (ctor)
        {
            std::unique_ptr<VaultRecordRef> n(new VaultRecordRef(std::move(*rs[b].r)));
            rs[a].r = std::move(n);
        }
        else { VaultRecordRef& d = *rs[a].r; VaultRecordRef& s = *rs[b].r; d = std::move(s); }
        if (a == b) return;
        rs[a].rec = rs[b].rec;
        rs[b].rec.reset();
        expect(!rs[b].r->IsValid(), A_REF, "moved-from reference is still valid");
    }
    void Engine::opRefReset()
    {
        int a = anyRef();
        if (a < 0) return;
        x.t(rname(a) + " Reset");
        lastCat = CAT_REF;
        rs[a].r->Reset();
        rs[a].rec.reset();
    }
    void Engine::opRefDestroy()
    {
        int a = anyRef();
        if (a < 0) return;
        x.t("destroy " + rname(a));
        lastCat = CAT_REF;
        rs[a].r.reset(new VaultRecordRef());
        rs[a].rec.reset();
    }

    // ---------------------------------------------------------------- monitors
    template <class V>
    void Engine::auditView(const V& view, int v, const std::vector<MRec*>& recs, bool isSet, bool full, const std::string& nm)
    {
        const unsigned LK = isSet ? A_SLOOK : A_VLOOK, IT = isSet ? A_SITER : A_VITER;
        const MVault& mv = vs[v];
        std::set<std::string> ids = idsOf(recs);
        std::vector<const MKey*> keys;
        for (auto& k : mv.keys) keys.push_back(&k);
        if (!full && keys.size() > 2)
        {
            std::size_t a = rng.below(keys.size());
            std::vector<const MKey*> some = {keys[a], keys[(a + 1) % keys.size()]};
            keys = some;
        }
        for (const MKey* k : keys)
        {
            const unsigned U = k->uniq ? A_UNIQ : 0u;
            bool rev = rng.chance(30);
            std::vector<VaultRecordRef> refs = view.GetSortedRecords(k->name, rev);
            std::set<std::string> got;
            int last = rev ? INT_MAX : INT_MIN;
            for (auto& ref : refs)
            {
                std::string id = ref.GetRecordUniqueId();
                expect(got.insert(id).second, IT | U, nm + ": record " + id + " is listed twice under " + show(k->name));
                MRec* m = byId(v, id);
                expect(m && ids.count(id), IT | U, nm + ": " + (m ? "record " + recStr(m) : "unknown record " + id) + " is listed under " + show(k->name) + " but is no member");
                int val = m->v.at(k->name);
                expect(rev ? val <= last : val >= last, IT | A_SORT | U, nm + ": sorted list of " + show(k->name) + " is out of order at record " + recStr(m));
                last = val;
                int o = kind(k->k).def;
                VaultOperationResult r = kind(k->k).GetData(ref, k->name, o);
                expect(r.IsOperationSuccess && o == val, A_VVAL | A_REF | U, nm + ": record " + recStr(m) + " holds " + (o < 0 ? "an unknown value" : show(kind(k->k).Str(o))) + " under " + show(k->name));
                ++x.events;
            }
            expect(got.size() == recs.size(), IT | U, nm + ": " + S((long)got.size()) + " of " + S((long)recs.size()) + " records are listed under " + show(k->name));
            // look every present value up, and some others
            std::map<int, std::set<std::string>> byVal;
            for (auto* m : recs) byVal[m->v.at(k->name)].insert(m->id);
            std::vector<int> probe;
            for (auto& p : byVal) if (full || byVal.size() <= 4 || rng.chance(30)) probe.push_back(p.first);
            probe.push_back(queryVal(k->k));
            probe.push_back(kind(k->k).def);
            for (int val : probe)
            {
                std::set<std::string> want;
                auto it = byVal.find(val);
                if (it != byVal.end()) want = it->second;
                std::vector<VaultRecordRef> out;
                VaultOperationResult r = kind(k->k).GetRecords(view, k->name, val, out, NPOS);
                std::set<std::string> g;
                for (auto& ref : out) g.insert(ref.GetRecordUniqueId());
                expect(r.IsOperationSuccess == !want.empty() && g == want && out.size() == g.size(), LK | U, nm + ": GetRecords " + show(k->name) + "==" + show(kind(k->k).Str(val)) + " returned " + joinIds(g) + " expected " + joinIds(want));
                VaultRecordRef one;
                r = kind(k->k).GetRecord(view, k->name, val, one);
                expect(r.IsOperationSuccess == !want.empty() && (want.empty() ? !one.IsValid() : want.count(one.GetRecordUniqueId()) == 1), LK | U, nm + ": GetRecord " + show(k->name) + "==" + show(kind(k->k).Str(val)) + " returned " + one.GetRecordUniqueId());
                if (k->uniq) expect(want.size() <= 1, A_UNIQ, "model error: duplicate unique value");
                x.events += 2;
            }
            if (full && !probe.empty())
            {
                // ordered index: records not below / above a value
                int val = rng.pick(probe);
                VaultRecordSet tmp;
                Cmp c = (Cmp)rng.below(5);
                kind(k->k).Query(view, c, k->name, val, val, false, false, tmp, NPOS, nullptr);
                std::set<std::string> want, g;
                for (auto* m : recs) if (cmp(c, m->v.at(k->name), val, val, false, false)) want.insert(m->id);
                for (auto& ref : tmp.GetSortedRecords(k->name)) g.insert(ref.GetRecordUniqueId());
                expect(g == want && tmp.Size() == want.size(), LK | A_QUERY | U, nm + ": query " + show(k->name) + cmpName[c] + show(kind(k->k).Str(val)) + " returned " + joinIds(g) + " expected " + joinIds(want));
                ++x.events;
            }
        }
    }
    void Engine::auditVault(int v, bool full)
    {
        MVault& m = vs[v];
        if (!m.v) return;
        const std::string nm = vname(v);
        expect(m.v->Size() == m.recs.size(), A_VSIZE, nm + ": Size is " + S((long)m.v->Size()) + ", expected " + S((long)m.recs.size()));
        std::vector<std::string> want, uq;
        for (auto& k : m.keys) { want.push_back(k.name); if (k.uniq) uq.push_back(k.name); }
        std::vector<std::string> got = m.v->GetKeys();
        expect(got == want, A_VKEYS, nm + ": GetKeys differs from the insertion order of the keys");
        std::vector<std::string> gu = m.v->GetUniqueKeys();
        std::sort(gu.begin(), gu.end());
        std::sort(uq.begin(), uq.end());
        expect(gu == uq, A_VKEYS | A_UNIQ, nm + ": GetUniqueKeys is wrong");
        if (m.errsKnown)
        {
            auto e = m.v->GetErrorsInLastReadedFile();
            bool same = e.size() == m.errs.size();
            for (std::size_t i = 0; same && i < e.size(); ++i) same = e[i].first == m.errs[i].first && m.errs[i].second.count(e[i].second);
            expect(same, A_COPY | A_RESULT, nm + ": reports " + S((long)e.size()) + " errors of the last load, expected " + S((long)m.errs.size()));
        }
        for (auto& n : names)
        {
            const MKey* k = m.key(n);
            expect(m.v->IsKeyExist(n) == (k != nullptr), A_VKEYS, nm + ": IsKeyExist(" + show(n) + ") is wrong");
            std::type_index ti = typeid(Engine);
            bool has = m.v->GetKeyType(n, ti);
            expect(has == (k != nullptr) && ti == (k ? kind(k->k).type : std::type_index(typeid(Engine))), A_VKEYS, nm + ": GetKeyType(" + show(n) + ") is wrong");
            if (k && (full || rng.chance(40)))
            {
                int o = (int)rng.below(kind(k->k).n), sent = o;
                VaultOperationResult r = kind(k->k).GetKeyValue(*m.v, n, o);
                if (k->uniq) expect(!r.IsOperationSuccess && r.ResultCode == RC::UniqueKey && o == sent, A_VDEF | A_UNIQ, nm + ": GetKeyValue of unique key " + show(n) + " was not refused");
                else expect(r.IsOperationSuccess && o == k->def, A_VDEF, nm + ": default of " + show(n) + " is " + (o < 0 ? "unknown" : show(kind(k->k).Str(o))) + ", expected " + show(kind(k->k).Str(k->def)));
            }
            if (rng.chance(15))
            {
                // the default of a missing key, or under a wrong type
                int kk = k ? (k->k + 1 + (int)rng.below(KINDS - 1)) % KINDS : rng.pick(usedKinds);
                int o = poolVal(kk), sent = o;
                VaultOperationResult r = kind(kk).GetKeyValue(*m.v, n, o);
                expect(!r.IsOperationSuccess && r.ResultCode == (k ? RC::WrongType : RC::WrongKey) && o == sent, A_RESULT | A_VDEF, nm + ": GetKeyValue of " + show(n) + " as " + kind(kk).name + " returned " + codeName(r.ResultCode));
                expect(r.Key == n && r.RequestedType == kind(kk).type && r.SavedType == (k ? kind(k->k).type : std::type_index(typeid(void))), A_RESULT, nm + ": GetKeyValue of " + show(n) + " as " + kind(kk).name + " reports a wrong key or type");
            }
            x.events += 2;
        }
        auditView(*m.v, v, recsOf(v), false, full, nm);
        if (full && rng.chance(40))
        {
            // textual dump lists every record once with its values
            std::multiset<std::string> a, b;
            for (auto& rec : m.v->ToStrings())
            {
                std::string t;
                for (auto& kv : rec) t += kv.first + "\x1f" + kv.second + "\x1e";
                a.insert(t);
            }
            for (auto& r : m.recs)
            {
                std::string t;
                for (auto& k : m.keys) t += k.name + "\x1f" + kind(k.k).Str(r->v.at(k.name)) + "\x1e";
                b.insert(t);
            }
            if (a != b)
            {
                std::string d;
                for (auto& t : a) d += show(t) + " ";
                d += " expected ";
                for (auto& t : b) d += show(t) + " ";
                D(A_VITER | A_VVAL | A_TEXT, nm + ": ToStrings differs from the stored values: " + d);
            }
        }
        if (full && rng.chance(x.prop == "P01" ? 10 : 4)) auditFile(*m.v, v, recsOf(v), false, nm);
    }
    // a saved file shows the keys and every record once
    template <class V> void Engine::auditFile(const V& view, int v, const std::vector<MRec*>& recs, bool isSet, const std::string& nm)
    {
        const std::vector<MKey>& keys = vs[v].keys;
        if (keys.empty() || x.scratch.empty()) return;
        const unsigned asp = A_TEXT | (isSet ? A_SITER : A_VITER | A_VVAL);
        std::string path = x.scratch + "/save.csv";
        expect(view.SaveToFile(path), asp, nm + ": SaveToFile failed");
        std::string f;
        FILE* h = fopen(path.c_str(), "rb");
        if (!h) throw Foreign{"no saved file"};
        char b[4096];
        for (std::size_t n; (n = fread(b, 1, sizeof b, h)) > 0;) f.append(b, n);
        fclose(h);
        std::multiset<std::string> got, want;
        std::string head, row, first;
        bool quoted = false, began = false;
        std::size_t line = 0;
        for (std::size_t i = 0; i < f.size(); ++i)
        {
            char c = f[i];
            if (quoted) { if (c != '"') row += c; else if (i + 1 < f.size() && f[i + 1] == '"') { row += '"'; ++i; } else quoted = false; continue; }
            if (c == '"') { quoted = began = true; continue; }
            if (c == ',') { row += "\x1e"; began = true; continue; }
            if (c == '\r' && i + 1 < f.size() && f[i + 1] == '\n')
            {
                ++i;
                row += "\x1e";
                if (!began) row += "(empty line)";
                if (line++ == 0) head = row; else got.insert(row);
                row.clear();
                began = false;
                continue;
            }
            row += c;
            began = true;
        }
        for (auto& k : keys) first += k.name + "\x1e";
        for (auto* r : recs)
        {
            std::string t;
            for (auto& k : keys) t += kind(k.k).Str(r->v.at(k.name)) + "\x1e";
            want.insert(t);
        }
        expect(row.empty() && !quoted && line == recs.size() + 1 && head == first && got == want, asp, nm + ": the saved file differs from the stored data: " + show(f, 400));
        x.cnt("saved_files");
        ++x.events;
    }
    void Engine::auditSet(int s, bool full)
    {
        MSet& m = ss[s];
        const std::string nm = sname(s);
        x.cnt(m.parent < 0 ? "audited set: detached" : m.mem.empty() ? "audited set: empty" : m.mem.size() == vs[m.parent].recs.size() ? "audited set: whole vault" : "audited set: part of the vault");
        expect(m.s->GetIsParentVaultValid() == (m.parent >= 0), A_SATT, nm + ": parent validity is " + (m.s->GetIsParentVaultValid() ? "true" : "false"));
        const std::string pid = m.s->GetParentVaultUniqueId();
        expect((pid == "null") == (m.parent < 0), A_SATT, nm + ": parent id is " + pid);
        for (auto& q : ss)
            if (m.parent >= 0 && q.parent >= 0)
                expect((q.s->GetParentVaultUniqueId() == pid) == (q.parent == m.parent), A_SATT, nm + ": parent ids of two sets are " + (q.parent == m.parent ? "different for one vault" : "the same for different vaults"));
        expect(m.s->Size() == m.mem.size(), A_SMEM, nm + ": Size is " + S((long)m.s->Size()) + ", expected " + S((long)m.mem.size()));
        for (auto& r : rs)
        {
            bool in = m.parent >= 0 && r.valid() && m.mem.count(r.rec.get());
            expect(m.s->CheckRecord(*r.r) == in, A_SMEM, nm + ": CheckRecord is " + (in ? "false for a member" : "true for a non-member"));
        }
        std::vector<std::string> want, uq;
        if (m.parent >= 0) for (auto& k : vs[m.parent].keys) { want.push_back(k.name); if (k.uniq) uq.push_back(k.name); }
        expect(m.s->GetKeys() == want, A_SKEYS, nm + ": GetKeys differs from its vault");
        std::vector<std::string> gu = m.s->GetUniqueKeys();
        std::sort(gu.begin(), gu.end());
        std::sort(uq.begin(), uq.end());
        expect(gu == uq, A_SKEYS | A_UNIQ, nm + ": GetUniqueKeys differs from its vault");
        for (auto& n : names)
        {
            const MKey* k = m.parent >= 0 ? vs[m.parent].key(n) : nullptr;
            expect(m.s->IsKeyExist(n) == (k != nullptr), A_SKEYS, nm + ": IsKeyExist(" + show(n) + ") is wrong");
            std::type_index ti = typeid(Engine);
            bool has = m.s->GetKeyType(n, ti);
            expect(has == (k != nullptr) && ti == (k ? kind(k->k).type : std::type_index(typeid(Engine))), A_SKEYS, nm + ": GetKeyType(" + show(n) + ") is wrong");
            if (k && !k->uniq && (full || rng.chance(40)))
            {
                int d = (int)rng.below(kind(k->k).n);
                VaultOperationResult r = kind(k->k).GetKeyValue(*m.s, n, d);
                expect(r.IsOperationSuccess && d == k->def, A_SKEYS | A_VDEF, nm + ": default of " + show(n) + " differs from its vault");
            }
            if (!k && m.parent < 0 && rng.chance(20))
            {
                int kk = rng.pick(usedKinds), d = poolVal(kk), sent = d;
                VaultOperationResult r = kind(kk).GetKeyValue(*m.s, n, d);
                expect(!r.IsOperationSuccess && r.ResultCode == RC::ParentVaultNotValid && d == sent, A_SATT | A_RESULT, nm + ": GetKeyValue on a detached set is not refused");
            }
            x.events += 2;
        }
        if (m.parent >= 0)
        {
            if (!vs[m.parent].keys.empty())
            {
                std::set<std::string> got, ids = idsOf(members(m));
                for (auto& ref : m.s->GetSortedRecords(vs[m.parent].keys[0].name)) got.insert(ref.GetRecordUniqueId());
                expect(got == ids, A_SMEM | A_SITER, nm + ": members are " + joinIds(got) + ", expected " + joinIds(ids));
            }
            auditView(*m.s, m.parent, members(m), true, full, nm);
            if (full && rng.chance(x.prop == "P09" ? 6 : 2)) auditFile(*m.s, m.parent, members(m), true, nm);
        }
        for (std::size_t j = 0; j < ss.size(); ++j)
        {
            if (!full && !rng.chance(30)) continue;
            bool eq = m.parent == ss[j].parent && m.mem == ss[j].mem;
            expect((*m.s == *ss[j].s) == eq && (*m.s != *ss[j].s) == !eq, A_SEQ, nm + (eq ? " is not equal to " : " is equal to ") + sname((int)j));
        }
    }
    void Engine::auditRef(int i)
    {
        MRef& m = rs[i];
        bool val = m.valid();
        x.cnt(val ? "audited reference: live" : m.rec ? "audited reference: of an erased record" : "audited reference: empty");
        expect(m.r->IsValid() == val, A_REF, rname(i) + ": IsValid is " + (val ? "false for a live record" : "true for an erased or missing record"));
        std::string id = m.r->GetRecordUniqueId();
        expect(id == (val ? m.rec->id : "null"), A_REF | A_REFEQ, rname(i) + ": record id is " + id + ", expected " + (val ? m.rec->id : "null"));
        for (std::size_t j = 0; j < rs.size(); ++j)
        {
            bool eq = val ? rs[j].valid() && rs[j].rec == m.rec : !rs[j].valid();
            expect((*m.r == *rs[j].r) == eq && (*m.r != *rs[j].r) == !eq, A_REFEQ | A_REF, rname(i) + (eq ? " is not equal to " : " is equal to ") + rname((int)j));
        }
        std::vector<std::string> want;
        if (val) for (auto& k : vs[m.rec->vault].keys) want.push_back(k.name);
        expect(m.r->GetKeys() == want, A_REF, rname(i) + ": GetKeys is wrong");
        if (val)
        {
            for (auto& k : vs[m.rec->vault].keys)
            {
                int o = kind(k.k).def;
                VaultOperationResult r = kind(k.k).GetData(*m.r, k.name, o);
                expect(r.IsOperationSuccess && o == m.rec->v.at(k.name), A_REF | A_VVAL, rname(i) + ": value under " + show(k.name) + " is wrong");
                expect(m.r->IsKeyExist(k.name), A_REF, rname(i) + ": IsKeyExist(" + show(k.name) + ") is false");
                if (rng.chance(10))
                {
                    std::string t = "before";
                    r = m.r->GetDataAsString(k.name, t);
                    expect(r.IsOperationSuccess && t == kind(k.k).Str(m.rec->v.at(k.name)), A_REF | A_VVAL | A_TEXT, rname(i) + ": text under " + show(k.name) + " is " + show(t));
                }
            }
            for (auto& n : names)
            {
                if (vs[m.rec->vault].key(n) || rng.chance(50)) continue;
                // nothing is left of removed keys
                std::string t = "before";
                expect(!m.r->IsKeyExist(n), A_REF | A_VVAL | A_VKEYS, rname(i) + ": IsKeyExist(" + show(n) + ") is true for a key the vault does not have");
                VaultOperationResult r = m.r->GetDataAsString(n, t);
                expect(!r.IsOperationSuccess && r.ResultCode == RC::WrongKey && t == "before", A_REF | A_RESULT | A_VVAL | A_VKEYS, rname(i) + ": text can be read under " + show(n) + ", which is no key of the vault");
            }
            if (rng.chance(10))
            {
                std::vector<std::pair<std::string, std::string>> w;
                for (auto& k : vs[m.rec->vault].keys) w.emplace_back(k.name, kind(k.k).Str(m.rec->v.at(k.name)));
                expect(m.r->ToStrings() == w, A_REF | A_TEXT, rname(i) + ": ToStrings is wrong");
            }
        }
        else
        {
            expect(!m.r->IsKeyExist(rng.pick(names)), A_REF, rname(i) + ": IsKeyExist is true on an invalid reference");
            expect(m.r->ToStrings().empty(), A_REF | A_TEXT, rname(i) + ": ToStrings of an invalid reference is not empty");
            if (rng.chance(10)) expect(m.r->ToJson(false) == "{}", A_REF | A_TEXT, rname(i) + ": ToJson of an invalid reference is not empty");
        }
        x.events += 3;
    }
    void Engine::auditAll(bool full)
    {
        for (int v = 0; v < (int)vs.size(); ++v) auditVault(v, full);
        for (int s = 0; s < (int)ss.size(); ++s) auditSet(s, full);
        for (int r = 0; r < (int)rs.size(); ++r) auditRef(r);
        // distinct states actually seen by the monitors
        uint64_t h = 7;
        for (auto& v : vs)
        {
            uint64_t hv = v.v ? 3 : 1;
            for (auto& k : v.keys) hv = mix(hv, mix(hashStr(k.name), k.k * 4 + k.uniq));
            uint64_t sum = 0;
            for (auto& r : v.recs) { uint64_t hr = 5; for (auto& kv : r->v) hr = mix(hr, hashStr(kv.first) + kv.second); sum += hr; }
            h = mix(h, hv + sum);
        }
        for (auto& s : ss) h = mix(h, s.parent * 1000 + s.mem.size());
        for (auto& r : rs) h = mix(h, r.rec ? (r.valid() ? 2 : 1) : 0);
        bool nontrivial = false;
        for (auto& v : vs) if (!v.recs.empty() && !v.keys.empty()) nontrivial = true;
        if (nontrivial) { x.nontrivial = true; if (x.states.size() < 400000) x.states.insert(h); }
        x.cnt("audits");
    }

    // ---------------------------------------------------------------- driver
    void Engine::op(int o)
    {
        lastFailed = false;
        lastCat = CAT_NONE;
        x.cnt(std::string("op:") + opName[o]);
        ++x.events;
        switch (o)
        {
        case O_NEWVAULT: opNewVault(); break;
        case O_ADDKEY: opAddKey(); break;
        case O_ADDUNIQ: opAddUniq(); break;
        case O_ADDUNIQFN: opAddUniqFn(); break;
        case O_UPDATEKEY: opUpdateKey(); break;
        case O_REMOVEKEY: opRemoveKey(); break;
        case O_CREATE: opCreate(); break;
        case O_GETREC: opGetRec(); break;
        case O_GETRECS: opGetRecs(); break;
        case O_ERASEREF: opEraseRef(); break;
        case O_ERASEKEY: opEraseKey(false); break;
        case O_ERASEKEYS: opEraseKey(true); break;
        case O_DROPDATA: opDropData(); break;
        case O_DROPVAULT: opDropVault(); break;
        case O_VCOPYC: opVCopy(false, false); break;
        case O_VCOPYA: opVCopy(true, false); break;
        case O_VMOVEC: opVCopy(false, true); break;
        case O_VMOVEA: opVCopy(true, true); break;
        case O_VDESTROY: opVDestroy(); break;
        case O_VQUERY: opVQuery(); break;
        case O_SQUERY: opSQuery(); break;
        case O_COMPLEX: opComplex(); break;
        case O_REQOP: opReqOp(); break;
        case O_SORT: opSort(); break;
        case O_SADD: opSAdd(); break;
        case O_SREMREF: opSRemRef(); break;
        case O_SREMKEY: opSRemKey(false); break;
        case O_SREMKEYS: opSRemKey(true); break;
        case O_SJOIN: opSJoin(); break;
        case O_SUNION: opSUnion(); break;
        case O_SCLEAR: opSClear(); break;
        case O_SRESET: opSReset(); break;
        case O_SCOPYC: opSCopy(false, false); break;
        case O_SCOPYA: opSCopy(true, false); break;
        case O_SMOVEC: opSCopy(false, true); break;
        case O_SMOVEA: opSCopy(true, true); break;
        case O_SDESTROY: opSDestroy(); break;
        case O_SETDATA: opSetData(); break;
        case O_SETMULTI: opSetMulti(); break;
        case O_GETDATA: opGetData(); break;
        case O_REFCOPY: opRefCopy(); break;
        case O_REFMOVE: opRefMove(); break;
        case O_REFRESET: opRefReset(); break;
        case O_REFDESTROY: opRefDestroy(); break;
        case O_LOADFILE: opLoadFile(); break;
        case O_STORM: opStorm(); break;
        }
    }
    void Engine::teardown()
    {
        // every handle goes, in a random order; the survivors must stay coherent
        x.t("teardown");
        std::vector<int> order;
        for (int i = 0; i < (int)(vs.size() + ss.size() + rs.size() + qs.size()); ++i) order.push_back(i);
        for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[rng.below(i)]);
        lastFailed = false;
        for (int i : order)
        {
            int j = i;
            lastCat = CAT_DESTROY;
            if (j < (int)vs.size())
            {
                if (!vs[j].v) continue;
                x.t("destroy " + vname(j));
                vs[j].v.reset();
                detachSets(j);
                while (!vs[j].recs.empty()) kill(vs[j].recs.back().get());
                vs[j].keys.clear();
            }
            else if ((j -= (int)vs.size()) < (int)ss.size())
            {
                x.t("destroy " + sname(j));
                ss[j].s.reset();
                ss[j].s.reset(new VaultRecordSet());
                ss[j].mem.clear();
                ss[j].parent = -1;
            }
            else if ((j -= (int)ss.size()) < (int)rs.size())
            {
                x.t("destroy " + rname(j));
                rs[j].r.reset(new VaultRecordRef());
                rs[j].rec.reset();
            }
            else
            {
                j -= (int)rs.size();
                qs[j].n.reset();
                qs[j].m.reset();
            }
            if (rng.chance(30)) auditAll(false);
        }
        auditAll(false);
        ss.clear();
        rs.clear();
        vs.clear();
        qs.clear();
    }
    void Engine::run(int ops)
    {
        opNewVault();
        int total = 0;
        for (int i = 0; i < O_COUNT; ++i) total += pf.w[i];
        // a first burst of records makes the histories interesting early
        int burst = (int)rng.below(std::min<std::size_t>(maxRecs, 12) + 1);
        for (int i = 0; i < burst; ++i) op(O_CREATE);
        if (maxRecs > 35) for (std::size_t i = 0; i < maxRecs; ++i) op(O_CREATE);
        for (int i = 0; i < ops; ++i)
        {
            int c = (int)rng.below(total), o = 0;
            while (c >= pf.w[o]) c -= pf.w[o++];
            if (alivePct && rng.chance(alivePct)) { keepAlive(); lastFailed = false; }
            op(o);
            Cat cat = lastCat;
            bool heavy = maxRecs > 35;
            bool full = rng.chance(heavy ? 3 : pf.auditPct) || (lastFailed && x.prop == "P06" && !heavy && rng.chance(60));
            if (full) auditAll(true);
            else if (!heavy || rng.chance(15))
            {
                // a cheap look at a random part of the world
                if (cat == CAT_SCHEMA || cat == CAT_VCOPY || cat == CAT_SCOPY || cat == CAT_DROP || rng.chance(25)) auditAll(false);
                else
                {
                    for (int v = 0; v < (int)vs.size(); ++v) if (vs[v].v && rng.chance(40)) auditVault(v, false);
                    if (!ss.empty()) auditSet(anySet(), rng.chance(30));
                    if (!rs.empty()) auditRef(anyRef());
                }
            }
        }
        lastCat = CAT_NONE;
        lastFailed = false;
        auditAll(true);
        if (rng.chance(90)) teardown();
    }

    Profile profileFor(const std::string& prop, Rng& rng)
    {
        Profile p;
        memset(&p, 0, sizeof p);
        int* w = p.w;
        auto set = [&](std::initializer_list<std::pair<int, int>> l) { for (auto& e : l) w[e.first] = e.second; };
        set({{O_NEWVAULT, 2}, {O_ADDKEY, 3}, {O_ADDUNIQ, 1}, {O_ADDUNIQFN, 1}, {O_UPDATEKEY, 2}, {O_REMOVEKEY, 2}, {O_CREATE, 14}, {O_GETREC, 4}, {O_GETRECS, 3}, {O_ERASEREF, 3}, {O_ERASEKEY, 3},
            {O_ERASEKEYS, 3}, {O_DROPDATA, 1}, {O_DROPVAULT, 1}, {O_VCOPYC, 1}, {O_VCOPYA, 1}, {O_VMOVEC, 1}, {O_VMOVEA, 1}, {O_VDESTROY, 1}, {O_VQUERY, 6}, {O_SQUERY, 4}, {O_COMPLEX, 4}, {O_REQOP, 2},
            {O_SORT, 3}, {O_SADD, 5}, {O_SREMREF, 2}, {O_SREMKEY, 2}, {O_SREMKEYS, 1}, {O_SJOIN, 3}, {O_SUNION, 2}, {O_SCLEAR, 1}, {O_SRESET, 1}, {O_SCOPYC, 1}, {O_SCOPYA, 1}, {O_SMOVEC, 1}, {O_SMOVEA, 1},
            {O_SDESTROY, 1}, {O_SETDATA, 14}, {O_SETMULTI, 5}, {O_GETDATA, 2}, {O_REFCOPY, 2}, {O_REFMOVE, 1}, {O_REFRESET, 1}, {O_REFDESTROY, 1}, {O_LOADFILE, 1}, {O_STORM, rng.chance(20)}});
        p.nv = rng.range(1, 3);
        p.ns = rng.range(1, 5);
        p.nr = rng.range(2, 7);
        p.auditPct = 20;
        auto scale = [&](std::initializer_list<int> l, int f) { for (int o : l) w[o] *= f; };
        if (prop == "P01")
        {
            scale({O_CREATE, O_SETDATA, O_SETMULTI, O_ERASEREF, O_ERASEKEY, O_ERASEKEYS}, 3);
            for (int o : {O_VCOPYC, O_VCOPYA, O_VMOVEC, O_VMOVEA, O_SCOPYC, O_SCOPYA, O_SMOVEC, O_SMOVEA, O_SUNION, O_SJOIN}) if (rng.chance(70)) w[o] = 0;
            p.nv = rng.chance(75) ? 1 : 2;
            p.ns = rng.chance(40) ? 0 : rng.range(1, 3);
        }
        else if (prop == "P02") { scale({O_VQUERY, O_SQUERY, O_GETRECS, O_GETREC, O_ERASEKEYS, O_SREMKEYS}, 6); p.auditPct = 4; p.nv = rng.range(1, 2); }
        else if (prop == "P03") { scale({O_COMPLEX, O_REQOP}, 14); p.auditPct = 3; p.nv = rng.range(1, 3); p.ns = rng.range(1, 4); }
        else if (prop == "P04") { scale({O_SORT}, 16); scale({O_SETDATA, O_ERASEKEYS, O_SETMULTI}, 2); p.auditPct = 3; p.nv = 1; }
        else if (prop == "P05")
        {
            scale({O_ADDUNIQ, O_ADDUNIQFN}, 3);
            scale({O_CREATE, O_SETDATA, O_SETMULTI, O_ERASEREF, O_ERASEKEY}, 2);
            w[O_LOADFILE] = 4;
            p.nv = rng.range(1, 2);
        }
        else if (prop == "P06") { scale({O_ADDUNIQ, O_ADDUNIQFN, O_UPDATEKEY, O_SETMULTI}, 3); p.auditPct = 8; }
        else if (prop == "P07") { scale({O_ADDKEY, O_ADDUNIQ, O_ADDUNIQFN, O_UPDATEKEY, O_REMOVEKEY}, 5); scale({O_CREATE, O_VQUERY}, 2); w[O_DROPVAULT] = rng.chance(30); }
        else if (prop == "P08") { scale({O_REFCOPY, O_REFMOVE, O_REFRESET, O_REFDESTROY, O_GETREC, O_GETDATA, O_ERASEREF, O_ERASEKEY, O_VMOVEC, O_VMOVEA, O_VDESTROY, O_DROPDATA}, 3); p.nr = rng.range(4, 9); p.nv = rng.range(1, 3); }
        else if (prop == "P09") { scale({O_VQUERY, O_SADD, O_SQUERY}, 2); scale({O_SETDATA, O_ERASEREF, O_ERASEKEY, O_ADDKEY, O_REMOVEKEY, O_VMOVEC, O_VMOVEA}, 2); p.ns = rng.range(2, 6); p.nv = rng.range(1, 2); }
        else if (prop == "P10") { scale({O_SADD, O_SREMREF, O_SREMKEY, O_SREMKEYS, O_SJOIN, O_SUNION, O_SCLEAR, O_SRESET}, 4); p.ns = rng.range(3, 6); p.nv = rng.range(1, 3); w[O_VDESTROY] = 1; }
        else if (prop == "P11")
        {
            scale({O_VCOPYC, O_VCOPYA, O_VMOVEC, O_VMOVEA, O_SCOPYC, O_SCOPYA, O_SMOVEC, O_SMOVEA}, 5);
            scale({O_NEWVAULT}, 3);
            p.nv = rng.range(2, 4);
            p.ns = rng.range(2, 5);
        }
        else if (prop == "P12") { scale({O_VCOPYC, O_VCOPYA, O_VMOVEC, O_VMOVEA, O_SCOPYC, O_SCOPYA, O_SMOVEC, O_SMOVEA, O_VDESTROY, O_SDESTROY, O_REFDESTROY, O_DROPVAULT, O_REQOP, O_COMPLEX}, 3); scale({O_NEWVAULT}, 4); p.nv = rng.range(1, 4); p.ns = rng.range(1, 6); p.auditPct = 6; }
        // some cases concentrate on a few operations only
        if (rng.chance(25))
            for (int i = 0; i < O_COUNT; ++i)
                if (i != O_CREATE && i != O_NEWVAULT && i != O_ADDKEY && i != O_SETDATA && rng.chance(45)) w[i] = 0;
        return p;
    }
}
