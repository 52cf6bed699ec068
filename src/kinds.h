// Type-erased access to the library's templated interface: a value is (kind, index into a sorted table).
#pragma once
#include <memory>
#include "common.h"
#include "MVault.h"

namespace vf
{
    using mvlt::Vault;
    using mvlt::VaultRecordRef;
    using mvlt::VaultRecordSet;
    using mvlt::VaultOperationResult;
    using mvlt::VaultOperationResultCode;
    using mvlt::VaultParamInput;
    using mvlt::VaultRequestType;
    typedef std::function<bool(const VaultRecordRef&)> Pred;
    const std::size_t NPOS = (std::size_t)-1;

    enum Cmp { C_GT, C_GE, C_EQ, C_LE, C_LT, C_INT };
    extern const char* const cmpName[];

    // A user type that owns memory and knows whether it is alive.
    struct Tracked
    {
        int* p;
        static long live();
        static void reset();
        static std::vector<std::string>& errors();
        Tracked();
        explicit Tracked(int v);
        Tracked(const Tracked& o);
        Tracked(Tracked&& o) noexcept;
        Tracked& operator=(const Tracked& o);
        Tracked& operator=(Tracked&& o) noexcept;
        ~Tracked();
        int v() const;
        bool operator==(const Tracked& o) const { return v() == o.v(); }
        bool operator<(const Tracked& o) const { return v() < o.v(); }
        bool operator>(const Tracked& o) const { return v() > o.v(); }
    };

}

namespace std
{
    template <> struct hash<vf::Tracked>
    {
        std::size_t operator()(const vf::Tracked& t) const noexcept { return std::hash<int>()(t.v() / 3); } // collisions on purpose
    };
}

namespace mvlt
{
    template <> std::string ToString(const vf::Tracked& t) noexcept;
    template <> bool FromString(const std::string& s, vf::Tracked& t) noexcept;
}

namespace vf
{
    // request expression node
    struct ReqNode
    {
        virtual ~ReqNode() {}
        virtual VaultRequestType type() const = 0;
        virtual VaultOperationResult runVault(const Vault& v, VaultRecordSet& s) const = 0;
        virtual VaultOperationResult runSet(const VaultRecordSet& v, VaultRecordSet& s) const = 0;
        virtual std::unique_ptr<ReqNode> clone() const = 0;                 // copy construction
        virtual std::unique_ptr<ReqNode> moveOut() = 0;                     // move construction
        virtual void assignFrom(const ReqNode& o) = 0;                      // copy assignment (same type)
        virtual void moveFrom(ReqNode& o) = 0;                              // move assignment (same type)
        virtual std::unique_ptr<ReqNode> defaultOf() const = 0;             // default constructed of the same type
    };
    template <VaultRequestType T>
    struct ReqNodeT : ReqNode
    {
        mvlt::VaultRequest<T> r;
        ReqNodeT() {}
        explicit ReqNodeT(const mvlt::VaultRequest<T>& o) : r(o) {}
        explicit ReqNodeT(mvlt::VaultRequest<T>&& o) : r(std::move(o)) {}
        VaultRequestType type() const override { return T; }
        VaultOperationResult runVault(const Vault& v, VaultRecordSet& s) const override { return v.Request(r, s); }
        VaultOperationResult runSet(const VaultRecordSet& v, VaultRecordSet& s) const override { return v.Request(r, s); }
        std::unique_ptr<ReqNode> clone() const override { return std::unique_ptr<ReqNode>(new ReqNodeT<T>(r)); }
        std::unique_ptr<ReqNode> moveOut() override { return std::unique_ptr<ReqNode>(new ReqNodeT<T>(std::move(r))); }
        void assignFrom(const ReqNode& o) override { r = static_cast<const ReqNodeT<T>&>(o).r; }
        void moveFrom(ReqNode& o) override { r = std::move(static_cast<ReqNodeT<T>&>(o).r); }
        std::unique_ptr<ReqNode> defaultOf() const override { return std::unique_ptr<ReqNode>(new ReqNodeT<T>()); }
    };
    std::unique_ptr<ReqNode> combine(bool isAnd, const ReqNode& a, const ReqNode& b);

    typedef std::function<int(std::size_t counter, const VaultRecordRef& ref)> UFn; // -> value index

    struct KindOps
    {
        virtual ~KindOps() {}
        const char* name = "";
        int n = 0;      // number of values
        int def = 0;    // index of T{}
        std::type_index type = typeid(void);

        virtual bool AddKey(Vault& v, const std::string& k, int i) const = 0;
        virtual VaultOperationResult AddUniqueKey(Vault& v, const std::string& k) const = 0;
        virtual VaultOperationResult AddUniqueKeyFn(Vault& v, const std::string& k, const UFn& f) const = 0;
        virtual VaultOperationResult UpdateKey(Vault& v, const std::string& k, int i) const = 0;
        // out: in = index the destination starts with, out = index it ends with (-1 = unknown value)
        virtual VaultOperationResult GetKeyValue(const Vault& v, const std::string& k, int& out) const = 0;
        virtual VaultOperationResult GetKeyValue(const VaultRecordSet& v, const std::string& k, int& out) const = 0;
        virtual VaultParamInput Param(int i) const = 0;
        virtual VaultOperationResult GetRecord(const Vault& v, const std::string& k, int i, VaultRecordRef& r) const = 0;
        virtual VaultOperationResult GetRecord(const VaultRecordSet& v, const std::string& k, int i, VaultRecordRef& r) const = 0;
        virtual VaultOperationResult GetRecords(const Vault& v, const std::string& k, int i, std::vector<VaultRecordRef>& r, std::size_t lim) const = 0;
        virtual VaultOperationResult GetRecords(const VaultRecordSet& v, const std::string& k, int i, std::vector<VaultRecordRef>& r, std::size_t lim) const = 0;
        // pred == nullptr: default predicate; lim == NPOS and pred == nullptr: default arguments
        virtual VaultOperationResult Query(const Vault& v, Cmp c, const std::string& k, int a, int b, bool ia, bool ib, VaultRecordSet& s, std::size_t lim, const Pred* pred) const = 0;
        virtual VaultOperationResult Query(const VaultRecordSet& v, Cmp c, const std::string& k, int a, int b, bool ia, bool ib, VaultRecordSet& s, std::size_t lim, const Pred* pred) const = 0;
        virtual VaultOperationResult EraseRecord(Vault& v, const std::string& k, int i) const = 0;
        virtual VaultOperationResult EraseRecords(Vault& v, const std::string& k, int i, std::size_t lim) const = 0;
        virtual VaultOperationResult RemoveRecord(VaultRecordSet& v, const std::string& k, int i) const = 0;
        virtual VaultOperationResult RemoveRecords(VaultRecordSet& v, const std::string& k, int i, std::size_t lim) const = 0;
        virtual VaultOperationResult SetData(VaultRecordRef& r, const std::string& k, int i) const = 0;
        virtual VaultOperationResult GetData(const VaultRecordRef& r, const std::string& k, int& out) const = 0;
        virtual std::unique_ptr<ReqNode> Leaf(Cmp c, const std::string& k, int i, const Pred* pred) const = 0;
        virtual std::string Str(int i) const = 0;
        // text of the value for a file; false when it has no exact one
        virtual bool FileText(int i, std::string& s) const = 0;
    };

    const int KINDS = 9;
    enum { K_INT, K_STR, K_DBL, K_BOOL, K_I64, K_U16, K_FLT, K_TRK, K_U64 };
    const KindOps& kind(int k);

    template <class T> const std::vector<T>& table();

    template <class T>
    struct KindOpsT : KindOps
    {
        const std::vector<T>& tab;
        KindOpsT(const char* nm) : tab(table<T>())
        {
            name = nm;
            n = (int)tab.size();
            type = typeid(T);
            def = find(T{});
        }
        int find(const T& x) const
        {
            for (int i = 0; i < (int)tab.size(); ++i) if (tab[i] == x) return i;
            return -1;
        }
        bool AddKey(Vault& v, const std::string& k, int i) const override { return v.AddKey<T>(k, tab[i]); }
        VaultOperationResult AddUniqueKey(Vault& v, const std::string& k) const override { return v.AddUniqueKey<T>(k); }
        VaultOperationResult AddUniqueKeyFn(Vault& v, const std::string& k, const UFn& f) const override
        {
            const std::vector<T>& tb = tab;
            return v.AddUniqueKey<T>(k, [f, &tb](const std::size_t& c, const VaultRecordRef& r) -> T { return tb[f(c, r)]; });
        }
        VaultOperationResult UpdateKey(Vault& v, const std::string& k, int i) const override { return v.UpdateKey<T>(k, tab[i]); }
        template <class V> VaultOperationResult gkv(const V& v, const std::string& k, int& out) const
        {
            T x = tab[out];
            VaultOperationResult r = v.GetKeyValue(k, x);
            out = find(x);
            return r;
        }
        VaultOperationResult GetKeyValue(const Vault& v, const std::string& k, int& out) const override { return gkv(v, k, out); }
        VaultOperationResult GetKeyValue(const VaultRecordSet& v, const std::string& k, int& out) const override { return gkv(v, k, out); }
        VaultParamInput Param(int i) const override { T x = tab[i]; return VaultParamInput(x); }
        VaultOperationResult GetRecord(const Vault& v, const std::string& k, int i, VaultRecordRef& r) const override { return v.GetRecord<T>(k, tab[i], r); }
        VaultOperationResult GetRecord(const VaultRecordSet& v, const std::string& k, int i, VaultRecordRef& r) const override { return v.GetRecord<T>(k, tab[i], r); }
        VaultOperationResult GetRecords(const Vault& v, const std::string& k, int i, std::vector<VaultRecordRef>& r, std::size_t lim) const override
        {
            return lim == NPOS ? v.GetRecords<T>(k, tab[i], r) : v.GetRecords<T>(k, tab[i], r, lim);
        }
        VaultOperationResult GetRecords(const VaultRecordSet& v, const std::string& k, int i, std::vector<VaultRecordRef>& r, std::size_t lim) const override
        {
            return lim == NPOS ? v.GetRecords<T>(k, tab[i], r) : v.GetRecords<T>(k, tab[i], r, lim);
        }
        template <class V>
        VaultOperationResult q(const V& v, Cmp c, const std::string& k, int a, int b, bool ia, bool ib, VaultRecordSet& s, std::size_t lim, const Pred* p) const
        {
            const T& x = tab[a];
            const T& y = tab[b];
            if (p == nullptr && lim == NPOS)
                switch (c)
                {
                case C_GT: return v.RequestGreater(k, x, s);
                case C_GE: return v.RequestGreaterOrEqual(k, x, s);
                case C_EQ: return v.RequestEqual(k, x, s);
                case C_LE: return v.RequestLessOrEqual(k, x, s);
                case C_LT: return v.RequestLess(k, x, s);
                case C_INT: return v.RequestInterval(k, x, y, s, ia, ib);
                }
            if (p == nullptr)
                switch (c)
                {
                case C_GT: return v.RequestGreater(k, x, s, lim);
                case C_GE: return v.RequestGreaterOrEqual(k, x, s, lim);
                case C_EQ: return v.RequestEqual(k, x, s, lim);
                case C_LE: return v.RequestLessOrEqual(k, x, s, lim);
                case C_LT: return v.RequestLess(k, x, s, lim);
                case C_INT: return v.RequestInterval(k, x, y, s, ia, ib, lim);
                }
            switch (c)
            {
            case C_GT: return v.RequestGreater(k, x, s, lim, *p);
            case C_GE: return v.RequestGreaterOrEqual(k, x, s, lim, *p);
            case C_EQ: return v.RequestEqual(k, x, s, lim, *p);
            case C_LE: return v.RequestLessOrEqual(k, x, s, lim, *p);
            case C_LT: return v.RequestLess(k, x, s, lim, *p);
            default: return v.RequestInterval(k, x, y, s, ia, ib, lim, *p);
            }
        }
        VaultOperationResult Query(const Vault& v, Cmp c, const std::string& k, int a, int b, bool ia, bool ib, VaultRecordSet& s, std::size_t lim, const Pred* p) const override
        { return q(v, c, k, a, b, ia, ib, s, lim, p); }
        VaultOperationResult Query(const VaultRecordSet& v, Cmp c, const std::string& k, int a, int b, bool ia, bool ib, VaultRecordSet& s, std::size_t lim, const Pred* p) const override
        { return q(v, c, k, a, b, ia, ib, s, lim, p); }
        VaultOperationResult EraseRecord(Vault& v, const std::string& k, int i) const override { return v.EraseRecord<T>(k, tab[i]); }
        VaultOperationResult EraseRecords(Vault& v, const std::string& k, int i, std::size_t lim) const override
        { return lim == NPOS ? v.EraseRecords<T>(k, tab[i]) : v.EraseRecords<T>(k, tab[i], lim); }
        VaultOperationResult RemoveRecord(VaultRecordSet& v, const std::string& k, int i) const override { return v.RemoveRecord<T>(k, tab[i]); }
        VaultOperationResult RemoveRecords(VaultRecordSet& v, const std::string& k, int i, std::size_t lim) const override
        { return lim == NPOS ? v.RemoveRecords<T>(k, tab[i]) : v.RemoveRecords<T>(k, tab[i], lim); }
        VaultOperationResult SetData(VaultRecordRef& r, const std::string& k, int i) const override { return r.SetData<T>(k, tab[i]); }
        VaultOperationResult GetData(const VaultRecordRef& r, const std::string& k, int& out) const override
        {
            T x = tab[out];
            VaultOperationResult res = r.GetData(k, x);
            out = find(x);
            return res;
        }
        std::unique_ptr<ReqNode> Leaf(Cmp c, const std::string& k, int i, const Pred* p) const override
        {
            const T& x = tab[i];
            ReqNode* n = nullptr;
            switch (c)
            {
            case C_GT: n = p ? new ReqNodeT<VaultRequestType::Greater>(mvlt::Greater(k, x, *p)) : new ReqNodeT<VaultRequestType::Greater>(mvlt::Greater(k, x)); break;
            case C_GE: n = p ? new ReqNodeT<VaultRequestType::GreaterOrEqual>(mvlt::GreaterOrEqual(k, x, *p)) : new ReqNodeT<VaultRequestType::GreaterOrEqual>(mvlt::GreaterOrEqual(k, x)); break;
            case C_EQ: n = p ? new ReqNodeT<VaultRequestType::Equal>(mvlt::Equal(k, x, *p)) : new ReqNodeT<VaultRequestType::Equal>(mvlt::Equal(k, x)); break;
            case C_LE: n = p ? new ReqNodeT<VaultRequestType::LessOrEqual>(mvlt::LessOrEqual(k, x, *p)) : new ReqNodeT<VaultRequestType::LessOrEqual>(mvlt::LessOrEqual(k, x)); break;
            default: n = p ? new ReqNodeT<VaultRequestType::Less>(mvlt::Less(k, x, *p)) : new ReqNodeT<VaultRequestType::Less>(mvlt::Less(k, x)); break;
            }
            return std::unique_ptr<ReqNode>(n);
        }
        std::string Str(int i) const override { return mvlt::ToString(T(tab[i])); }
        bool FileText(int i, std::string& s) const override
        {
            T x = tab[i];
            if constexpr (std::is_same<T, std::string>::value) s = x;
            else if constexpr (std::is_same<T, bool>::value) s = x ? "true" : "false";
            else if constexpr (std::is_same<T, Tracked>::value) s = "T" + std::to_string(x.v());
            else if constexpr (std::is_floating_point<T>::value)
            {
                if (!(x > T(-1e6) && x < T(1e6))) return false;
                s = std::to_string(x);
                return (T)strtod(s.c_str(), nullptr) == x;
            }
            else s = std::to_string(x);
            return true;
        }
    };
}

