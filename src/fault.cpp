// File fault monitor (P24): saves and loads with failing devices, limits, paths and injected I/O errors.
#include "tytext.h"
#include <cerrno>
#include <csignal>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>
using namespace vf;

// ---------------------------------------------------------------- injected I/O behaviour on one file (by inode)
static struct
{
    bool armed = false;
    dev_t dev = 0;
    ino_t ino = 0;
    int mode = 0;          // 1 error at offset, 2 short transfers, 3 interrupted calls
    long at = 0, done = 0; // bytes
    int err = EIO;
    long fired = 0, calls = 0;
    uint64_t salt = 0;
} inj;

static bool isTarget(int fd)
{
    if (!inj.armed) return false;
    struct stat st;
    return fstat(fd, &st) == 0 && st.st_dev == inj.dev && st.st_ino == inj.ino;
}
// how many bytes the call may move; -1: fail with errno
static long allowed(size_t n)
{
    ++inj.calls;
    inj.salt = mix(inj.salt, inj.calls);
    if (inj.mode == 1)
    {
        if (inj.done >= inj.at) { ++inj.fired; errno = inj.err; return -1; }
        return (long)n > inj.at - inj.done ? inj.at - inj.done : (long)n;
    }
    if (inj.mode == 2) { ++inj.fired; return n < 2 ? (long)n : (long)(1 + inj.salt % (n < 5000 ? n : 5000)); }
    if (inj.mode == 3 && inj.salt % 3 == 0) { ++inj.fired; errno = EINTR; return -1; }
    return (long)n;
}
extern "C" ssize_t read(int fd, void* p, size_t n)
{
    if (isTarget(fd) && n)
    {
        long a = allowed(n);
        if (a < 0) return -1;
        ssize_t r = syscall(SYS_read, fd, p, (size_t)a);
        if (r > 0) inj.done += r;
        return r;
    }
    return syscall(SYS_read, fd, p, n);
}
extern "C" ssize_t write(int fd, const void* p, size_t n)
{
    if (isTarget(fd) && n)
    {
        long a = allowed(n);
        if (a < 0) return -1;
        ssize_t r = syscall(SYS_write, fd, p, (size_t)a);
        if (r > 0) inj.done += r;
        return r;
    }
    return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (isTarget(fd))
    {
        size_t total = 0;
        for (int i = 0; i < c; ++i) total += v[i].iov_len;
        long a = total ? allowed(total) : 0;
        if (a < 0) return -1;
        std::string all;
        for (int i = 0; i < c; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len);
        ssize_t r = syscall(SYS_write, fd, all.data(), (size_t)a);
        if (r > 0) inj.done += r;
        return r;
    }
    return syscall(SYS_writev, fd, v, c);
}
static void arm(const std::string& path, int mode, long at, int err, uint64_t salt)
{
    struct stat st;
    if (stat(path.c_str(), &st) != 0) throw Foreign{"stat"};
    inj = {};
    inj.dev = st.st_dev;
    inj.ino = st.st_ino;
    inj.mode = mode;
    inj.at = at;
    inj.err = err;
    inj.salt = salt;
    inj.armed = true;
}

struct Limit // lowers a soft resource limit for one call
{
    int what;
    struct rlimit old;
    Limit(int w, rlim_t v) : what(w) { getrlimit((__rlimit_resource)w, &old); struct rlimit n = old; n.rlim_cur = v; setrlimit((__rlimit_resource)w, &n); }
    ~Limit() { setrlimit((__rlimit_resource)what, &old); }
};

typedef std::vector<std::string> Row;
static std::multiset<std::string> vaultRows(Ctx& x, const Vault& v, const std::vector<std::string>& keys)
{
    std::multiset<std::string> out;
    for (auto& ref : v.GetSortedRecords(keys[0]))
    {
        Row row;
        for (auto& k : keys) { std::string s; if (!ref.GetDataAsString(k, s).IsOperationSuccess) x.fail("a record can not be read under " + show(k)); row.push_back(s); }
        out.insert(packRow(row));
    }
    for (auto& k : keys) if (v.GetSortedRecords(k).size() != v.Size()) x.fail("key " + show(k) + " lists other records than the vault has");
    return out;
}
static void stillUsable(Ctx& x, Vault& v, const std::vector<std::string>& keys)
{
    std::size_t n = v.Size();
    VaultRecordRef ref;
    if (!v.CreateRecord(ref, {{"id", 1000000007}}).IsOperationSuccess) x.fail("a record can not be created afterwards");
    VaultRecordRef found;
    if (!v.GetRecord("id", 1000000007, found).IsOperationSuccess || found != ref) x.fail("a record created afterwards is not found");
    if (!v.EraseRecord(found) || v.Size() != n) x.fail("a record created afterwards can not be erased");
    (void)keys;
}

int main(int argc, char** argv)
{
    Ctx x;
    x.parse(argc, argv);
    muteStdout(x.verbose);
    signal(SIGXFSZ, SIG_IGN);
    const std::vector<std::string> keys = {"id", "text", "num"};
    return x.run([&](long c, Rng& r)
    {
        Vault v;
        v.AddKey("id", -1);
        v.AddKey("text", std::string("default"));
        v.AddKey("num", 0.5);
        int n = r.chance(15) ? 0 : r.chance(25) ? r.range(100, 800) : r.range(1, 30);
        std::multiset<std::string> model;
        std::vector<Row> rows;
        for (int i = 0; i < n; ++i)
        {
            Row row = {std::to_string(i), r.chance(8) ? std::string(r.below(9000), 'y') : rndText(r), fmtOf((double)r.below(1000) / 4)};
            rows.push_back(row);
        }
        const std::string good = x.scratch + "/good.csv", file = x.scratch + "/f.csv";
        std::string text;
        const std::string eol = r.chance(50) ? "\r\n" : "\n";
        const bool head = r.chance(70);
        auto quote = [](const std::string& s) { std::string q = "\""; for (char ch : s) { if (ch == '"') q += '"'; q += ch; } return q + "\""; };
        if (head) text = "id,text,num" + eol;
        for (auto& row : rows) text += row[0] + "," + quote(row[1]) + "," + row[2] + eol;
        if (text.size() && r.chance(30)) text.resize(text.size() - eol.size());
        std::multiset<std::string> fileRows;
        for (auto& row : rows) fileRows.insert(packRow(row));

        if (c % 2 == 0)
        {
            // ---------------------------------------------------- save
            for (auto& row : rows) { if (!v.CreateRecord({{"id", atoi(row[0].c_str())}, {"text", row[1]}, {"num", strtod(row[2].c_str(), nullptr)}}).IsOperationSuccess) throw Foreign{"create"}; }
            VaultRecordSet set;
            bool fromSet = r.chance(40);
            if (fromSet) v.RequestGreaterOrEqual("id", -5, set);
            const bool saveKey = r.chance(70);
            auto save = [&](const std::string& p) { return fromSet ? set.SaveToFile(p, {}, ",", saveKey) : v.SaveToFile(p, {}, ",", saveKey); };
            unlink(file.c_str());
            if (!save(file)) x.fail("saving to an ordinary file returned false");
            const std::string full = readAll(file);
            auto complete = [&](const std::string& data)
            {
                auto rr = refCsv(data, ",");
                std::multiset<std::string> got;
                for (std::size_t i = saveKey ? 1 : 0; i < rr.size(); ++i) got.insert(packRow(rr[i]));
                return got == fileRows && data.size() == full.size() && (!saveKey || (!rr.empty() && rr[0] == keys));
            };
            if (!complete(full)) x.fail("a save that returned true did not write the complete data");
            int mode = (int)r.below(9);
            std::string how;
            bool ok = false, mustFail = true, mayCheck = false;
            static const char* const nm[] = {"missing directory", "directory", "/dev/full", "file size limit", "no free descriptor", "write error", "short writes", "interrupted writes", "overwrite"};
            how = nm[mode];
            long at = 0;
            switch (mode)
            {
            case 0: ok = save(x.scratch + "/none/f.csv"); break;
            case 1: ok = save(x.scratch); break;
            case 2: ok = save("/dev/full"); mustFail = !full.empty(); break;
            case 3:
            {
                at = r.chance(50) ? (long)r.below(full.size() + 3) : std::max(0L, (long)full.size() - (long)r.below(4));
                mustFail = at < (long)full.size();
                Limit l(RLIMIT_FSIZE, at);
                ok = save(file);
                mayCheck = true;
                break;
            }
            case 4: { Limit l(RLIMIT_NOFILE, 3); ok = save(file); break; }
            case 5:
            {
                at = r.chance(50) ? (long)r.below(full.size() + 3) : std::max(0L, (long)full.size() - (long)r.below(4));
                arm(file, 1, at, r.chance(50) ? ENOSPC : EIO, r.next());
                ok = save(file);
                mustFail = inj.fired > 0;
                inj.armed = false;
                mayCheck = true;
                break;
            }
            case 6: case 7:
                arm(file, mode == 6 ? 2 : 3, 0, EIO, r.next());
                ok = save(file);
                mustFail = false;
                inj.armed = false;
                mayCheck = true;
                break;
            default:
                Ctx::writeAll(file, std::string(full.size() + r.below(5000), 'z'));
                ok = save(file);
                mustFail = false;
                mayCheck = true;
                break;
            }
            x.t("save " + std::to_string(n) + " records (" + std::to_string(full.size()) + " bytes)" + (fromSet ? " from a set" : "") + ", " + how + " at " + std::to_string(at) + ", text " + std::to_string(hashStr(text)));
            x.cnt("save:" + how + (mustFail ? " (fails)" : " (works)"));
            x.events += 2;
            if (mustFail && ok) x.fail("save with " + how + (at ? " at byte " + std::to_string(at) : "") + " of " + std::to_string(full.size()) + " returned true");
            if (!mustFail && !ok) x.fail("save with " + how + " returned false although everything was written");
            if (ok && mayCheck && !complete(readAll(file))) x.fail("save with " + how + " returned true, but the file is not complete");
            if (vaultRows(x, v, keys) != fileRows) x.fail("a save changed the vault");
            if (fromSet && set.Size() != rows.size()) x.fail("a save changed the set");
            stillUsable(x, v, keys);
            unlink(good.c_str());
            if (!save(good)) x.fail("saving after a failed save returned false");
            if (!complete(readAll(good))) x.fail("saving after a failed save is not complete");
            if (r.chance(20)) { VaultRecordSet d; if (d.SaveToFile(x.scratch + "/d.csv")) x.fail("saving a set without vault returned true"); }
            x.states.insert(mix(mode, mix(mustFail, full.size())));
            x.nontrivial = true;
        }
        else
        {
            // ---------------------------------------------------- load
            if (!Ctx::writeAll(file, text)) throw Foreign{"scratch"};
            int have = r.range(0, 3);
            std::multiset<std::string> before;
            for (int i = 0; i < have; ++i)
            {
                Row row = {std::to_string(-10 - i), "here", "1.000000"};
                v.CreateRecord({{"id", -10 - i}, {"text", row[1]}, {"num", 1.0}});
                before.insert(packRow(row));
            }
            const int how = (int)r.below(3);
            auto load = [&](const std::string& p)
            {
                if (!head) return v.ReadFile(p, ',', false);
                if (how == 0) return v.ReadFile(p, ',', std::function<void(const std::vector<std::string>&, std::vector<std::string>&)>([](const std::vector<std::string>&, std::vector<std::string>&) {}));
                return v.ReadFile(p);
            };
            int mode = (int)r.below(8);
            static const char* const nm[] = {"missing file", "directory", "unreadable file", "no free descriptor", "read error", "short reads", "interrupted reads", "empty path"};
            bool ok = false, mustFail = true, partial = false;
            long at = 0;
            switch (mode)
            {
            case 0: ok = load(x.scratch + "/none.csv"); break;
            case 1: ok = load(x.scratch); break;
            case 2:
            {
                chmod(file.c_str(), 0);
                if (seteuid(65534) != 0) { mode = 0; ok = load(x.scratch + "/none.csv"); }
                else { ok = load(file); if (seteuid(0) != 0) _exit(3); }
                chmod(file.c_str(), 0644);
                break;
            }
            case 3: { Limit l(RLIMIT_NOFILE, 3); ok = load(file); break; }
            case 4:
                at = r.chance(50) ? (long)r.below(text.size() + 1) : std::max(0L, (long)text.size() - (long)r.below(20));
                arm(file, 1, at, r.chance(50) ? EIO : EISDIR, r.next());
                ok = load(file);
                // the end may be known from the file size without a further read
                mustFail = inj.fired > 0 && at < (long)text.size();
                inj.armed = false;
                partial = true;
                break;
            case 5: case 6:
                arm(file, mode == 5 ? 2 : 3, 0, EIO, r.next());
                ok = load(file);
                mustFail = false;
                inj.armed = false;
                break;
            default: ok = load(""); break;
            }
            x.t("load " + std::to_string(n) + " records (" + std::to_string(text.size()) + " bytes)" + (head ? " with header" : "") + ", " + nm[mode] + " at " + std::to_string(at) + ", text " + std::to_string(hashStr(text)));
            x.cnt(std::string("load:") + nm[mode] + (mustFail ? " (fails)" : " (works)"));
            x.events += 2;
            if (mustFail && ok) x.fail(std::string("load with ") + nm[mode] + (at ? " at byte " + std::to_string(at) + " of " + std::to_string(text.size()) : "") + " returned true");
            if (!mustFail && !ok) x.fail(std::string("load with ") + nm[mode] + " returned false although the file was read");
            std::multiset<std::string> now = vaultRows(x, v, keys);
            if (!mustFail) { std::multiset<std::string> want = before; want.insert(fileRows.begin(), fileRows.end()); if (now != want) x.fail(std::string("load with ") + nm[mode] + " did not add exactly the records of the file"); }
            else
            {
                std::multiset<std::string> added = now;
                for (auto& b : before) { auto it = added.find(b); if (it == added.end()) x.fail("a failed load lost an existing record"); added.erase(it); }
                if (!partial && !added.empty()) x.fail(std::string("load with ") + nm[mode] + " added records");
                // whole records of the beginning of the file only
                std::multiset<std::string> prefix;
                for (std::size_t i = 0; i < added.size() && i < rows.size(); ++i) prefix.insert(packRow(rows[i]));
                if (added != prefix) x.fail(std::string("load with ") + nm[mode] + " at byte " + std::to_string(at) + " added a record that is not in the file");
                x.cnt(added.empty() ? "failed_load_added_nothing" : "failed_load_added_whole_records");
            }
            stillUsable(x, v, keys);
            Vault w;
            w.AddKey("id", -1);
            w.AddKey("text", std::string("default"));
            w.AddKey("num", 0.5);
            std::size_t cur = v.Size();
            if (!load(file)) x.fail("loading after a failed load returned false");
            if (v.Size() != cur + rows.size()) x.fail("loading after a failed load added " + std::to_string(v.Size() - cur) + " of " + std::to_string(rows.size()) + " records");
            if (!v.GetErrorsInLastReadedFile().empty()) x.fail("loading after a failed load reports errors");
            x.states.insert(mix(mode + 100, mix(mustFail, at)));
            x.nontrivial = true;
        }
    });
}
