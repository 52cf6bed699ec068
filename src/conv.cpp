// File and text conversion monitors: P13 (csv round trip), P14 (csv parser), P15 (text conversion), P25 (loading accounts for every line).
#include "tytext.h"
#include "csv_normal.h"
#include <climits>
#include <sys/resource.h>
using namespace vf;

typedef std::vector<std::vector<std::string>> Rows;

struct Col { std::string name; int t; bool uniq; std::string def; };

static std::string showRow(const std::vector<std::string>& r)
{
    std::string s = "[";
    for (auto& f : r) s += (s.size() > 1 ? " " : "") + show(f, 60);
    return s + "]";
}
static std::string diffRows(const std::multiset<std::string>& got, const std::multiset<std::string>& want)
{
    std::string s = "got " + std::to_string(got.size()) + " rows, expected " + std::to_string(want.size());
    for (auto& g : got) if (got.count(g) > want.count(g)) { s += "; unexpected " + show(g, 200); break; }
    for (auto& w : want) if (want.count(w) > got.count(w)) { s += "; missing " + show(w, 200); break; }
    return s;
}
static char anySep(Rng& r)
{
    static const char common[] = {',', ',', ',', ';', '\t', '|', ' ', ':'};
    if (r.chance(75)) return common[r.below(sizeof common)];
    char c;
    do c = (char)r.below(256); while (c == '"' || c == '\r' || c == '\n');
    return c;
}
static std::vector<Col> anySchema(Rng& r, char sep, int lo, int hi, int uniqPct)
{
    std::vector<Col> cols;
    std::set<std::string> used;
    int n = r.range(lo, hi);
    while ((int)cols.size() < n)
    {
        std::string nm = r.chance(50) ? "k" + std::to_string(r.below(8)) : rndText(r, sep, 4);
        if (!used.insert(nm).second) continue;
        Col c{nm, r.chance(40) ? TY_STR : (int)r.below(TYS), r.chance(uniqPct), ""};
        c.def = c.uniq ? ty(c.t).Zero() : ty(c.t).rnd(r);
        cols.push_back(c);
    }
    return cols;
}
static void addCols(Vault& v, const std::vector<Col>& cols)
{
    for (auto& c : cols) if (!(c.uniq ? ty(c.t).AddUnique(v, c.name) : ty(c.t).AddKey(v, c.name, c.def))) throw Foreign{"AddKey refused"};
}
// values of all records under the given columns, read with their types
static bool contents(const Vault& v, const std::vector<Col>& cols, std::multiset<std::string>& out, std::string& err)
{
    if (cols.empty()) return true;
    for (auto& ref : v.GetSortedRecords(cols[0].name))
    {
        std::vector<std::string> row;
        for (auto& c : cols)
        {
            std::string t;
            if (!ty(c.t).Get(ref, c.name, t)) { err = "value under " + show(c.name) + " can not be read"; return false; }
            row.push_back(t);
        }
        out.insert(packRow(row));
    }
    if (out.size() != v.Size()) { err = "listing shows " + std::to_string(out.size()) + " of " + std::to_string(v.Size()) + " records"; return false; }
    return true;
}

// ================================================================ P13
static void caseRoundTrip(Ctx& x, Rng& r)
{
    const char sep = anySep(r);
    std::vector<Col> cols = anySchema(r, sep, r.chance(4) ? 0 : 1, 6, 12);
    Vault v;
    addCols(v, cols);
    std::string tr = "keys:";
    for (auto& c : cols) tr += " " + show(c.name) + ":" + ty(c.t).name + (c.uniq ? "!" : "");
    x.t(tr + "  separator " + show(std::string(1, sep)));
    int n = r.chance(10) ? 0 : r.chance(10) ? r.range(20, 60) : r.range(1, 8);
    std::vector<std::vector<std::string>> recs; // in cols order
    std::vector<VaultRecordRef> refs;
    for (int i = 0; i < n; ++i)
    {
        std::vector<std::pair<std::string, VaultParamInput>> ps;
        std::vector<std::string> row;
        for (auto& c : cols)
        {
            std::string t = c.t == TY_STR ? rndText(r, sep) : ty(c.t).rnd(r);
            if (!c.uniq && r.chance(20)) { row.push_back(c.def); continue; }
            row.push_back(t);
            ps.emplace_back(c.name, ty(c.t).Param(t));
        }
        VaultRecordRef ref;
        if (!v.CreateRecord(ref, ps).IsOperationSuccess) continue; // duplicate unique value
        x.t("record " + showRow(row));
        recs.push_back(row);
        refs.push_back(ref);
    }
    if (v.Size() != recs.size()) throw Foreign{"size"};

    // what to save
    std::vector<std::string> sel;
    std::vector<int> selCol; // index in cols, -1 unknown key
    bool all = r.chance(35) || cols.empty();
    if (all) for (std::size_t i = 0; i < cols.size(); ++i) { sel.push_back(cols[i].name); selCol.push_back((int)i); }
    else
    {
        int m = r.range(1, (int)cols.size() + 1);
        for (int i = 0; i < m; ++i)
        {
            if (r.chance(12)) { std::string nm = "none" + std::to_string(r.below(2)) + std::string(1, sep); sel.push_back(nm); selCol.push_back(-1); continue; }
            int c = (int)r.below(cols.size());
            if (std::find(selCol.begin(), selCol.end(), c) != selCol.end() && r.chance(85)) continue;
            sel.push_back(cols[c].name);
            selCol.push_back(c);
        }
        if (sel.empty()) { sel.push_back(cols[0].name); selCol.push_back(0); }
    }
    std::set<std::size_t> members;
    bool fromSet = r.chance(40);
    VaultRecordSet set;
    if (fromSet)
    {
        if (cols.empty()) fromSet = false;
        else
        {
            // an empty attached set, then chosen members
            v.Request(mvlt::Equal("no such key \x01", 1), set);
            for (std::size_t i = 0; i < refs.size(); ++i)
                if (r.chance(60)) { if (!set.AddRecord(refs[i]).IsOperationSuccess) throw Foreign{"AddRecord"}; members.insert(i); }
        }
    }
    if (!fromSet) for (std::size_t i = 0; i < recs.size(); ++i) members.insert(i);

    bool saveKey = r.chance(70);
    std::string sepStr(1, sep);
    bool multi = r.chance(8);
    if (multi) sepStr += anySep(r);
    std::string file = x.scratch + "/t.csv";
    x.t(std::string("save from ") + (fromSet ? "set" : "vault") + " " + std::to_string(members.size()) + " records, columns " + (all ? "all" : showRow(sel)) + (saveKey ? " with header" : " without header") + " separator " + show(sepStr));
    std::vector<std::string> arg;
    if (!all) arg = sel;
    bool ok = fromSet ? set.SaveToFile(file, arg, sepStr, saveKey) : v.SaveToFile(file, arg, sepStr, saveKey);
    if (!ok) x.fail("SaveToFile returned false");
    x.events += 1 + members.size();

    // the file itself, read by an independent parser
    Rows raw = refCsv(readAll(file), sepStr);
    std::multiset<std::string> want, got;
    std::size_t first = 0;
    if (!sel.empty())
    {
        if (saveKey)
        {
            if (raw.empty() || raw[0] != sel) x.fail("header line is " + (raw.empty() ? std::string("missing") : showRow(raw[0])) + ", expected " + showRow(sel));
            first = 1;
        }
        for (std::size_t i = first; i < raw.size(); ++i) got.insert(packRow(raw[i]));
        for (std::size_t i : members)
        {
            std::vector<std::string> row;
            for (int c : selCol) row.push_back(c < 0 ? "" : recs[i][c]);
            want.insert(packRow(row));
        }
        if (got != want) x.fail("file contents: " + diffRows(got, want));
    }
    if (!members.empty() && !sel.empty()) x.nontrivial = true;
    x.cnt(fromSet ? "saved_from_set" : "saved_from_vault");
    if (multi || sel.empty()) { x.cnt("file_only"); return; }

    // read back into another vault
    Vault w;
    std::vector<Col> tc = cols;
    for (std::size_t i = tc.size(); i > 1; --i) if (r.chance(60)) std::swap(tc[i - 1], tc[r.below(i)]);
    for (auto& c : tc)
    {
        bool saved = std::find(sel.begin(), sel.end(), c.name) != sel.end();
        if (!saved) c.uniq = false;
        if (!c.uniq) c.def = ty(c.t).rnd(r);
    }
    std::set<std::string> extra;
    for (std::size_t i = 0; i < sel.size(); ++i) if (selCol[i] < 0 && extra.insert(sel[i]).second) tc.push_back(Col{sel[i], TY_STR, false, "extra"});
    addCols(w, tc);
    std::multiset<std::string> expect;
    std::size_t earlier = 0;
    bool hasUniq = false;
    for (auto& c : tc) hasUniq |= c.uniq;
    if (!hasUniq && r.chance(25))
    {
        // records that are already there stay
        std::vector<std::pair<std::string, VaultParamInput>> none;
        VaultRecordRef ref;
        for (earlier = 0; earlier < 2; ++earlier) w.CreateRecord(ref, none);
        std::vector<std::string> row;
        for (auto& c : tc) row.push_back(c.def);
        for (std::size_t i = 0; i < earlier; ++i) expect.insert(packRow(row));
    }
    for (std::size_t i : members)
    {
        std::vector<std::string> row;
        for (auto& c : tc)
        {
            std::string t = c.def;
            for (std::size_t s = 0; s < sel.size(); ++s) if (sel[s] == c.name) t = selCol[s] < 0 ? "" : recs[i][selCol[s]];
            row.push_back(t);
        }
        expect.insert(packRow(row));
    }
    std::string how;
    if (saveKey)
    {
        if (r.chance(30))
        {
            how = "handler";
            std::string bad;
            ok = w.ReadFile(file, sep, [&](const std::vector<std::string>& k, std::vector<std::string>& val)
            {
                if (k != sel) bad = "handler got keys " + showRow(k);
                if (val.size() != sel.size()) bad = "handler got " + std::to_string(val.size()) + " values";
            });
            if (!bad.empty()) x.fail(bad);
        }
        else { how = "header"; ok = sep == ',' && r.chance(50) ? w.ReadFile(file) : w.ReadFile(file, sep); }
    }
    else
    {
        std::vector<std::string> order;
        for (auto& c : tc) order.push_back(c.name);
        order.resize(std::min(order.size(), sel.size()));
        if (order == sel && r.chance(60)) { how = "vault key order"; ok = w.ReadFile(file, sep, false); }
        else { how = "given keys"; ok = w.ReadFile(file, sep, false, sel); }
    }
    x.t("read back by " + how);
    x.cnt("read:" + how);
    if (!ok) x.fail("ReadFile returned false");
    auto errs = w.GetErrorsInLastReadedFile();
    if (!errs.empty()) x.fail("reading reports " + std::to_string(errs.size()) + " errors, first line " + std::to_string(errs[0].first) + " key " + show(errs[0].second));
    std::multiset<std::string> have;
    std::string err;
    if (w.Size() != expect.size()) x.fail("vault has " + std::to_string(w.Size()) + " records after reading, expected " + std::to_string(expect.size()));
    if (!contents(w, tc, have, err)) x.fail(err);
    if (have != expect) x.fail("values after reading: " + diffRows(have, expect));
    x.events += 1 + have.size();
    x.states.insert(hashStr(packRow(std::vector<std::string>(have.begin(), have.end()))));
    // and the source did not change
    have.clear();
    if (!contents(v, cols, have, err)) x.fail(err);
    expect.clear();
    for (auto& row : recs) expect.insert(packRow(row));
    if (!cols.empty() && have != expect) x.fail("saving changed the vault: " + diffRows(have, expect));
}

// ================================================================ P14
static std::string csvField(Rng& r, const std::string& f, char sep, bool only)
{
    bool need = only && f.empty();
    for (char c : f) if (c == '"' || c == '\r' || c == '\n' || c == sep) need = true;
    if (!need && !r.chance(25)) return f;
    std::string s = "\"";
    for (char c : f) { if (c == '"') s += '"'; s += c; }
    return s + "\"";
}
static void compareRows(Ctx& x, const Rows& got, const Rows& want, const std::string& how)
{
    for (std::size_t i = 0; i < got.size() || i < want.size(); ++i)
    {
        if (i >= got.size()) x.fail(how + ": ended after " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " records; next should be " + showRow(want[i]));
        if (i >= want.size()) x.fail(how + ": " + std::to_string(got.size()) + " records instead of " + std::to_string(want.size()) + "; extra " + showRow(got[i]));
        if (got[i] != want[i]) x.fail(how + ": record " + std::to_string(i) + " is " + showRow(got[i]) + ", expected " + showRow(want[i]));
    }
}
static void caseParser(Ctx& x, Rng& r, long c)
{
    const char sep = anySep(r);
    const bool big = x.opt("big");
    std::string file = x.scratch + "/p.csv", data;
    if (!big && c % 3 == 2)
    {
        // arbitrary bytes: ends, reads nothing outside, and the block layout does not matter
        static const std::size_t sizes[] = {0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 66, 79, 80, 81, 95, 96, 97, 112, 128, 160};
        std::size_t n = r.chance(60) ? sizes[r.below(sizeof sizes / sizeof *sizes)] : r.below(400);
        int style = (int)r.below(3);
        while (data.size() < n)
        {
            if (style == 0) data += (char)r.below(256);
            else { static const char* const t[] = {"\"", "\"\"", ",", "\r", "\n", "\r\n", "a", "bc"}; int k = (int)r.below(9); if (k == 8) data += sep; else data += t[k]; }
        }
        data.resize(n);
        Ctx::writeAll(file, data);
        x.t("arbitrary bytes, separator " + show(std::string(1, sep)) + ": " + show(data, 400));
        Rows a, b;
        if (!parseSmall(file, sep, a, n + 2) || !parseNormal(file, sep, b, n + 2)) x.fail("the file could not be opened");
        compareRows(x, a, b, "reading by small blocks differs from reading at once");
        for (auto& row : a) { for (auto& f : row) if (f.size() > n) x.fail("field longer than the file"); if (row.size() > n + 1) x.fail("more fields than bytes"); }
        x.cnt("arbitrary_files");
        x.cnt(n > 64 ? "by_blocks" : "at_once");
        x.nontrivial = n > 0;
        x.events += a.size();
        return;
    }
    Rows want;
    const std::size_t target = big ? 10485760 + r.below(9000) : r.chance(50) ? r.below(140) : r.below(500);
    const std::string eol = r.chance(50) ? "\r\n" : "\n";
    bool mixed = r.chance(20);
    bool finalEol = r.chance(60);
    int rowsMax = big ? INT_MAX : r.range(0, 40);
    for (int i = 0; i < rowsMax && data.size() < target; ++i)
    {
        if (i) data += mixed ? (r.chance(50) ? "\r\n" : "\n") : eol;
        std::vector<std::string> row;
        int nf = r.chance(6) ? 0 : r.range(1, r.chance(10) ? 12 : 4);
        for (int f = 0; f < nf; ++f)
        {
            std::string t = big && r.chance(60) ? std::string(r.below(200), (char)('a' + r.below(26))) : rndText(r, sep);
            row.push_back(t);
        }
        for (int f = 0; f < nf; ++f) { if (f) data += sep; data += csvField(r, row[f], sep, nf == 1); }
        want.push_back(row);
    }
    if (want.empty() || want.back().empty()) finalEol = !want.empty() || finalEol; // a last empty line exists only with its line end
    if (want.empty()) { if (finalEol) { data += eol; want.push_back({}); } }
    else if (finalEol) data += mixed ? (r.chance(50) ? "\r\n" : "\n") : eol;
    if (!Ctx::writeAll(file, data)) throw Foreign{"scratch"};
    x.t("file of " + std::to_string(data.size()) + " bytes, " + std::to_string(want.size()) + " records, separator " + show(std::string(1, sep)) + ": " + show(data, 1200));
    Rows ref = refCsv(data, std::string(1, sep));
    if (ref != want) throw Foreign{"reference reader disagrees with the generator"};
    Rows a;
    if (big)
    {
        if (!parseNormal(file, sep, a, want.size() + 5)) x.fail("the file could not be opened");
        compareRows(x, a, want, "file above the small-file limit");
        x.cnt("real_big_files");
        x.cnt("max_bytes", (long)data.size());
    }
    else
    {
        // the parser may have been used before
        std::string before;
        int lines = 0;
        if (r.chance(30))
        {
            before = r.chance(20) ? x.scratch + "/no such file" : x.scratch + "/before.csv";
            std::string old;
            for (int n = r.chance(50) ? r.range(0, 30) : r.range(0, 150); n > 0; --n) { static const char* const t[] = {"x", "yz", "\"", "\n", "\r\n", ","}; old += t[r.below(6)]; }
            if (before.back() == 'v') Ctx::writeAll(before, old);
            lines = r.range(0, 40);
            x.t("the parser was used for " + show(before.back() == 'v' ? old : std::string("a missing file"), 200) + ", " + std::to_string(lines) + " lines");
            x.cnt("used_parsers");
        }
        if (!parseSmall(file, sep, a, want.size() + 5, before, lines)) x.fail("the file could not be opened");
        compareRows(x, a, want, data.size() > 64 ? "read by small blocks" : "small file");
        Rows b;
        if (!parseNormal(file, sep, b, want.size() + 5, before, lines)) x.fail("the file could not be opened");
        compareRows(x, b, want, "read at once");
        x.cnt(data.size() > 64 ? "by_blocks" : "at_once");
        // the reader below the parser shows the bytes of the file
        mvlt::StreamFileReader rd;
        if (!before.empty())
        {
            bool was = rd.Open(before);
            for (int i = 0; i < lines * 5 && rd.IsEnd(); ++i) rd.Move();
            if (was && lines % 3) rd.Close();
        }
        if (!rd.Open(file)) x.fail("StreamFileReader could not open the file");
        std::string seen;
        if (rd.GetFileSize() > 0)
            for (; rd.IsEnd(); rd.Move())
            {
                if (rd.GetCurrentPos() != seen.size()) x.fail("StreamFileReader position " + std::to_string(rd.GetCurrentPos()) + " at byte " + std::to_string(seen.size()));
                seen += rd.GetChar();
                if (seen.size() < data.size() && rd.GetNextChar() != data[seen.size()]) x.fail("StreamFileReader shows a wrong next byte after byte " + std::to_string(seen.size()));
                if (seen.size() > data.size()) break;
            }
        if (seen != data) x.fail("StreamFileReader shows other bytes than the file: " + std::to_string(seen.size()) + " of " + std::to_string(data.size()));
    }
    unlink(file.c_str());
    unlink((x.scratch + "/before.csv").c_str());
    x.cnt("wellformed_files");
    x.events += want.size();
    x.nontrivial = !want.empty();
    x.states.insert(mix(data.size(), want.size()));
}

// ================================================================ P15
static bool lenientInt(const std::string& s, bool& neg, std::string& digits)
{
    std::size_t a = 0, b = s.size();
    while (a < b && isspace((unsigned char)s[a])) ++a;
    while (b > a && isspace((unsigned char)s[b - 1])) --b;
    neg = false;
    if (a < b && (s[a] == '-' || s[a] == '+')) neg = s[a++] == '-';
    if (a >= b) return false;
    digits.clear();
    for (; a < b; ++a) { if (s[a] < '0' || s[a] > '9') return false; digits += s[a]; }
    std::size_t z = digits.find_first_not_of('0');
    digits = z == std::string::npos ? "0" : digits.substr(z);
    return true;
}
// limits as decimal text
static void limitsOf(int t, std::string& lo, std::string& hi)
{
    switch (t)
    {
    case TY_I16: lo = "32768"; hi = "32767"; break;
    case TY_U16: lo = "0"; hi = "65535"; break;
    case TY_I32: lo = "2147483648"; hi = "2147483647"; break;
    case TY_U32: lo = "0"; hi = "4294967295"; break;
    case TY_I64: lo = "9223372036854775808"; hi = "9223372036854775807"; break;
    default: lo = "0"; hi = "18446744073709551615"; break;
    }
}
static bool leDec(const std::string& a, const std::string& b) { return a.size() != b.size() ? a.size() < b.size() : a <= b; }
static std::string decAdd(std::string s, int d)
{
    int i = (int)s.size() - 1;
    while (d && i >= 0) { int v = s[i] - '0' + d; s[i] = (char)('0' + v % 10); d = v / 10; --i; }
    return d ? std::to_string(d) + s : s;
}
static std::string anyNumText(Rng& r, int t)
{
    std::string lo, hi;
    limitsOf(t, lo, hi);
    std::string s;
    switch (r.below(14))
    {
    case 0: s = decAdd(hi, (int)r.below(12)); break;
    case 1: s = "-" + decAdd(lo, (int)r.below(12)); break;
    case 2: s = hi + (char)('0' + r.below(10)); break;
    case 3: s = "-" + lo + (char)('0' + r.below(10)); break;
    case 4: { int n = r.range(1, 25); for (int i = 0; i < n; ++i) s += (char)('0' + r.below(10)); if (r.chance(40)) s = "-" + s; break; }
    case 5: s = ty(t).rnd(r); break;
    case 6: { s = ty(t).rnd(r); if (!s.empty()) s[r.below(s.size())] = (char)(r.chance(50) ? '0' + r.below(10) : 32 + r.below(95)); break; }
    case 7: { s = ty(t).rnd(r); s.insert(r.below(s.size() + 1), 1, "0-+ .,exXfFeE'\t\n"[r.below(16)]); break; }
    case 8: { static const char* const o[] = {"", "-", "+", "--1", "+1", " 1", "1 ", "-0", "0", "00", "-00", "0x10", "1e5", "1e", "nan", "inf", "-inf", "true", "false", "TRUE", "1", "0.", ".5", ".", "-.", "-.5", "1.2.3", "1,5", "1'000", "12-", "1-2", "١", "1e400", "-1e400", "5f", "0b1"}; s = o[r.below(sizeof o / sizeof *o)]; break; }
    case 9: { s = std::string(r.below(400) + 1, '9'); if (r.chance(30)) s = "0." + std::string(r.below(400), '0') + s; if (r.chance(30)) s = "-" + s; break; }
    case 10: { s = std::to_string(r.next() >> r.below(64)); std::size_t p = r.below(s.size() + 1); s.insert(p, "."); if (r.chance(30)) s = "-" + s; break; }
    case 11: { s = ty(t).rnd(r); s += '\0'; if (r.chance(50)) s += "1"; break; }
    case 12: { s = ty(t).rnd(r); s = (s[0] == '-' ? "-" + std::string(r.below(30), '0') + s.substr(1) : std::string(r.below(30), '0') + s); break; }
    default: s = rndText(r); break;
    }
    return s;
}
static void caseText(Ctx& x, Rng& r)
{
    for (int rep = 0; rep < 60; ++rep)
    {
        int t = (int)r.below(TYS);
        const Ty& y = ty(t);
        ++x.events;
        if (r.chance(45))
        {
            // value -> text -> value
            std::string v = y.rnd(r), out, before = y.rnd(r);
            std::string text = y.LibText(v);
            x.t(std::string(y.name) + " " + show(v, 400) + " -> " + show(text, 400));
            if (text != v) x.fail(std::string("ToString of ") + y.name + " " + show(v, 400) + " gives " + show(text, 400));
            if (!y.LibParse(text, before, out)) x.fail(std::string(y.name) + ": own text " + show(text, 400) + " is refused");
            if (out != v) x.fail(std::string(y.name) + ": text " + show(text, 400) + " is read back as " + show(out, 400));
            x.cnt("roundtrips");
        }
        else
        {
            std::string s = anyNumText(r, t), before = y.rnd(r), out;
            if (t == TY_BOOL && r.chance(50)) { static const char* const o[] = {"true", "false", "True", "FALSE", "1", "0", "yes", "", "true ", " true", "tru", "falsee", "t"}; s = o[r.below(13)]; }
            bool ok = y.LibParse(s, before, out);
            x.t(std::string(y.name) + " from " + show(s, 400) + (ok ? " = " + show(out, 400) : " refused"));
            const std::string id = std::string(y.name) + " from " + show(s, 400);
            if (!ok && out != before) x.fail(id + ": refused, but the destination changed from " + show(before, 100) + " to " + show(out, 100));
            x.cnt(ok ? "texts_accepted" : "texts_refused");
            if (t == TY_STR) { if (!ok || out != s) x.fail(id + ": not copied"); }
            else if (t == TY_BOOL)
            {
                if (ok != (s == "true" || s == "false")) x.fail(id + (ok ? ": accepted" : ": refused"));
                if (ok && out != s) x.fail(id + ": read as " + out);
            }
            else if (t == TY_DBL || t == TY_FLT)
            {
                // strict decimal text must be read exactly; anything else that is accepted must be a number
                std::size_t i = !s.empty() && s[0] == '-' ? 1 : 0, dg = 0, pt = 0;
                bool plain = true;
                for (; i < s.size(); ++i) { if (s[i] >= '0' && s[i] <= '9') ++dg; else if (s[i] == '.' && !pt) ++pt; else plain = false; }
                plain = plain && dg > 0 && s.find('\0') == std::string::npos;
                if (ok)
                {
                    char* end = nullptr;
                    errno = 0;
                    double d = t == TY_DBL ? cStrtod(s.c_str(), &end) : (double)cStrtof(s.c_str(), &end);
                    while (*end && isspace((unsigned char)*end)) ++end;
                    bool number = !s.empty() && end != s.c_str() && (std::size_t)(end - s.c_str()) == s.size() && std::isfinite(d);
                    if (!number) x.fail(id + ": accepted as " + show(out, 60) + " but it is no number of the type");
                    if (out != fmtOf(d)) x.fail(id + ": read as " + show(out, 400) + ", it denotes " + show(fmtOf(d), 400));
                }
                else if (plain && dg == s.size() - (s[0] == '-') - pt && dg < 30 && s.back() != '.' && s[s[0] == '-' ? 1 : 0] != '.') x.fail(id + ": a decimal number in range is refused");
            }
            else
            {
                bool neg;
                std::string dig, lo, hi;
                limitsOf(t, lo, hi);
                bool isNum = lenientInt(s, neg, dig);
                bool inRange = isNum && (dig == "0" || leDec(dig, neg ? lo : hi)) && !(neg && dig != "0" && lo == "0");
                std::string canon = isNum ? (neg && dig != "0" ? "-" + dig : dig) : "";
                if (ok && !isNum) x.fail(id + ": accepted as " + out + " but it is no number");
                if (ok && !inRange) x.fail(id + ": accepted as " + out + " but it does not fit the type");
                if (ok && out != canon) x.fail(id + ": read as " + out + ", it denotes " + canon);
                if (!ok && inRange && s == canon) x.fail(id + ": a number of the type is refused");
            }
        }
    }
    // the same rules when a record is loaded
    if (r.chance(30))
    {
        int t = (int)r.below(TYS);
        std::string s = t == TY_BOOL ? (r.chance(50) ? "true" : "maybe") : anyNumText(r, t), out, def = ty(t).rnd(r);
        bool ok = ty(t).LibParse(s, def, out);
        Vault v;
        ty(t).AddKey(v, "k", def);
        std::string file = x.scratch + "/x.csv", q = "\"";
        for (char c : s) { if (c == '"') q += '"'; q += c; }
        Ctx::writeAll(file, "k\r\n" + q + "\"\r\n");
        x.t(std::string("load ") + ty(t).name + " " + show(s, 400));
        bool rd = v.ReadFile(file);
        auto errs = v.GetErrorsInLastReadedFile();
        VaultRecordRef ref;
        auto l = v.GetSortedRecords("k");
        std::string got;
        if (!rd || l.size() != (ok ? 1u : 0u) || errs.size() != (ok ? 0u : 1u)) x.fail("loading text " + show(s, 200) + " for " + ty(t).name + " disagrees with reading the text");
        if (ok && (!ty(t).Get(l[0], "k", got) || got != out)) x.fail("loading text " + show(s, 200) + " for " + ty(t).name + " stores " + show(got, 100));
        x.cnt("loads");
    }
    x.nontrivial = true;
    x.states.insert(hashStr(x.trace));
}

// ================================================================ P25
// identity of a value for uniqueness: floating point values may print alike
static std::string exactOf(int t, const std::string& text)
{
    char b[64];
    if (t == TY_DBL) { double d = cStrtod(text.c_str(), nullptr); CLoc l; snprintf(b, sizeof b, "%a", d == 0 ? 0.0 : d); return b; }
    if (t == TY_FLT) { float d = cStrtof(text.c_str(), nullptr); CLoc l; snprintf(b, sizeof b, "%a", d == 0 ? 0.0 : (double)d); return b; }
    return text;
}
struct ExpErr { std::size_t line; std::set<std::string> keys; };
static void caseLoad(Ctx& x, Rng& r)
{
    const char sep = r.chance(70) ? ',' : ';';
    std::vector<Col> cols = anySchema(r, sep, r.chance(3) ? 0 : 1, 5, 20);
    Vault v;
    addCols(v, cols);
    std::string tr = "keys:";
    for (auto& c : cols) tr += " " + show(c.name) + ":" + ty(c.t).name + (c.uniq ? "!" : "") + "=" + show(c.def, 20);
    x.t(tr);
    auto col = [&](const std::string& n) -> const Col* { for (auto& c : cols) if (c.name == n) return &c; return nullptr; };
    // model contents, rows in cols order
    std::vector<std::vector<std::string>> model, exact;
    VaultRecordSet live; // sees nothing of the loads: they add records to the vault only
    int loads = r.range(1, 3);
    for (int ld = 0; ld < loads; ++ld)
    {
        int mode = (int)r.below(4); // 0 header, 1 no header, 2 given keys, 3 handler
        // the columns of the file
        std::vector<std::string> head;
        if (mode == 1) for (auto& c : cols) head.push_back(c.name);
        else
        {
            int n = r.range(1, 5);
            for (int i = 0; i < n; ++i)
            {
                std::string nm = cols.empty() || r.chance(8) ? "unknown" + std::to_string(r.below(2)) : cols[r.below(cols.size())].name;
                if (std::find(head.begin(), head.end(), nm) != head.end() && r.chance(90)) continue;
                head.push_back(nm);
            }
        }
        if (mode == 2 && head.empty()) head.push_back("unknown");
        const bool hasHead = mode == 0 || mode == 3;
        std::string file, eol = r.chance(50) ? "\r\n" : "\n";
        auto put = [&](const std::vector<std::string>& row) { for (std::size_t i = 0; i < row.size(); ++i) { if (i) file += sep; file += csvField(r, row[i], sep, row.size() == 1); } };
        if (hasHead) { put(head); }
        int lines = r.chance(8) ? 0 : r.range(1, 10);
        std::vector<std::vector<std::string>> rows;
        bool plainUniq = r.chance(50); // few values, so that unique ones collide
        for (int i = 0; i < lines; ++i)
        {
            std::vector<std::string> row;
            if (!r.chance(8))
            {
                int n = (int)head.size() + (r.chance(12) ? r.range(1, 3) : 0) - (r.chance(15) ? r.range(0, (int)head.size()) : 0);
                for (int f = 0; f < n; ++f)
                {
                    const Col* c = f < (int)head.size() ? col(head[f]) : nullptr;
                    int t = c ? c->t : TY_STR;
                    std::string s = ty(t).rnd(r);
                    if (c && c->uniq && plainUniq) s = t == TY_STR ? std::string(1, (char)('a' + r.below(4))) : t == TY_BOOL ? s : t == TY_DBL || t == TY_FLT ? fmtOf((double)r.below(4)) : std::to_string(r.below(4));
                    if (r.chance(8)) s = rndText(r, sep);
                    if (r.chance(5)) s = anyNumText(r, t);
                    row.push_back(s);
                }
            }
            rows.push_back(row);
        }
        for (std::size_t i = 0; i < rows.size(); ++i) { if (i || hasHead) file += eol; put(rows[i]); }
        if ((!rows.empty() && rows.back().empty()) || r.chance(60)) file += eol;
        // no header and the first thing is nothing: an empty file has no line
        std::string path = x.scratch + "/l.csv";
        Ctx::writeAll(path, file);
        Rows parsed = refCsv(file, std::string(1, sep));
        if (hasHead && (parsed.empty() || parsed[0] != head)) throw Foreign{"generator"};
        if (hasHead) parsed.erase(parsed.begin());

        // the line handler changes values
        int hm = mode == 3 ? (int)r.below(5) : 0; // 0 nothing 1 set first 2 drop last 3 append 4 clear
        auto handle = [hm](std::vector<std::string>& val)
        {
            switch (hm)
            {
            case 1: if (!val.empty()) val[0] = "7"; break;
            case 2: if (!val.empty()) val.pop_back(); break;
            case 3: val.push_back("extra"); break;
            case 4: val.clear(); break;
            }
        };
        x.t("load mode " + std::to_string(mode) + (mode == 3 ? " handler " + std::to_string(hm) : "") + " columns " + showRow(head) + " file " + show(file, 1500));

        // expectation
        std::vector<ExpErr> errs;
        std::size_t line = 0, added = 0, refused = 0, blank = 0;
        for (auto row : parsed)
        {
            ++line;
            const bool wasBlank = row.empty();
            std::vector<std::string> val = row;
            if (mode == 3) handle(val);
            std::vector<std::string> rec, ex;
            for (auto& c : cols) { rec.push_back(c.def); ex.push_back(exactOf(c.t, c.def)); }
            bool any = false, bad = false;
            for (std::size_t i = 0; i < head.size() && i < val.size(); ++i)
            {
                const Col* c = col(head[i]);
                std::string out;
                // whether a text is readable is the business of P15
                if (!c || !ty(c->t).LibParse(val[i], c->def, out)) { errs.push_back(ExpErr{line + (hasHead ? 1 : 0), {head[i]}}); bad = true; break; }
                rec[c - &cols[0]] = out;
                ex[c - &cols[0]] = c->t == TY_FLT || c->t == TY_DBL ? exactOf(c->t, val[i]) : out;
                any = true;
            }
            if (bad) { ++refused; continue; }
            if (!any) { blank += wasBlank ? 1 : 0; continue; } // nothing for this vault on the line
            ExpErr e{line, {}};
            for (std::size_t i = 0; i < cols.size(); ++i)
                if (cols[i].uniq) for (auto& m : exact) if (m[i] == ex[i]) { e.keys.insert(cols[i].name); break; }
            if (!e.keys.empty()) { errs.push_back(e); ++refused; continue; }
            model.push_back(rec);
            exact.push_back(ex);
            ++added;
        }
        bool ok;
        std::size_t calls = 0;
        std::string herr;
        if (mode == 0) ok = v.ReadFile(path, sep);
        else if (mode == 1) ok = v.ReadFile(path, sep, false);
        else if (mode == 2) ok = v.ReadFile(path, sep, false, head);
        else ok = v.ReadFile(path, sep, [&](const std::vector<std::string>& k, std::vector<std::string>& val)
        {
            if (k != head) herr = "the handler got keys " + showRow(k);
            if (calls >= parsed.size() || val != parsed[calls]) herr = "the handler got values " + showRow(val) + " at line " + std::to_string(calls);
            ++calls;
            handle(val);
        });
        if (!ok) x.fail("ReadFile returned false");
        if (!herr.empty()) x.fail(herr);
        if (mode == 3 && calls != parsed.size()) x.fail("the handler was called for " + std::to_string(calls) + " of " + std::to_string(parsed.size()) + " lines");
        if (v.Size() != model.size()) x.fail("vault has " + std::to_string(v.Size()) + " records after loading, expected " + std::to_string(model.size()));
        auto got = v.GetErrorsInLastReadedFile();
        std::string gs;
        for (auto& e : got) gs += " " + std::to_string(e.first) + ":" + show(e.second, 20);
        std::string ws;
        for (auto& e : errs) { ws += " " + std::to_string(e.line) + ":"; for (auto& k : e.keys) ws += show(k, 20) + "/"; }
        bool same = got.size() == errs.size();
        for (std::size_t i = 0; same && i < got.size(); ++i) same = errs[i].keys.count(got[i].second) && got[i].first == errs[i].line;
        if (!same) x.fail("reported errors" + gs + ", expected" + ws);
        if (!cols.empty())
        {
            std::multiset<std::string> have, want;
            std::string err;
            if (!contents(v, cols, have, err)) x.fail(err);
            for (auto& m : model) want.insert(packRow(m));
            if (have != want) x.fail("values after loading: " + diffRows(have, want));
            for (auto& c : cols)
            {
                std::size_t n = v.GetSortedRecords(c.name).size();
                if (n != model.size()) x.fail("key " + show(c.name) + " lists " + std::to_string(n) + " of " + std::to_string(model.size()) + " records");
            }
            // loaded records are found by their values
            if (!model.empty())
            {
                std::size_t i = r.below(model.size()), k = r.below(cols.size());
                std::size_t n = 0;
                for (auto& m : model) if (m[k] == model[i][k]) ++n;
                if (cols[k].t == TY_STR)
                {
                    std::vector<VaultRecordRef> f;
                    v.GetRecords<std::string>(cols[k].name, model[i][k], f);
                    if (f.size() != n) x.fail("lookup of a loaded value finds " + std::to_string(f.size()) + " of " + std::to_string(n) + " records");
                }
                else if (cols[k].t == TY_I32)
                {
                    std::vector<VaultRecordRef> f;
                    v.GetRecords<int>(cols[k].name, atoi(model[i][k].c_str()), f);
                    if (f.size() != n) x.fail("lookup of a loaded value finds " + std::to_string(f.size()) + " of " + std::to_string(n) + " records");
                }
            }
        }
        // a load that can not be done is the last load too
        if (r.chance(10))
        {
            const int how = (int)r.below(3), by = (int)r.below(4);
            const std::string none = how == 0 ? x.scratch + "/none.csv" : how == 1 ? x.scratch : path + "/l.csv";
            bool done;
            if (by == 0) done = v.ReadFile(none, sep);
            else if (by == 1) done = v.ReadFile(none, sep, false);
            else if (by == 2) done = v.ReadFile(none, sep, false, head);
            else done = v.ReadFile(none, sep, [&](const std::vector<std::string>&, std::vector<std::string>&) { herr = "the handler was called for a file that can not be read"; });
            x.t("load of what is no file " + std::to_string(how) + " mode " + std::to_string(by));
            if (done) x.fail("loading what is no file returned true");
            if (!herr.empty()) x.fail(herr);
            if (v.Size() != model.size()) x.fail("loading what is no file changed the number of records");
            if (!v.GetErrorsInLastReadedFile().empty()) x.fail("the errors of an earlier file are reported after a load of what is no file");
            x.cnt("loads_of_no_file");
        }
        x.events += parsed.size() + 1;
        x.cnt("lines_added", added);
        x.cnt("lines_refused", refused);
        x.cnt("lines_blank", blank);
        x.cnt("mode:" + std::to_string(mode));
        if (!parsed.empty()) x.nontrivial = true;
        x.states.insert(mix(hashStr(gs), mix(added, refused)));
    }
}

int main(int argc, char** argv)
{
    Ctx x;
    x.parse(argc, argv);
    muteStdout(x.verbose);
    return x.run([&](long c, Rng& r)
    {
        LocaleCase loc(x, r);
        if (x.prop == "P13") caseRoundTrip(x, r);
        else if (x.prop == "P14") caseParser(x, r, c);
        else if (x.prop == "P15") caseText(x, r);
        else if (x.prop == "P25") caseLoad(x, r);
        else exit(3);
    });
}
