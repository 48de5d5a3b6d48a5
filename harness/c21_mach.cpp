// C21: machine instructions - operand counts, forms and ranges, size - against a reference table of the instruction set.
#include "hl_util.h"
#include <sstream>
#include "context/ordinary_assembly/symbol.h"
using namespace verif;

static const char* TABLE =
#include "c21_table.inc"
    ;

// ---- reference ------------------------------------------------------------------------------------------
struct Instr
{
    std::string name;
    int size;
    int optional;                 // trailing operands that may be left out
    std::vector<std::string> ops; // kinds
};
enum Verdict { GOOD, BAD, OPEN };
struct Alt
{
    std::string text;
    Verdict v;
};
using ll = long long;
static ll num(const std::string& s) { return atoll(s.c_str()); }
struct Range
{
    ll lo, hi;
};
static Range field(const std::string& k, size_t at) // e.g. 12U, 20S
{
    ll n = num(k.substr(at));
    size_t e = k.find_first_not_of("0123456789", at);
    char c = e == std::string::npos ? ' ' : k[e];
    if (c == 'U')
        return { 0, (1ll << n) - 1 };
    if (c == 'S')
        return { -(1ll << (n - 1)), (1ll << (n - 1)) - 1 };
    return { 0, (1ll << (n - 1)) - 1 }; // the part valid under both readings
}
static bool simple(const std::string& k) { return k[0] != 'D'; }
static std::string good(const std::string& k, int variant = 0)
{
    if (k == "R" || k == "V" || k == "M")
        return std::to_string(1 + variant);
    if (k[0] == 'I' || k.substr(0, 2) == "RI")
        return std::to_string(2 + variant);
    return k.find(',') == std::string::npos ? "8(4)" : "8(5,6)";
}
static void values(std::vector<Alt>& a, Range r, bool both, const std::string& pre, const std::string& post)
{
    const ll LO = -(1ll << 31) + 1, HI = (1ll << 31) - 1;
    std::set<ll> v = { r.lo - 1, r.lo, r.lo + 1, 0, r.hi - 1, r.hi, r.hi + 1, -1, LO, HI, 2 * r.hi + 2 };
    for (ll x : v)
        if (x >= LO && x <= HI)
        {
            bool in = x >= r.lo && x <= r.hi;
            bool open = both && !in && x >= (r.hi == 15 ? 0 : -(r.hi + 1)) && x <= 2 * r.hi + 1;
            a.push_back({ pre + std::to_string(x) + post, in ? GOOD : open ? OPEN : BAD });
        }
}
static std::vector<Alt> alternatives(const std::string& k)
{
    std::vector<Alt> a;
    a.push_back({ "", BAD });
    if (simple(k))
    {
        Range r;
        bool both = false;
        if (k == "R" || k == "M")
            r = { 0, 15 };
        else if (k == "V")
            r = { 0, 15 }, both = true; // 16 to 31 is a known finding
        else if (k[0] == 'I')
            r = field(k, 1), both = k.back() != 'U' && k.back() != 'S';
        else
            r = field(k, 2);
        values(a, r, both, "", "");
        a.push_back({ "1(2)", BAD });
        a.push_back({ "1(2,3)", BAD });
        a.push_back({ "1(,3)", BAD });
        a.push_back({ "REL", k[0] == 'R' && k.size() > 1 ? GOOD : BAD });
        a.push_back({ "UNDEF", BAD });
        return a;
    }
    auto open = k.find('('), comma = k.find(',');
    Range d = field(k, 1), b { 0, 15 };
    char f = comma == std::string::npos ? 0 : k[open + 1];
    // how a register in the place of the index has to be given is left open
    bool must = f == 'R' || f == 'V';
    if (!must)
        values(a, d, false, "", "");
    a.push_back({ "REL", must ? OPEN : GOOD });
    a.push_back({ "UNDEF", BAD });
    if (!f)
    {
        values(a, d, false, "", "(3)");
        values(a, b, false, "1(", ")");
        a.push_back({ "1(2,3)", BAD });
        a.push_back({ "1(,3)", BAD });
    }
    else
    {
        Range x { 0, 15 };
        if (f == 'L')
            x = { 0, 1ll << num(k.substr(open + 2)) };
        values(a, d, false, "", "(2,3)");
        values(a, x, f == 'V', "1(", ",3)");
        values(a, b, false, "1(2,", ")");
        if (!must)
        {
            values(a, d, false, "", "(,3)");
            values(a, b, false, "1(,", ")");
            values(a, d, false, "", "(2)");
            values(a, x, false, "1(", ")");
        }
    }
    a.push_back({ "UNDEF(3)", BAD });
    a.push_back({ "1(UNDEF)", BAD });
    return a;
}

// ---- programs -------------------------------------------------------------------------------------------
struct Stmt
{
    std::string operands; // complete operand field
    Verdict v;
    bool undef;                                 // an undefined symbol hides the other operands
    std::vector<std::pair<size_t, size_t>> bad; // columns (within the operand field) of the operands to be diagnosed
};
static Stmt compose(const std::vector<std::string>& t, const std::vector<Verdict>& v)
{
    Stmt s { "", GOOD, false, {} };
    for (auto& x : t)
        s.undef |= x.find("UNDEF") != std::string::npos;
    for (size_t i = 0; i < t.size(); ++i)
    {
        if (i)
            s.operands += ",";
        size_t b = s.operands.size();
        s.operands += t[i];
        if (v[i] == BAD && (!s.undef || t[i].find("UNDEF") != std::string::npos))
            s.bad.emplace_back(b, s.operands.size());
        if (v[i] == BAD || (v[i] == OPEN && s.v == GOOD))
            s.v = v[i];
    }
    return s;
}
static std::string late(std::string t, std::set<ll>& used) // numbers -> symbols defined at the end
{
    std::string o;
    for (size_t i = 0; i < t.size();)
    {
        if (isdigit(t[i]) || (t[i] == '-' && i + 1 < t.size() && isdigit(t[i + 1])))
        {
            size_t e = i + 1;
            while (e < t.size() && isdigit(t[e]))
                ++e;
            ll v = num(t.substr(i, e - i));
            used.insert(v);
            o += v < 0 ? "N" + std::to_string(-v) : "P" + std::to_string(v);
            i = e;
        }
        else if (isalpha(t[i]))
            while (i < t.size() && isalpha(t[i]))
                o += t[i++];
        else
            o += t[i++];
    }
    return o;
}

static void judge(Run& r, const std::string& name, int size, const std::vector<Stmt>& st, const std::set<ll>& used, int first = 0)
{
    const size_t COL = 17;
    std::string text = "REL CSECT\n";
    std::string odd;
    if (first)
        text += " DS XL" + std::to_string(first) + "\n";
    size_t head = first ? 2 : 1;
    for (size_t i = 0; i < st.size(); ++i)
    {
        char b[64];
        snprintf(b, sizeof b, "S%-7zu%-8s ", i, name.c_str());
        std::string line = b + st[i].operands;
        require(line.size() <= 71 && std::string(b).size() == COL, "line too long: " + line);
        text += line + "\n";
    }
    text += "THEEND DS 0C\n";
    for (ll v : used)
        text += (v < 0 ? "N" + std::to_string(-v) : "P" + std::to_string(v)) + " EQU " + std::to_string(v) + "\n";
    text += " END\n";
    hl::Program p(text);
    std::vector<std::vector<const hl::Diag*>> by(st.size());
    for (auto& d : p.diags)
    {
        require(d.l1 >= head && d.l1 < head + st.size(), "diagnostic elsewhere: " + d.str() + " " + d.msg);
        by[d.l1 - head].push_back(&d);
    }
    for (size_t i = 0; i < st.size(); ++i)
    {
        auto& s = st[i];
        std::string what = name + " " + s.operands + ": ";
        std::string got;
        bool err = false;
        for (auto* d : by[i])
        {
            got += d->str() + " " + d->msg + "; ";
            err |= d->sev == (int)hl::diagnostic_severity::error;
        }
        if (s.v == GOOD)
            require(by[i].empty(), what + "valid statement diagnosed: " + got);
        if (s.v == BAD)
        {
            require(err, what + "invalid statement not diagnosed as an error: " + got);
            bool some = false; // of several undefined symbols only one has to be reported
            for (auto [b, e] : s.bad)
            {
                bool at = false;
                for (auto* d : by[i])
                    at |= d->l2 == d->l1 && d->c1 >= COL + b && d->c2 <= COL + e && d->c1 <= d->c2;
                some |= at;
                require(at || (s.undef && (some || e != s.bad.back().second)), what + "the operand at column " + std::to_string(COL + b) + " is not the one diagnosed: " + got);
            }
        }
        ++r.transitions;
        if (s.v != GOOD)
            r.state(what);
    }
    // storage
    int base = first + first % 2;
    for (size_t i = 0; i <= st.size(); ++i)
    {
        auto id = i < st.size() ? "S" + std::to_string(i) : std::string("THEEND");
        auto* sym = p.ctx().ord_ctx.get_symbol(p.ctx().ids().add(id));
        require(sym && sym->kind() == hl::context::symbol_value_kind::RELOC, name + ": no address of " + id);
        require_eq((ll)sym->value().get_reloc().offset(), (ll)(base + (int)i * size), name + ": address of statement " + std::to_string(i));
        if (i < st.size())
        {
            require_eq((int)sym->attributes().length(), size, name + ": length attribute");
            require_eq((int)sym->attributes().type(), 0xC9, name + ": type attribute is I");
        }
    }
    ++r.validated;
}

int main(int argc, char** argv)
{
    Run r(argc, argv, 4);
    std::map<std::string, Instr> base;
    std::vector<std::pair<Instr, std::set<int>>> all; // the instruction as written, allowed numbers of operands
    std::istringstream in(TABLE);
    for (std::string line; std::getline(in, line);)
    {
        std::istringstream l(line);
        std::string kind, name, what;
        if (!(l >> kind >> name))
            continue;
        if (kind == "M")
        {
            Instr i;
            i.name = name;
            l >> what >> i.size >> i.optional;
            while (l >> what)
                i.ops.push_back(what);
            base[name] = i;
            std::set<int> n;
            for (int k = (int)i.ops.size() - i.optional; k <= (int)i.ops.size(); ++k)
                n.insert(k);
            all.emplace_back(i, n);
        }
        else
        {
            l >> what;
            const Instr& b = base.at(what);
            std::set<size_t> rep;
            while (l >> what)
                rep.insert((size_t)num(what));
            Instr i { name, b.size, 0, {} };
            int opt = 0;
            for (size_t k = 0; k < b.ops.size(); ++k)
                if (!rep.count(k))
                {
                    i.ops.push_back(b.ops[k]);
                    opt += k + b.optional >= b.ops.size();
                }
                else if (k + b.optional >= b.ops.size())
                    opt = 0;
            std::set<int> n;
            for (int k = (int)i.ops.size() - opt; k <= (int)i.ops.size(); ++k)
                n.insert(k);
            all.emplace_back(i, n);
        }
    }
    for (auto& [i, counts] : all)
    {
        size_t n = i.ops.size();
        // numbers of operands
        r.check([&] { return i.name + " count"; },
            [&] {
                std::vector<Stmt> st;
                for (size_t k = 0; k <= n + 2; ++k)
                {
                    std::vector<std::string> t;
                    for (size_t j = 0; j < k; ++j)
                        t.push_back(j < n ? good(i.ops[j]) : "1");
                    Stmt s = compose(t, std::vector<Verdict>(k, GOOD));
                    if (!counts.count((int)k))
                        s.v = n ? BAD : GOOD; // without operands the rest is a remark
                    st.push_back(s);
                }
                if (n)
                    r.interesting();
                judge(r, i.name, i.size, st, {});
                judge(r, i.name, i.size, st, {}, 1);
                judge(r, i.name, i.size, st, {}, 2);
            });
        if (!n)
            continue;
        std::vector<std::vector<Alt>> alt;
        for (auto& k : i.ops)
            alt.push_back(alternatives(k));
        // one operand varied, written directly and by symbols defined later
        for (int how = 0; how < 2; ++how)
            r.check([&] { return i.name + (how ? " one late" : " one"); },
                [&] {
                    std::vector<Stmt> st;
                    std::set<ll> used;
                    for (size_t k = 0; k < n; ++k)
                        for (auto& a : alt[k])
                        {
                            if (n == 1 && a.text.empty())
                                continue;
                            std::vector<std::string> t;
                            std::vector<Verdict> v;
                            for (size_t j = 0; j < n; ++j)
                            {
                                std::string x = j == k ? a.text : good(i.ops[j]);
                                t.push_back(how ? late(x, used) : x);
                                v.push_back(j == k ? a.v : GOOD);
                            }
                            st.push_back(compose(t, v));
                        }
                    r.interesting();
                    judge(r, i.name, i.size, st, used);
                });
        // the location counter in an operand is the address of the instruction, after alignment
        r.check([&] { return i.name + " location"; },
            [&] {
                for (int first = 1; first < 3; ++first)
                    for (size_t k = 0; k < n; ++k)
                    {
                        Range f = i.ops[k] == "R" || i.ops[k] == "M" ? Range { 0, 15 } : field(i.ops[k], i.ops[k].substr(0, 2) == "RI" ? 2 : 1);
                        if (f.hi > 1 << 30 || i.ops[k] == "V" || isdigit(i.ops[k].back()))
                            continue;
                        for (int v = 0; v < 2; ++v)
                        {
                            std::vector<Stmt> st; // alone, so that it is the one to be aligned
                            if (v && simple(i.ops[k]) == false && (i.ops[k].find("(R") != std::string::npos || i.ops[k].find("(V") != std::string::npos))
                                continue;
                            std::vector<std::string> t;
                            std::vector<Verdict> w;
                            for (size_t j = 0; j < n; ++j)
                            {
                                std::string x = good(i.ops[j]);
                                if (j == k)
                                    x = std::to_string(f.hi + v) + "+*-S" + std::to_string(st.size()) + (simple(i.ops[j]) ? "" : x.substr(1));
                                t.push_back(x);
                                w.push_back(j == k && v ? BAD : GOOD);
                            }
                            st.push_back(compose(t, w));
                            judge(r, i.name, i.size, st, {}, first);
                        }
                    }
                r.interesting();
            });
        // three operands varied over the ends of their ranges
        if (r.thorough())
            for (size_t k = 0; k < n; ++k)
                for (size_t l = k + 1; l < n; ++l)
                    for (size_t m = l + 1; m < n; ++m)
                        r.check([&] { return i.name + " three " + std::to_string(k) + std::to_string(l) + std::to_string(m); },
                            [&] {
                                auto some = [&](size_t at) {
                                    std::vector<Alt> v;
                                    for (auto& x : alt[at])
                                        if (x.text.find("UNDEF") == std::string::npos && x.text.size() < 10)
                                            v.push_back(x);
                                    return v;
                                };
                                for (auto& a : some(k))
                                {
                                    std::vector<Stmt> st;
                                    for (auto& b : some(l))
                                        for (auto& c : some(m))
                                        {
                                            std::vector<std::string> t;
                                            std::vector<Verdict> v;
                                            for (size_t j = 0; j < n; ++j)
                                            {
                                                const Alt* x = j == k ? &a : j == l ? &b : j == m ? &c : nullptr;
                                                t.push_back(x ? x->text : good(i.ops[j]));
                                                v.push_back(x ? x->v : GOOD);
                                            }
                                            st.push_back(compose(t, v));
                                        }
                                    judge(r, i.name, i.size, st, {});
                                }
                                r.interesting();
                            });
        // two operands varied
        for (size_t k = 0; k < n; ++k)
            for (size_t l = k + 1; l < n; ++l)
                r.check([&] { return i.name + " two " + std::to_string(k) + " " + std::to_string(l); },
                    [&] {
                        std::vector<Stmt> st;
                        for (auto& a : alt[k])
                            for (auto& b : alt[l])
                            {
                                std::vector<std::string> t;
                                std::vector<Verdict> v;
                                for (size_t j = 0; j < n; ++j)
                                {
                                    t.push_back(j == k ? a.text : j == l ? b.text : good(i.ops[j], 1));
                                    v.push_back(j == k ? a.v : j == l ? b.v : GOOD);
                                }
                                st.push_back(compose(t, v));
                            }
                        r.interesting();
                        judge(r, i.name, i.size, st, {});
                    });
    }
    // known findings, each on its own
    auto finding = [&](const std::string& nm, const std::string& name, const std::string& ops) {
        r.check([&] { return "finding " + nm + " " + name + " " + ops; }, [&] { judge(r, name, 6, { { ops, GOOD, false, {} } }, {}); });
    };
    for (int v = 16; v < 32; ++v)
    {
        finding("vector", "VLR", std::to_string(v) + ",1");
        finding("vector", "VGEF", "1,1(" + std::to_string(v) + ",2),0");
    }
    finding("class-mask", "VFTCI", "1,2,4095,3,0");
    r.finish();
}
