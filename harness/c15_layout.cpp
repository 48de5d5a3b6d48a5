// C15: location counter layout against a reference simulation.
#include "hl_util.h"
#include <functional>
#include <optional>
#include "context/ordinary_assembly/section.h"
#include "context/ordinary_assembly/location_counter.h"
using namespace verif;

// One statement. Storage statements have a label of their own (L<index>).
struct St
{
    enum Kind { STORE, SECT, LOCTR, ORG } k;
    std::string text; // after the label; # is the number of the first storage statement
    int align = 1, len = 0; // STORE
    int align2 = 1, len2 = 0; // a second operand
    std::string name; // SECT, LOCTR
    // ORG: base 0 none (next available), 1 current location, 2 label ref, with displacement
    int base = 0, disp = 0, boundary = 0, offset = 0;
    int ref = -1; // index of the statement whose label is the base
    bool late = false; // the displacement or length is defined after the use
};
static St store(std::string t, int al, int len, bool late = false)
{
    St s { St::STORE, t };
    s.align = al;
    s.len = len;
    s.late = late;
    return s;
}
static St sect(std::string n, std::string op) { St s { St::SECT, op }; s.name = n; return s; }
static St loctr(std::string n) { St s { St::LOCTR, "LOCTR" }; s.name = n; return s; }
static St org(std::string t, int base, int disp, int boundary = 0, int offset = 0, int ref = -1, bool late = false)
{
    St s { St::ORG, t };
    s.base = base, s.disp = disp, s.boundary = boundary, s.offset = offset, s.ref = ref, s.late = late;
    return s;
}

struct Ctr
{
    std::string name;
    int start = 0, cur = 0, max = 0; // cur and max are absolute in the section
};
struct Sec
{
    std::string name;
    std::vector<Ctr> c;
};
struct Addr
{
    std::string sec;
    int ctr, off;
};
struct Outcome
{
    std::map<int, Addr> lab; // statement -> address
    std::set<int> err; // statements that must be diagnosed
    bool skip = false;
};

// the whole layout, with the starts of the location counters found by iteration
static Outcome layout(const std::vector<St>& p)
{
    std::map<std::string, int> starts; // section/counter -> start
    Outcome o;
    for (int round = 0; round < 12; ++round)
    {
        o = {};
        std::vector<Sec> secs;
        int cs = -1, cc = 0;
        auto need = [&] {
            if (cs < 0)
            {
                secs.push_back({ "", { Ctr { "" } } });
                cs = (int)secs.size() - 1, cc = 0;
            }
        };
        std::map<std::string, int> cur_of; // section -> counter in use
        for (size_t i = 0; i < p.size(); ++i)
        {
            auto& s = p[i];
            if (s.k == St::SECT)
            {
                if (cs >= 0)
                    cur_of[secs[cs].name] = cc;
                int f = -1;
                for (size_t k = 0; k < secs.size(); ++k)
                    if (secs[k].name == s.name)
                        f = (int)k;
                if (f < 0)
                {
                    secs.push_back({ s.name, { Ctr { s.name } } });
                    f = (int)secs.size() - 1;
                }
                cs = f;
                cc = cur_of.count(s.name) ? cur_of[s.name] : 0;
                continue;
            }
            need();
            if (s.k == St::LOCTR)
            {
                cur_of[secs[cs].name] = cc;
                bool found = false;
                for (size_t k = 0; k < secs.size(); ++k)
                    for (size_t m = 0; m < secs[k].c.size(); ++m)
                        if (secs[k].c[m].name == s.name)
                            cs = (int)k, cc = (int)m, found = true;
                if (!found)
                {
                    int st = starts[secs[cs].name + "/" + s.name];
                    secs[cs].c.push_back({ s.name, st, st, st });
                    cc = (int)secs[cs].c.size() - 1;
                }
                continue;
            }
            Ctr& c = secs[cs].c[cc];
            auto up = [](int v, int a) { return (v + a - 1) / a * a; };
            if (s.k == St::STORE)
            {
                c.cur = up(c.cur, s.align);
                o.lab[(int)i] = { secs[cs].name, cc, c.cur };
                c.cur += s.len;
                if (s.len2)
                    c.cur = up(c.cur, s.align2) + s.len2;
                c.max = std::max(c.max, c.cur);
                continue;
            }
            int v;
            if (s.base == 0)
                v = c.max;
            else if (s.base == 1)
                v = c.cur + s.disp;
            else
            {
                auto it = o.lab.find(s.ref);
                if (it == o.lab.end() || it->second.sec != secs[cs].name || it->second.ctr != cc)
                {
                    o.err.insert((int)i); // not defined before, another section or location counter
                    continue;
                }
                v = it->second.off + s.disp;
            }
            if (s.boundary)
                v = v < 0 ? -up(v, s.boundary) : up(v, s.boundary);
            v += s.offset;
            if (v < c.start)
            {
                if (c.start)
                    o.skip = true; // into the location counter before this one: left open
                o.err.insert((int)i);
                continue;
            }
            c.cur = v;
            c.max = std::max(c.max, c.cur);
        }
        // the location counters of a section follow each other
        bool stable = true;
        for (auto& s : secs)
        {
            int at = 0;
            for (auto& c : s.c)
            {
                int& st = starts[s.name + "/" + c.name];
                if (st != at && &c != &s.c[0])
                    st = at, stable = false;
                at += c.max - c.start;
            }
        }
        if (stable)
            return o;
    }
    o.skip = true;
    return o;
}

static std::string text_of(const std::vector<St>& p)
{
    std::string t;
    for (size_t i = 0; i < p.size(); ++i)
    {
        auto& s = p[i];
        std::string l = s.k == St::STORE ? "L" + std::to_string(i) : s.k == St::ORG ? "" : s.name;
        t += l + std::string(l.size() < 4 ? 4 - l.size() : 1, ' ') + s.text + "\n";
    }
    t += "F1  EQU 1\nF3  EQU 3\nG2  EQU H2\nH2  EQU 2\n";
    return t;
}

static void run_case(Run& r, const std::vector<St>& p, bool known = false)
{
    auto o = layout(p);
    if (o.skip)
        return;
    if (!known)
    {
        // what the known findings are about
        size_t late_org = 0, orgs = 0, ctrs = 0, late_len = 0, neg = 0;
        for (auto& s : p)
        {
            orgs += s.k == St::ORG;
            late_org += s.k == St::ORG && s.late;
            late_len += s.k == St::STORE && s.late;
            neg += s.k == St::ORG && s.offset < 0;
            ctrs += s.k == St::LOCTR;
        }
        if ((late_org && (orgs > 1 || ctrs)) || ((late_org || late_len || neg) && !o.err.empty()))
            return;
    }
    r.interesting();
    std::string t = text_of(p);
    hl::Program g(t);
    auto ctx = "\n" + t + g.show_diags();
    std::set<int> diag;
    for (auto& d : g.diags)
    {
        require(d.l1 < p.size(), "diagnosed line " + d.str() + ctx);
        diag.insert((int)d.l1);
    }
    require(diag == o.err, "diagnosed statements differ: expected " + [&] { std::string s; for (int x : o.err) s += std::to_string(x) + " "; return s; }() + ctx);
    for (auto& [i, a] : o.lab)
    {
        auto s = g.ctx().ord_ctx.get_symbol(g.ctx().ids().add("L" + std::to_string(i)));
        require(s, "no symbol L" + std::to_string(i) + ctx);
        require(s->kind() == hl::context::symbol_value_kind::RELOC, "L" + std::to_string(i) + " is not relocatable" + ctx);
        auto& v = s->value().get_reloc();
        require(v.bases().size() == 1 && v.bases()[0].second == 1, "L" + std::to_string(i) + " is not simply relocatable" + ctx);
        require_eq(*v.bases()[0].first.owner->name, a.sec, "section of L" + std::to_string(i) + ctx);
        require(!v.has_dependant_space(), "L" + std::to_string(i) + " has no final value" + ctx);
        require_eq(v.offset(), a.off, "offset of L" + std::to_string(i) + ctx);
        ++r.transitions;
    }
    ++r.validated;
    r.state(t);
}
static void words(size_t n, size_t k, const std::function<void(const std::vector<size_t>&)>& f)
{
    std::vector<size_t> w(n, 0);
    while (true)
    {
        f(w);
        size_t i = 0;
        while (i < n && ++w[i] == k)
            w[i++] = 0;
        if (i == n)
            break;
    }
}
static std::string brief(const std::vector<St>& p)
{
    std::string s;
    for (auto& x : p)
        s += (s.empty() ? "" : "; ") + (x.name.empty() ? "" : x.name + " ") + x.text;
    return s;
}

int main(int argc, char** argv)
{
    Run r(argc, argv, 16);
    bool th = r.thorough();
    St x = store("DS X", 1, 1), f = store("DS F", 4, 4), d0 = store("DS 0D", 8, 0), lr = store("LR 1,1", 2, 2), x5 = store("DS XL5", 1, 5);
    St la = store("LA 1,0", 2, 4), h3 = store("DS 3H", 2, 6), dup = store("DC 2FL3'1'", 1, 6), ch = store("DC C'abc',F'1'", 1, 3);
    ch.align2 = 4, ch.len2 = 4;
    St A = sect("A", "CSECT"), B = sect("B", "CSECT"), D = sect("D", "DSECT"), P = loctr("P"), Q = loctr("Q");
    St o0 = org("ORG", 0, 0), o8 = org("ORG ,8", 0, 0, 8), o83 = org("ORG ,8,3", 0, 0, 8, 3);
    St op = org("ORG *+3", 1, 3), om = org("ORG *-1", 1, -1), om5 = org("ORG *-5", 1, -5), oal = org("ORG *,4", 1, 0, 4), oal1 = org("ORG *,8,1", 1, 0, 8, 1), oalm = org("ORG *,4,-2", 1, 0, 4, -2);
    auto ol = [&](int ref, int disp = 0, int b = 0, int of = 0) {
        return org("ORG L" + std::to_string(ref) + (disp ? (disp > 0 ? "+" : "") + std::to_string(disp) : "") + (b ? "," + std::to_string(b) : "") + (of ? "," + std::to_string(of) : ""), 2, disp, b, of, ref);
    };
    St fx = store("DS CL(F3)", 1, 3, true), ff = store("DS (F1)F", 4, 4, true), fg = store("DS (G2)X", 1, 2, true);
    St of = org("ORG *+F3", 1, 3, 0, 0, -1, true), ofg = org("ORG *+G2", 1, 2, 0, 0, -1, true);
    auto family = [&](const std::string& nm, std::vector<St> pre, std::vector<St> ops, size_t n) {
        for (size_t len = 1; len <= n; ++len)
            words(len, ops.size(), [&](const std::vector<size_t>& w) {
                auto mk = [&] {
                    auto p = pre;
                    for (auto k : w)
                        p.push_back(ops[k]);
                    p.push_back(store("DS X", 1, 1));
                    return p;
                };
                bool back = false, known = false; // the pad of a second operand after ORG *,4,-2 is a known finding
                for (auto k : w)
                    back |= ops[k].text == oalm.text, known |= back && ops[k].len2;
                if (known)
                    return;
                r.check([&] { return nm + " " + brief(mk()); }, [&] { run_case(r, mk()); });
            });
    };
    // one section, every storage statement and origin
    family("plain", { A, x }, { x, f, d0, lr, x5, la, h3, dup, ch, o0, o8, o83, op, om, om5, oal, oal1, oalm, ol(1), ol(1, 2), ol(1, 0, 4, 2), ol(1, -1) }, th ? 4 : 3);
    // sections and counters
    family("sections", { A, x }, { x, f, A, B, D, P, Q, o0, om, ol(1) }, th ? 6 : 5);
    family("private", {}, { x, f, A, P, o0, op }, th ? 7 : 5);
    // origins within location counters
    family("loctr", { A, f, P, x, x }, { x, f, A, P, o0, op, om, oal, ol(3), ol(3, 1) }, th ? 5 : 4);
    // what is defined later
    family("late", { A, x }, { x, f, fx, ff, fg, of, ofg, o0, om, ol(1), P, A }, th ? 5 : 4);
    auto finding = [&](const std::string& nm, std::vector<St> p) {
        r.check([&] { return "finding " + nm + " " + brief(p); }, [&] { run_case(r, p, true); });
    };
    finding("late-origin-counter", { A, x, of, f, P, x });
    finding("late-origin-second", { A, x, fx, om, of, x });
    finding("underflow", { A, x, oalm, om5, f, x });
    finding("second-operand", { A, x, oalm, ch, x });
    return r.finish();
}
