// C17: text taken through COPY members and library macros behaves as if written in place.
#include "hl_util.h"
#include <functional>
#include "context/ordinary_assembly/symbol.h"
using namespace verif;

struct Place
{
    std::string file;
    size_t line;
};
// a program in files, with the place of every line of the inlined program
struct Layout
{
    std::map<std::string, std::vector<std::string>> files; // PROG = open code
    std::vector<Place> where;                               // of inlined line i
    void put(const std::string& file, const std::string& l, bool counted = true)
    {
        if (counted)
            where.push_back({ file, files[file].size() });
        files[file].push_back(l);
    }
};
static std::string text(const std::vector<std::string>& v)
{
    std::string s;
    for (auto& l : v)
        s += l + "\n";
    return s;
}
struct Out
{
    std::string vars;
    struct Sym
    {
        std::string value, file;
        size_t line, col;
    };
    std::map<std::string, Sym> syms;
    std::vector<hl::Diag> diags;
    size_t end_line;
};
static Out run(const Layout& l)
{
    std::map<std::string, std::string> libs;
    for (auto& [n, v] : l.files)
        if (n != "PROG")
            libs[n] = text(v);
    hl::Program g(text(l.files.at("PROG")), libs);
    Out o;
    o.end_line = l.files.at("PROG").size();
    for (auto v : { "T", "I" })
    {
        auto s = g.ctx().get_var_sym(g.ctx().ids().add(v));
        if (!s)
            o.vars += "-;";
        else if (auto c = dynamic_cast<hl::context::set_symbol<std::string>*>(s.get()))
            o.vars += c->get_value() + ";";
        else if (auto a = dynamic_cast<hl::context::set_symbol<int>*>(s.get()))
            o.vars += std::to_string(a->get_value()) + ";";
    }
    for (auto& [id, s] : g.ctx().ord_ctx.get_all_symbols())
    {
        std::string v;
        auto& x = s.value();
        if (x.value_kind() == hl::context::symbol_value_kind::ABS)
            v = std::to_string(x.get_abs());
        else if (x.value_kind() == hl::context::symbol_value_kind::RELOC)
            v = "+" + std::to_string(x.get_reloc().offset());
        else
            v = "?";
        v += "," + std::to_string(s.attributes().length());
        o.syms[*id] = { v, s.symbol_location.file, s.symbol_location.pos.line, s.symbol_location.pos.column };
    }
    o.diags = g.diags;
    return o;
}
// the observable result; with places: of the inlined program, its lines translated to those of the cut one
static std::string show(const Out& o, const std::vector<Place>* w)
{
    auto at = [&](const std::string& file, size_t line) {
        if (!w || file != "PROG")
            return file + ":" + std::to_string(line);
        if (line >= w->size())
            return std::string("end");
        return (*w)[line].file + ":" + std::to_string((*w)[line].line);
    };
    std::string s = o.vars + " | ";
    for (auto& [n, v] : o.syms)
        s += n + "=" + v.value + (n.empty() ? "" : "@" + at(v.file, v.line) + ":" + std::to_string(v.col)) + " ";
    std::set<std::string> d;
    for (auto& x : o.diags)
        d.insert(x.file == "PROG" && x.l1 >= o.end_line ? x.code + "@end"
                                                         : x.code + "@" + at(x.file, x.l1) + ":" + std::to_string(x.c1)
                    + "-" + at(x.file, x.l2) + ":" + std::to_string(x.c2));
    s += "| ";
    for (auto& x : d)
        s += x + " ";
    return s;
}
static void compare(Run& r, const Out& inl, const Layout& cut)
{
    auto a = show(inl, &cut.where), b = show(run(cut), nullptr);
    ++r.transitions;
    if (a != b)
    {
        std::string s;
        for (auto& [n, v] : cut.files)
            s += n + ":\n" + text(v);
        require(false, s + "in place: " + a + "\ncut:      " + b);
    }
    ++r.validated;
    if (!inl.diags.empty())
        r.interesting();
}
static void compare(Run& r, const Layout& inl, const Layout& cut) { compare(r, run(inl), cut); }

// ways of cutting n lines into members: a tree of COPY members over [0,n)
struct Cut
{
    struct M
    {
        std::string name;
        int from, to, parent; // parent member or -1
    };
    std::vector<M> m;
    std::string str() const
    {
        std::string s;
        for (auto& x : m)
            s += x.name + std::to_string(x.from) + std::to_string(x.to) + (x.parent < 0 ? "" : "n");
        return s;
    }
};
static std::vector<Cut> cuts(int n, bool pairs, bool deep)
{
    std::vector<Cut> v;
    for (int i = 0; i <= n; ++i)
        for (int j = i; j <= n; ++j)
        {
            v.push_back({ { { "MA", i, j, -1 } } });
            if (pairs)
                for (int k = j; k <= n; ++k)
                    for (int l = k + 1; l <= n; ++l)
                        if (j > i)
                            v.push_back({ { { "MA", i, j, -1 }, { "MB", k, l, -1 } } });
            if (deep)
                for (int k = i; k <= j; ++k)
                    for (int l = k; l <= j; ++l)
                    {
                        v.push_back({ { { "MA", i, j, -1 }, { "MB", k, l, 0 } } });
                        if (l > k + 1)
                            v.push_back({ { { "MA", i, j, -1 }, { "MB", k, l, 0 }, { "MC", k, k + 1, 1 } } });
                    }
        }
    return v;
}
// writes lines [from,to) of body into file, taking the members below `parent` out of it
static void emit(Layout& l, const std::string& file, const std::vector<std::string>& body, int from, int to, const Cut& c, int parent)
{
    size_t next = 0;
    auto member_at = [&](int i) -> int {
        for (; next < c.m.size(); ++next)
            if (c.m[next].parent == parent && c.m[next].from == i)
                return (int)next++;
            else if (c.m[next].parent == parent && c.m[next].from > i)
                return -1;
        return -1;
    };
    for (int i = from; i <= to;)
    {
        int m;
        bool jumped = false;
        while ((m = member_at(i)) >= 0)
        {
            l.put(file, "  COPY " + c.m[m].name, false);
            l.files[c.m[m].name]; // may be empty
            emit(l, c.m[m].name, body, c.m[m].from, c.m[m].to, c, m);
            if (c.m[m].to > i)
            {
                i = c.m[m].to;
                jumped = true;
            }
        }
        if (i >= to)
            break;
        if (jumped)
            continue;
        l.put(file, body[i]);
        ++i;
    }
}
// member before/after the cut region is only allowed where macro definitions are whole
static bool balanced(const std::vector<std::string>& body, int from, int to)
{
    int d = 0;
    for (int i = from; i < to; ++i)
    {
        if (body[i] == "  MACRO")
            ++d;
        if (body[i] == "  MEND" && --d < 0)
            return false;
    }
    return d == 0;
}

static const std::vector<std::string> PRO = { "  GBLC &T", "  GBLA &I", "  ACTR 12", "  MACRO", "  M1 &P", "  GBLC &T",
    "  GBLA &I", "&T SETC '&T.m&P'", "  AIF (&I GT 2).E", "  LR &P", "K&P DS F", ".E MEND" };

// statements of the body; %d = its position
static const std::vector<std::string> STM = {
    "&T SETC '&T.%d'",
    "&I SETA &I+1",
    "  AGO .X",
    ".X ANOP",
    "  AIF (&I LT 3).X",
    "L&I DS X",
    "  LR 1",
    "  M1 %d",
    "* comment",
    "  COPY Q",
    "&I SETA &I+L'F",
    "F DS CL2",
    "  AIF (L'F EQ 2).X",
    "  NOSUCH &I,(",
    "&T SETC '&T%d.-                                                         X\n               %d&I'",
};
static const std::vector<std::string> Q = { "&T SETC '&T.q'", "  LR &I" };
static std::string fill(std::string s, int i)
{
    size_t p;
    while ((p = s.find("%d")) != std::string::npos)
        s.replace(p, 2, std::to_string(i));
    return s;
}
static std::vector<std::string> body_of(const std::vector<int>& w, const std::vector<std::string>& alpha)
{
    std::vector<std::string> b;
    for (size_t i = 0; i < w.size(); ++i)
    {
        auto s = fill(alpha[w[i]], (int)i);
        auto nl = s.find('\n');
        b.push_back(s.substr(0, nl));
        if (nl != std::string::npos)
            b.push_back(s.substr(nl + 1));
    }
    return b;
}
static bool splits_continuation(const std::vector<std::string>& b, const Cut& c)
{
    for (auto& m : c.m)
        for (int e : { m.from, m.to })
            if (e > 0 && e < (int)b.size() && b[e - 1].size() > 71)
                return true;
    return false;
}
static void each_word(int n, int k, std::function<void(const std::vector<int>&)> f)
{
    std::vector<int> w(n);
    for (;;)
    {
        f(w);
        int i = n - 1;
        while (i >= 0 && ++w[i] == k)
            w[i--] = 0;
        if (i < 0)
            return;
    }
}
static std::string word_name(const std::vector<int>& w)
{
    std::string s;
    for (int x : w)
        s += char('a' + x);
    return s;
}

int main(int argc, char** argv)
{
    Run r(argc, argv, 16);
    // ---- open code --------------------------------------------------------------------------------
    auto open_code = [&](const std::vector<int>& w, const std::vector<std::string>& alpha, const std::vector<Cut>& cs, const char* fam) {
        r.check([&] { return std::string(fam) + " " + word_name(w); },
            [&] {
                auto body = body_of(w, alpha);
                Layout inl;
                auto close = [](Layout& l) {
                    for (auto t : { "&T SETC '&T.E'", "  LR 1,2,3" })
                        l.put("PROG", t);
                    l.files["Q"] = Q;
                };
                for (auto& p : PRO)
                    inl.put("PROG", p);
                for (auto& b : body)
                    inl.put("PROG", b);
                close(inl);
                auto ref = run(inl);
                for (auto& c : cs)
                {
                    if (c.m.back().to > (int)body.size() || splits_continuation(body, c))
                        continue;
                    bool whole = true;
                    for (auto& m : c.m)
                        whole = whole && balanced(body, m.from, m.to);
                    if (!whole)
                        continue;
                    Layout cut;
                    for (auto& p : PRO)
                        cut.put("PROG", p);
                    emit(cut, "PROG", body, 0, (int)body.size(), c, -1);
                    close(cut);
                    compare(r, ref, cut);
                }
            });
    };
    int NS = (int)STM.size();
    {
        auto c2 = cuts(2, true, true), c3 = cuts(3, false, true);
        each_word(2, NS, [&](auto& w) { open_code(w, STM, c2, "open2"); });
        std::vector<Cut> c3s;
        for (auto& c : cuts(4, false, false))
            c3s.push_back(c);
        if (r.thorough())
            c3s = cuts(4, true, true);
        std::vector<std::string> S3 = STM;
        if (!r.thorough())
            S3 = { STM[0], STM[1], STM[2], STM[3], STM[4], STM[5], STM[6], STM[7], STM[10], STM[11], STM[14] };
        each_word(3, (int)S3.size(), [&](auto& w) { open_code(w, S3, c3s, "open3"); });
    }
    // control flow, four and five statements, deep cuts
    {
        std::vector<std::string> F(STM.begin(), STM.begin() + 5);
        auto cs = cuts(4, true, true);
        if (!r.thorough())
            cs = cuts(4, false, true), cs.erase(std::remove_if(cs.begin(), cs.end(), [](const Cut& c) { return c.m.size() > 2; }), cs.end());
        each_word(4, 5, [&](auto& w) {
            // without a branch and a target this is the previous family
            if (!r.thorough() && (!std::count(w.begin(), w.end(), 3) || (!std::count(w.begin(), w.end(), 2) && !std::count(w.begin(), w.end(), 4))))
                return;
            open_code(w, F, cs, "flow4");
        });
        if (r.thorough())
        {
            auto cs5 = cuts(5, false, true);
            each_word(5, 5, [&](auto& w) { open_code(w, F, cs5, "flow5"); });
        }
    }
    // macro definitions inside members, before and after calls
    {
        std::vector<std::string> D = { "  MACRO\n  M2", "  GBLC &T", "&T SETC '&T.%d'", "  MEND", "  M2", "  COPY Q", "  LR 1", "  AGO .X", ".X ANOP" };
        int n = r.thorough() ? 3 : 2;
        // MACRO M2 GBLC &T, k free statements, MEND, k free statements
        each_word(n + 2, 6, [&](auto& w) {
            std::vector<int> pick = { 2, 4, 5, 6, 7, 8 };
            std::vector<int> full = { 0, 1 };
            for (int i = 0; i < n; ++i)
                full.push_back(pick[w[i]]);
            full.push_back(3);
            for (int i = n; i < n + 2; ++i)
                full.push_back(pick[w[i]]);
            for (int i = 0; i < n; ++i)
                if (pick[w[i]] == 4)
                    return; // recursion
            auto body = body_of(full, D);
            int N = (int)body.size(), def = 3 + n + 1; // lines of the definition
            std::vector<Cut> cs = { { { { "MA", 0, N, -1 } } }, { { { "MA", 0, def, -1 } } }, { { { "MA", 3, def - 1, -1 } } },
                { { { "MA", 2, 4, -1 } } }, { { { "MA", 0, N, -1 }, { "MB", 0, def, 0 } } },
                { { { "MA", 0, def, -1 }, { "MB", 3, def - 1, 0 } } }, { { { "MA", 0, def, -1 }, { "MB", 3, 4, 0 } } },
                { { { "MA", 0, def, -1 }, { "MB", def, N, -1 } } }, { { { "MA", 3, 4, -1 }, { "MB", 4, def - 1, -1 } } } };
            open_code(full, D, cs, "def");
        });
    }
    // ---- inside a macro definition, called twice; the macro in place or in a library ------------------
    auto in_macro = [&](const std::vector<int>& w, const std::vector<std::string>& alpha, const std::vector<Cut>& cs, int lib, const char* fam) {
        r.check([&] { return std::string(fam) + " " + word_name(w) + (lib ? " L" : ""); },
            [&] {
                auto body = body_of(w, alpha);
                const std::vector<std::string> head = { "  MACRO", "&N M3 &P", "  GBLC &T", "  GBLA &I", "  ACTR 12" },
                                               tail = { "&T SETC '&T.e'", "  MEND" },
                                               calls = { "  M3 1", "&T SETC '&T.-'", "  M3 2", "&T SETC '&T.E'", "  LR 1,2,3" };
                auto put = [](Layout& l, const std::string& f, const std::vector<std::string>& v) {
                    for (auto& x : v)
                        l.put(f, x);
                };
                Layout inl;
                for (auto* v : { &PRO, &head, (const std::vector<std::string>*)&body, &tail, &calls })
                    put(inl, "PROG", *v);
                inl.files["Q"] = Q;
                auto ref = run(inl);
                for (auto& c : cs)
                {
                    if ((!c.m.empty() && c.m.back().to > (int)body.size()) || splits_continuation(body, c))
                        continue;
                    Layout cut;
                    std::string f = lib ? "M3" : "PROG";
                    put(cut, "PROG", PRO);
                    put(cut, f, head);
                    emit(cut, f, body, 0, (int)body.size(), c, -1);
                    put(cut, f, tail);
                    put(cut, "PROG", calls);
                    cut.files["Q"] = Q;
                    compare(r, ref, cut);
                }
            });
    };
    {
        auto alpha = STM;
        alpha.push_back("  MEXIT");
        alpha.push_back("  MNOTE 4,'&P'");
        int n = (int)alpha.size();
        std::vector<Cut> none = { {} };
        each_word(2, n, [&](auto& w) {
            in_macro(w, alpha, cuts(2, true, true), 0, "mac2");
            in_macro(w, alpha, cuts(2, false, true), 1, "mac2");
            in_macro(w, alpha, none, 1, "lib2");
        });
        auto c3 = cuts(3, false, false);
        if (r.thorough())
            c3 = cuts(3, true, true);
        auto a3 = alpha;
        if (!r.thorough())
            a3 = { STM[0], STM[2], STM[3], STM[4], STM[5], STM[6], STM[7], STM[9], "  MEXIT" };
        each_word(3, (int)a3.size(), [&](auto& w) {
            in_macro(w, a3, c3, 0, "mac3");
            in_macro(w, a3, none, 1, "lib3");
            if (r.thorough())
                in_macro(w, a3, c3, 1, "mac3");
        });
        std::vector<std::string> F(STM.begin(), STM.begin() + 5);
        F.push_back("  MEXIT");
        auto c4 = cuts(4, false, r.thorough());
        each_word(4, 6, [&](auto& w) { in_macro(w, F, c4, 0, "mflow4"); });
    }
    // ---- the same member several times -----------------------------------------------------------------
    each_word(2, NS, [&](auto& w) {
        for (int times = 2; times <= 3; ++times)
            for (int nested = 0; nested < 3; ++nested)
                r.check([&] { return "again " + word_name(w) + " " + std::to_string(times) + " " + std::to_string(nested); },
                    [&] {
                        auto body = body_of(w, STM);
                        Layout inl, cut;
                        for (auto& p : PRO)
                            inl.put("PROG", p), cut.put("PROG", p);
                        bool filled = false, filled2 = false;
                        for (int t = 0; t < times; ++t)
                        {
                            // nested 1: through another member; 2: first directly, then through another member
                            bool via = nested == 1 || (nested == 2 && t > 0);
                            if (via)
                            {
                                cut.put("PROG", "  COPY MB", false);
                                if (!filled2)
                                    cut.put("MB", "  COPY MA", false);
                                filled2 = true;
                            }
                            else
                                cut.put("PROG", "  COPY MA", false);
                            for (size_t i = 0; i < body.size(); ++i)
                            {
                                inl.put("PROG", body[i]);
                                if (!filled)
                                    cut.put("MA", body[i]);
                                else
                                    cut.where.push_back({ "MA", i });
                            }
                            filled = true;
                            inl.put("PROG", "&T SETC '&T.-'");
                            cut.put("PROG", "&T SETC '&T.-'");
                        }
                        inl.files["Q"] = Q;
                        cut.files["Q"] = Q;
                        compare(r, inl, cut);
                    });
    });
    // ---- library macros calling library macros, copying members ------------------------------------------
    {
        std::vector<std::string> S = { "&T SETC '&T.&P'", "  M4 &P.1", "  M5 &P.2", "  LR 1", "  COPY Q", "  AIF (&I GT 2).E", "&I SETA &I+1",
            "L&T DS X" };
        int n = (int)S.size();
        int k = r.thorough() ? 3 : 2;
        each_word(2 * k, n, [&](auto& w) {
            for (int i = k; i < 2 * k; ++i)
                if (w[i] == 1)
                    return; // no recursion
            for (int lib : r.thorough() ? std::vector<int> { 1, 2, 3, 4, 5, 6, 7 } : std::vector<int> { 1, 2, 7 })
                r.check([&] { return "libs " + word_name(w) + " " + std::to_string(lib); },
                    [&] {
                        Layout inl, cut;
                        for (auto l : { "  GBLC &T", "  GBLA &I" })
                            inl.put("PROG", l), cut.put("PROG", l);
                        auto mac = [&](int m, const std::vector<std::string>& b, bool in_lib) {
                            std::string name = "M" + std::to_string(m), f = in_lib ? name : "PROG";
                            for (auto l : std::vector<std::string> { "  MACRO", "  " + name + " &P", "  GBLC &T", "  GBLA &I" })
                                inl.put("PROG", l), cut.put(f, l);
                            for (auto& l : b)
                                inl.put("PROG", l), cut.put(f, l);
                            for (auto l : { ".E ANOP", "&T SETC '&T.<'", "  MEND" })
                                inl.put("PROG", l), cut.put(f, l);
                        };
                        std::vector<std::string> b3, b4;
                        for (int i = 0; i < k; ++i)
                            b3.push_back(S[w[i]]), b4.push_back(S[w[k + i]]);
                        mac(5, { "&T SETC '&T.5&P'", "  LR 5", "&I SETA &I+1" }, lib & 4);
                        mac(4, b4, lib & 2);
                        mac(3, b3, lib & 1);
                        for (auto l : { "  M3 1", "  M4 2", "  M3 3" })
                            inl.put("PROG", l), cut.put("PROG", l);
                        inl.files["Q"] = Q;
                        cut.files["Q"] = Q;
                        compare(r, inl, cut);
                    });
        });
    }
    // ---- members and macros that cannot be taken ---------------------------------------------------------
    // every graph of COPY statements over three members (one of them may be missing), from open code or a macro
    {
        // each member: a list of up to 2 COPY targets (A, B, C, missing) between trace statements
        std::vector<std::vector<int>> shapes = { {} };
        for (int a = 0; a < 4; ++a)
        {
            shapes.push_back({ a });
            for (int b = 0; b < 4; ++b)
                shapes.push_back({ a, b });
        }
        int ns = (int)shapes.size();
        for (int mac = 0; mac < 2; ++mac)
            each_word(2, ns, [&](auto& w) {
                for (auto& third : r.thorough() ? shapes : std::vector<std::vector<int>> { {}, { 0 }, { 1 }, { 2, 3 } })
                    r.check([&] {
                            std::string s = "graph " + std::to_string(mac);
                            for (auto* v : { &shapes[w[0]], &shapes[w[1]], &third })
                            {
                                s += " ";
                                for (int x : *v)
                                    s += "ABCN"[x];
                                if (v->empty())
                                    s += "-";
                            }
                            return s;
                        },
                        [&] {
                            const std::vector<int>* m[3] = { &shapes[w[0]], &shapes[w[1]], &third };
                            std::map<std::string, std::string> files;
                            auto emit_text = [&](int i) {
                                std::string nm(1, "ABC"[i]), s = "&T SETC '&T." + nm + "'\n";
                                for (int t : *m[i])
                                    s += std::string("  COPY ") + "ABCN"[t] + "\n&T SETC '&T." + (char)(nm[0] + 32) + "'\n";
                                files[nm] = s;
                            };
                            for (int i = 0; i < 3; ++i)
                                emit_text(i);
                            // reference: a member that is being copied is not copied again; diagnosed at its COPY
                            std::string trace;
                            std::set<std::string> bad;
                            std::vector<int> stack;
                            std::function<void(int)> walk = [&](int i) {
                                stack.push_back(i);
                                trace += "ABC"[i];
                                int line = 1;
                                for (int t : *m[i])
                                {
                                    if (t == 3)
                                        bad.insert(std::string("E058@") + "ABC"[i] + ":" + std::to_string(line));
                                    else if (std::count(stack.begin(), stack.end(), t))
                                        bad.insert(std::string("E062@") + "ABC"[i] + ":" + std::to_string(line));
                                    else
                                        walk(t);
                                    trace += "abc"[i];
                                    line += 2;
                                }
                                stack.pop_back();
                            };
                            walk(0);
                            std::string prog = mac ? "  MACRO\n  M\n  GBLC &T\n  COPY A\n  MEND\n  GBLC &T\n  M\n" : "  GBLC &T\n  COPY A\n";
                            hl::Program g(prog, files);
                            auto s = g.ctx().get_var_sym(g.ctx().ids().add("T"));
                            auto c = dynamic_cast<hl::context::set_symbol<std::string>*>(s.get());
                            std::set<std::string> got;
                            for (auto& d : g.diags)
                                got.insert(d.code + "@" + d.file + ":" + std::to_string(d.l1));
                            auto list = [](const std::set<std::string>& s) {
                                std::string o;
                                for (auto& x : s)
                                    o += x + " ";
                                return o;
                            };
                            require_eq(list(got), list(bad), "diagnostics");
                            require_eq(c->get_value(), trace, "trace");
                            ++r.validated;
                            ++r.transitions;
                            if (!bad.empty())
                                r.interesting();
                        });
            });
    }
    return r.finish();
}
