// C14: ordinary symbols and expressions against a direct solver.
#include "hl_util.h"
#include <functional>
#include <optional>
#include "context/ordinary_assembly/location_counter.h"
#include "context/ordinary_assembly/section.h"
using namespace verif;

// value: number of relocations per section, offset
struct Val
{
    std::map<std::string, int> base;
    std::map<int, int> size; // unknown sizes of statements, with counts
    long off = 0;
    bool abs() const { return base.empty(); }
};
static Val add(const Val& a, const Val& b, int sign)
{
    Val r = a;
    r.off += sign * b.off;
    for (auto& [s, n] : b.base)
        if ((r.base[s] += sign * n) == 0)
            r.base.erase(s);
    for (auto& [s, n] : b.size)
        if ((r.size[s] += sign * n) == 0)
            r.size.erase(s);
    return r;
}
static std::string show(const Val& v)
{
    std::string s;
    for (auto& [b, n] : v.base)
        s += std::to_string(n) + "*" + b + "+";
    return s + std::to_string(v.off);
}
static std::optional<std::string> actual(hl::Program& g, const std::string& name)
{
    auto s = g.ctx().ord_ctx.get_symbol(g.ctx().ids().add(name));
    if (!s)
        return {};
    auto& v = s->value();
    Val r;
    switch (v.value_kind())
    {
        case hl::context::symbol_value_kind::ABS:
            r.off = v.get_abs();
            return show(r);
        case hl::context::symbol_value_kind::RELOC:
            for (auto& b : v.get_reloc().bases())
                if (b.second && (r.base[*b.first.owner->name] += b.second) == 0)
                    r.base.erase(*b.first.owner->name);
            r.off = v.get_reloc().offset();
            return show(r) + (v.get_reloc().has_unresolved_space() ? "?" : "");
        default:
            return "undefined";
    }
}

// ---- definitions -----------------------------------------------------------------------------------
struct Def
{
    enum K { CONST, HERE, STORE, PLUS, DIFF, LENREF, TWICE, ATTR, DUPREF, LATTR } k;
    int a = -1, b = -1; // referred symbols; -2 undefined everywhere
};
static std::string sym(int i) { return i == -2 ? "UNDEF" : "S" + std::to_string(i); }
static std::string stmt(const Def& d, int i)
{
    std::string t = sym(i) + "  ";
    switch (d.k)
    {
        case Def::CONST: return t + "EQU 5";
        case Def::HERE: return t + "EQU *";
        case Def::STORE: return t + "DS XL3";
        case Def::PLUS: return t + "EQU " + sym(d.a) + "+1";
        case Def::DIFF: return t + "EQU " + sym(d.a) + "-" + sym(d.b);
        case Def::LENREF: return t + "DS XL(" + sym(d.a) + ")";
        case Def::DUPREF: return t + "DS (" + sym(d.a) + ")X";
        case Def::TWICE: return t + "EQU 2*" + sym(d.a);
        case Def::ATTR: return t + "EQU L'" + sym(d.a);
        case Def::LATTR: return t + "EQU 1," + sym(d.a);
    }
    return "";
}
struct Solver
{
    const std::vector<Def>& d;
    int n;
    // nodes: value 0..n-1, length attribute n..2n-1, storage size 2n..3n-1
    enum St { NEW, OPEN, OK, BAD, TAINT };
    std::vector<St> st;
    std::vector<Val> v;
    std::set<int> bad_line; // must be diagnosed
    bool cycle = false;
    Solver(const std::vector<Def>& d)
        : d(d), n((int)d.size()), st(3 * n, NEW), v(3 * n)
    {
        for (int i = 0; i < 3 * n; ++i)
            eval(i);
        for (int i = 0; i < n; ++i)
            if (st[i] == OK)
            {
                if (auto w = number(v[i]))
                    v[i].off = *w, v[i].size.clear();
                else
                    st[i] = TAINT;
            }
        for (int k = 0; k < n; ++k)
            for (int i = 0; i < n; ++i)
                for (int x : { d[i].a, d[i].b })
                    if (x >= 0 && d[i].k != Def::ATTR && d[i].k != Def::LENREF && d[i].k != Def::DUPREF && st[i] == OK && st[x] != OK)
                        st[i] = TAINT;
    }
    // everything the value needs is defined before statement i
    bool before(int s, int i, int depth = 0)
    {
        if (s == -2 || s >= i || depth > n)
            return false;
        for (int x : { d[s].a, d[s].b })
            if (x != -1 && d[s].k != Def::LENREF && d[s].k != Def::DUPREF && d[s].k != Def::LATTR && !before(x, i, depth + 1))
                return false;
        return true;
    }
    // the value depends on a symbolic size
    bool sized(int s, int depth = 0)
    {
        if (s == -2 || depth > n)
            return false;
        if (d[s].k == Def::STORE || d[s].k == Def::HERE || d[s].k == Def::LENREF || d[s].k == Def::DUPREF)
        {
            for (int k = 0; k < n; ++k)
                if (d[k].k == Def::LENREF || d[k].k == Def::DUPREF)
                    return true;
            return false;
        }
        if (d[s].k == Def::ATTR && d[s].a >= 0 && (d[d[s].a].k == Def::LENREF || d[d[s].a].k == Def::DUPREF))
            return true;
        for (int x : { d[s].a, d[s].b })
            if (x != -1 && sized(x, depth + 1))
                return true;
        return false;
    }
    // with the sizes filled in
    std::optional<long> number(const Val& a)
    {
        long w = a.off;
        for (auto& [k, c] : a.size)
        {
            if (!eval(2 * n + k))
                return {};
            w += c * v[2 * n + k].off;
        }
        return w;
    }
    bool eval(int node)
    {
        if (st[node] == OK)
            return true;
        if (st[node] == BAD || st[node] == TAINT)
            return false;
        if (st[node] == OPEN)
        {
            cycle = true;
            return false;
        }
        st[node] = OPEN;
        int i = node % n;
        auto& x = d[i];
        bool ok = true, bad = false, tainted = false;
        Val r;
        auto value_of = [&](int s) -> std::optional<Val> {
            if (s == -2)
            {
                bad = true;
                return {};
            }
            if (!eval(s))
            {
                ok = false;
                return {};
            }
            return v[s];
        };
        auto here = [&] {
            r.base["A"] = 1;
            for (int k = 0; k < i; ++k)
                if (d[k].k == Def::STORE)
                    r.off += 3;
                else if (d[k].k == Def::LENREF || d[k].k == Def::DUPREF)
                    r.size[k] = 1;
        };
        if (node < n)
            switch (x.k)
            {
                case Def::CONST: r.off = 5; break;
                case Def::LATTR: r.off = 1; break;
                case Def::HERE:
                case Def::STORE:
                case Def::LENREF:
                case Def::DUPREF: here(); break;
                case Def::PLUS:
                    if (auto a = value_of(x.a))
                        r = *a, r.off += 1;
                    break;
                case Def::DIFF:
                {
                    auto a = value_of(x.a);
                    auto b = value_of(x.b);
                    if (a && b)
                        r = add(*a, *b, -1);
                    break;
                }
                case Def::TWICE:
                    if (auto a = value_of(x.a))
                    {
                        // known finding: not diagnosed when the symbol is known later
                        if (!a->abs())
                            (before(x.a, i) && !sized(x.a) ? bad : tainted) = true;
                        r.off = 2 * a->off;
                        for (auto& [k, c] : a->size)
                            r.size[k] = 2 * c;
                    }
                    break;
                case Def::ATTR:
                    if (x.a == -2)
                        bad = true;
                    else if (!eval(n + x.a))
                        ok = false;
                    else
                        r.off = v[n + x.a].off;
                    break;
            }
        else if (node < 2 * n)
        {
            // length attribute
            switch (x.k)
            {
                case Def::STORE: r.off = 3; break;
                case Def::DUPREF: r.off = 1; break;
                case Def::LENREF:
                    if (!eval(2 * n + i))
                        ok = false;
                    else
                        r.off = v[2 * n + i].off;
                    break;
                case Def::LATTR:
                    // the second operand has to be defined before
                    if (x.a != -2 && !eval(x.a))
                        ok = false;
                    else if (x.a == -2 || !before(x.a, i))
                        bad = true;
                    else if (sized(x.a))
                        ok = false; // known in the end only: left open
                    else if (auto a = value_of(x.a))
                    {
                        if (!a->abs() || !a->size.empty() || a->off < 0 || a->off > 65535)
                            bad = true;
                        r.off = a->off;
                    }
                    break;
                default: ok = false; break; // of an equate: left open here
            }
        }
        else
        {
            switch (x.k)
            {
                case Def::STORE: r.off = 3; break;
                case Def::LENREF:
                case Def::DUPREF:
                    if (auto a = value_of(x.a))
                    {
                        if (auto w = number(*a))
                        {
                            if (!a->abs() || *w < (x.k == Def::LENREF ? 1 : 0) || *w > 65535)
                                bad = true;
                            r.off = *w;
                        }
                        else
                            ok = false;
                    }
                    break;
                default: break;
            }
        }
        // the operand of an equate's length attribute can be open (an equate without one)
        if (bad)
            bad_line.insert(i);
        st[node] = bad ? BAD : ok && !tainted ? OK : TAINT;
        v[node] = r;
        return st[node] == OK;
    }
};

static void definitions(Run& r, const std::vector<Def>& d)
{
    int n = (int)d.size();
    // the length attribute of an equate comes from its leftmost term and is left open here
    for (auto& x : d)
        if (x.k == Def::ATTR && x.a >= 0 && d[x.a].k != Def::STORE && d[x.a].k != Def::LENREF && d[x.a].k != Def::DUPREF && d[x.a].k != Def::LATTR)
            return;
    Solver s(d);
    std::string t = "A  CSECT\n";
    for (int i = 0; i < n; ++i)
        t += stmt(d[i], i) + "\n";
    r.interesting();
    hl::Program g(t);
    auto ctx = "\n" + t + g.show_diags();
    std::set<int> diag;
    for (auto& x : g.diags)
    {
        require(x.l1 >= 1 && (int)x.l1 <= n, "diagnosed line " + x.str() + ctx);
        diag.insert((int)x.l1 - 1);
    }
    for (int i : s.bad_line)
        require(diag.count(i), "line " + std::to_string(i + 1) + " is wrong and not diagnosed" + ctx);
    if (s.cycle)
    {
        bool any = false;
        for (int i : diag)
            any |= s.st[i] != Solver::OK || s.st[2 * n + i] != Solver::OK;
        require(any, "the cycle is not diagnosed" + ctx);
    }
    for (int i : diag)
    {
        bool clean = s.st[i] == Solver::OK && s.st[2 * n + i] == Solver::OK && (d[i].k != Def::LATTR || s.st[n + i] == Solver::OK);
        require(!clean, "line " + std::to_string(i + 1) + " is right and diagnosed" + ctx);
    }
    for (int i = 0; i < n; ++i)
    {
        if (s.st[i] == Solver::OK)
        {
            auto a = actual(g, sym(i));
            require(a.has_value(), "no symbol " + sym(i) + ctx);
            require_eq(*a, show(s.v[i]), "value of " + sym(i) + ctx);
            ++r.transitions;
        }
        if (s.st[n + i] == Solver::OK && s.st[i] == Solver::OK)
        {
            auto y = g.ctx().ord_ctx.get_symbol(g.ctx().ids().add(sym(i)));
            require_eq((long)y->attributes().length(), s.v[n + i].off, "length of " + sym(i) + ctx);
        }
    }
    ++r.validated;
    r.state(t);
}

// ---- expressions -----------------------------------------------------------------------------------
struct Ex
{
    std::string text;
    std::optional<Val> v; // nothing: wrong
    int prec; // 3 term, 2 product, 1 sum
};
static Ex bin(const Ex& a, char op, const Ex& b)
{
    Ex r;
    int p = op == '+' || op == '-' ? 1 : 2;
    auto par = [](const Ex& e, bool need) { return need ? "(" + e.text + ")" : e.text; };
    r.text = par(a, a.prec < p) + op + par(b, b.prec <= p || b.text[0] == '-');
    r.prec = p;
    if (a.v && b.v)
    {
        if (p == 1)
            r.v = add(*a.v, *b.v, op == '+' ? 1 : -1);
        else if (a.v->abs() && b.v->abs())
        {
            Val v;
            v.off = op == '*' ? a.v->off * b.v->off : b.v->off == 0 ? 0 : a.v->off / b.v->off;
            r.v = v;
        }
    }
    return r;
}
static Ex neg(const Ex& a)
{
    Ex r;
    r.text = "-" + (a.prec < 3 ? "(" + a.text + ")" : a.text);
    r.prec = 2; // never in front of another operator without parentheses
    if (a.v)
        r.v = add(Val {}, *a.v, -1);
    return r;
}
static void expression(Run& r, const Ex& e, int order)
{
    r.interesting();
    std::string defs = "A  CSECT\n   DS XL4\nA1 DS XL6\nA2 DS X\nB  CSECT\n   DS XL3\nB1 DS X\nK  EQU 7\n", use = "X  EQU " + e.text + "\n";
    std::string late = "A  CSECT\n   DS XL4\nA1 DS XL(N)\nA2 DS X\nB  CSECT\n   DS XL(M)\nB1 DS X\nK  EQU 7\n", lend = "N  EQU 6\nM  EQU 3\n";
    std::string t = order == 0 ? defs + use : order == 1 ? use + defs : late + use + lend;
    hl::Program g(t);
    auto ctx = "\n" + t + g.show_diags();
    if (!e.v)
    {
        // known finding: not diagnosed when the symbols are known later
        if (order == 0)
            require(!g.diags.empty(), "wrong expression is not diagnosed" + ctx);
        else
            (void)g;
        return;
    }
    require(g.diags.empty(), "right expression is diagnosed" + ctx);
    auto a = actual(g, "X");
    require(a.has_value(), "no symbol" + ctx);
    require_eq(*a, show(*e.v), "value" + ctx);
    ++r.validated;
    ++r.transitions;
    r.state(std::to_string(order) + e.text);
}

static void combos(size_t n, const std::vector<Def>& alpha, const std::function<void(const std::vector<Def>&)>& f)
{
    std::vector<size_t> w(n, 0);
    while (true)
    {
        std::vector<Def> d;
        for (auto k : w)
            d.push_back(alpha[k]);
        f(d);
        size_t i = 0;
        while (i < n && ++w[i] == alpha.size())
            w[i++] = 0;
        if (i == n)
            break;
    }
}

// a label defined twice: the later definition is diagnosed and changes nothing
static void duplicates(Run& r, const std::vector<std::string>& st)
{
    std::string t = "A  CSECT\n", u = t;
    std::set<std::string> seen;
    std::set<size_t> dup;
    size_t line = 1;
    for (auto& x : st)
    {
        std::string l = x.substr(0, x.find(' '));
        t += x + "\n";
        if (!l.empty() && !seen.insert(l).second)
        {
            dup.insert(line);
            u += x.find(" EQU ") != std::string::npos ? "*\n" : std::string(l.size(), ' ') + x.substr(l.size()) + "\n";
        }
        else
            u += x + "\n";
        ++line;
    }
    if (dup.empty())
        return;
    r.interesting();
    hl::Program g(t), h(u);
    auto ctx = "\n" + t + g.show_diags() + "\n---\n" + u + h.show_diags();
    std::set<size_t> a, b = dup;
    for (auto& d : g.diags)
        a.insert(d.l1);
    for (auto& d : h.diags)
        b.insert(d.l1);
    require(a == b, "diagnosed lines differ" + ctx);
    for (auto& n : seen)
    {
        auto x = actual(g, n), y = actual(h, n);
        require(x == y, "value of " + n + " differs" + ctx);
        auto l1 = g.ctx().ord_ctx.get_symbol(g.ctx().ids().add(n)), l2 = h.ctx().ord_ctx.get_symbol(h.ctx().ids().add(n));
        require((l1 == nullptr) == (l2 == nullptr), "symbol " + n + ctx);
        if (l1)
        {
            require_eq(l1->attributes().length(), l2->attributes().length(), "length of " + n + ctx);
            require_eq(l1->attributes().type(), l2->attributes().type(), "type of " + n + ctx);
            require_eq(l1->symbol_location.pos.line, l2->symbol_location.pos.line, "place of " + n + ctx);
        }
    }
    ++r.validated;
    ++r.transitions;
    r.state(t);
}

int main(int argc, char** argv)
{
    Run r(argc, argv, 16);
    bool th = r.thorough();
    auto go = [&](const std::string& nm, size_t n, const std::vector<Def>& alpha) {
        combos(n, alpha, [&](const std::vector<Def>& d) {
            r.check(
                [&] {
                    std::string s = nm;
                    for (size_t i = 0; i < d.size(); ++i)
                        s += (i ? "; " : " ") + stmt(d[i], (int)i);
                    return s;
                },
                [&] { definitions(r, d); });
        });
    };
    auto refs = [](std::vector<Def>& a, Def::K k, int n, bool undef) {
        for (int i = undef ? -2 : 0; i < n; ++i)
            if (i != -1)
                a.push_back({ k, i });
    };
    for (int n = 1; n <= 3; ++n)
    {
        std::vector<Def> a { { Def::CONST }, { Def::HERE }, { Def::STORE } };
        for (auto k : { Def::PLUS, Def::LENREF, Def::DUPREF, Def::TWICE, Def::ATTR, Def::LATTR })
            refs(a, k, n, true);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                a.push_back({ Def::DIFF, i, j });
        go("definitions", n, a);
    }
    {
        std::vector<Def> a { { Def::CONST }, { Def::STORE } };
        refs(a, Def::PLUS, 4, false);
        refs(a, Def::LENREF, 4, false);
        a.push_back({ Def::DIFF, 3, 0 });
        a.push_back({ Def::DIFF, 2, 1 });
        if (th)
        {
            a.push_back({ Def::HERE });
            refs(a, Def::ATTR, 4, false);
            a.push_back({ Def::DIFF, 1, 2 });
            a.push_back({ Def::DIFF, 0, 1 });
        }
        go("four", 4, a);
    }
    for (int n = 5; n <= (th ? 7 : 5); ++n)
    {
        std::vector<Def> a { { Def::CONST } };
        refs(a, Def::PLUS, n, false);
        go("chains", n, a);
    }
    {
        std::vector<std::string> al;
        for (std::string l : { "P", "Q" })
            for (std::string b : { "EQU 5", "EQU *", "DS XL2", "DS XL(P)", "DS XL(Q)", "DS (Q)X", "EQU Q+1", "EQU L'P", "LR 1,1", "DC A(Q)", "ORG *+2" })
                al.push_back(l + "  " + b);
        al.push_back("   DS X");
        for (size_t n = 2; n <= 3; ++n)
        {
            std::vector<size_t> w(n, 0);
            while (true)
            {
                std::vector<std::string> st;
                for (auto k : w)
                    st.push_back(al[k]);
                r.check([&] { std::string s = "duplicate"; for (auto& x : st) s += "; " + x; return s; }, [&] { duplicates(r, st); });
                size_t i = 0;
                while (i < n && ++w[i] == al.size())
                    w[i++] = 0;
                if (i == n)
                    break;
            }
        }
    }
    // expressions
    auto sym1 = [](std::string n, std::string s, long o) {
        Ex e;
        e.text = n, e.prec = 3;
        Val v;
        if (!s.empty())
            v.base[s] = 1;
        v.off = o;
        e.v = v;
        return e;
    };
    std::vector<Ex> e1 { sym1("A1", "A", 4), sym1("A2", "A", 10), sym1("B1", "B", 3), sym1("3", "", 3), sym1("K", "", 7), sym1("X'F'", "", 15), sym1("C'A'", "", 193), sym1("L'A1", "", 6), sym1("0", "", 0) };
    std::vector<Ex> e1n = e1, base { e1[0], e1[1], e1[2], e1[3], e1[4], e1[8] };
    std::vector<Ex> all = e1;
    for (auto& e : e1)
        all.push_back(neg(e));
    std::string ops = "+-*/";
    std::vector<Ex> e2, e2b;
    for (auto& x : e1)
        for (char o : ops)
            for (auto& y : e1)
                e2.push_back(bin(x, o, y));
    for (auto& x : base)
        for (char o : ops)
            for (auto& y : base)
                e2b.push_back(bin(x, o, y));
    for (auto& x : e2)
        all.push_back(x), all.push_back(neg(x));
    for (auto& x : e2b)
        for (char o : ops)
            for (auto& y : base)
            {
                all.push_back(bin(x, o, y));
                all.push_back(bin(y, o, x));
            }
    // two differences
    std::vector<Ex> d2;
    for (auto& x : e2b)
        if (x.text.find('*') == std::string::npos && x.text.find('/') == std::string::npos)
            d2.push_back(x);
    for (auto& x : d2)
        for (char o : ops)
            for (auto& y : d2)
                if (th || ((x.text.find('3') != std::string::npos) + (y.text.find('3') != std::string::npos) + (x.text.find('0') != std::string::npos) + (y.text.find('0') != std::string::npos) == 0))
                    all.push_back(bin(x, o, y));
    for (auto& e : all)
        for (int o = 0; o < 3; ++o)
            r.check([&] { return "expression " + std::to_string(o) + " " + e.text; }, [&] { expression(r, e, o); });
    r.check([] { return std::string("finding late-product"); }, [&] {
        hl::Program g("A  CSECT\nX  EQU 2*S\nS  DS X\n");
        require(!g.diags.empty(), "product of a relocatable symbol is not diagnosed");
    });
    return r.finish();
}
