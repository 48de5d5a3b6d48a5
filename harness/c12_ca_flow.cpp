// C12: conditional assembly control flow, macros and SET symbols against an independent interpreter.
#include "hl_util.h"
#include <functional>
#include <optional>
using namespace verif;

struct Def;
struct S
{
    std::string seq; // sequence symbol without the dot
    std::string op;
    std::vector<std::string> a;
    std::shared_ptr<Def> def;
};
struct Def
{
    std::string name;
    std::vector<S> body; // without the header
};
static S s(std::string op, std::vector<std::string> a = {}, std::string seq = "") { return { seq, op, std::move(a), nullptr }; }

static std::string fld(const std::string& label, const std::string& op, const std::string& rest = "")
{
    std::string l = label + std::string(label.size() < 9 ? 9 - label.size() : 1, ' ') + op;
    if (!rest.empty())
        l += std::string(l.size() < 15 ? 15 - l.size() : 1, ' ') + rest;
    return l + "\n";
}
static std::string render(const std::vector<S>& p);
static std::string render(const S& x)
{
    std::string q = x.seq.empty() ? "" : "." + x.seq;
    auto& a = x.a;
    if (x.op == "NOP")
        return fld(q, "ANOP");
    if (x.op == "DATA")
        return fld(q, "DC", "C'" + a[0] + "'");
    if (x.op == "MARK")
        return fld("&T", "SETC", "'&T'.'" + a[0] + "'");
    if (x.op == "SHOW")
        return fld("&T", "SETC", "'&T'.'<&" + a[0] + ">'");
    if (x.op == "INC")
        return fld("&" + a[0], "SETA", "&" + a[0] + "+1");
    if (x.op == "SET")
        return fld("&" + a[0], "SETA", a[1]);
    if (x.op == "GBLA" || x.op == "LCLA" || x.op == "GBLC")
        return fld(q, x.op, "&" + a[0]);
    if (x.op == "AGO")
        return fld(q, "AGO", "." + a[0]);
    if (x.op == "AGOC")
    {
        std::string r = "(&" + a[0] + ")";
        for (size_t i = 1; i < a.size(); ++i)
            r += (i > 1 ? ",." : ".") + a[i];
        return fld(q, "AGO", r);
    }
    if (x.op == "AIF")
    {
        std::string r;
        for (size_t i = 0; i < a.size(); i += 4)
            r += (i ? ",(&" : "(&") + a[i] + " " + a[i + 1] + " " + a[i + 2] + ")." + a[i + 3];
        return fld(q, "AIF", r);
    }
    if (x.op == "ACTR")
        return fld(q, "ACTR", a[0]);
    if (x.op == "CALL")
        return fld(q, a[0]);
    if (x.op == "MEXIT")
        return fld(q, "MEXIT");
    if (x.op == "OPSYN")
        return fld(a[0], "OPSYN", a.size() > 1 ? a[1] : "");
    if (x.op == "DEF")
        return fld("", "MACRO") + fld("", x.def->name) + fld("", "GBLC", "&T") + render(x.def->body) + fld("", "MEND");
    throw Fail("harness: op " + x.op);
}
static std::string render(const std::vector<S>& p)
{
    std::string t;
    for (auto& x : p)
        t += render(x);
    return t;
}

// ---- the interpreter
struct Interp
{
    using Var = std::shared_ptr<int64_t>;
    std::map<std::string, Var> globals;
    std::map<std::string, std::shared_ptr<Def>> macros;
    std::string T;
    std::set<std::string> diags;
    bool unspecified = false; // an undefined variable was read: only that it is diagnosed
    size_t steps = 0;
    int data = 0;
    struct Unwind
    {};
    struct Stop
    {};

    std::vector<std::string> bodies;
    void run(const std::vector<S>& p, size_t depth)
    {
        std::map<std::string, Var> local;
        int64_t actr = 4096;
        // sequence symbols of this scope; the first definition counts
        std::map<std::string, size_t> seq;
        std::set<size_t> dup;
        for (size_t i = 0; i < p.size(); ++i)
            if (!p[i].seq.empty() && !seq.emplace(p[i].seq, i).second)
                dup.insert(i);
        if (!dup.empty() && depth)
            diags.insert("dup"); // found when the macro is defined
        if (depth >= 100)
        {
            diags.insert("E055");
            throw Unwind();
        }
        auto get = [&](const std::string& n) -> std::optional<int64_t> {
            auto it = local.find(n);
            if (it == local.end())
            {
                unspecified = true;
                return std::nullopt;
            }
            return *it->second;
        };
        size_t i = 0;
        std::optional<std::string> go;
        size_t reached = 0; // how far an open code scan got
        while (i < p.size())
        {
            if (++steps > 20000)
                throw Stop();
            auto& x = p[i];
            auto& a = x.a;
            if (actr < 0)
            {
                diags.insert("E056");
                if (depth == 0)
                    throw Stop();
                return;
            }
            reached = std::max(reached, i);
            if (dup.count(i) && !depth)
                diags.insert("dup");
            go.reset();
            if (x.op == "MARK")
                T += a[0];
            else if (x.op == "DATA")
                ++data;
            else if (x.op == "SHOW")
            {
                auto v = get(a[0]);
                T += "<" + (v ? std::to_string(*v < 0 ? -*v : *v) : "") + ">";
            }
            else if (x.op == "INC" || x.op == "SET")
            {
                auto& v = local[a[0]];
                if (!v)
                    v = std::make_shared<int64_t>(0);
                *v = x.op == "INC" ? *v + 1 : std::stoll(a[1]);
            }
            else if (x.op == "LCLA" || x.op == "GBLA")
            {
                if (local.count(a[0]))
                    diags.insert("E051");
                else if (x.op == "LCLA")
                    local[a[0]] = std::make_shared<int64_t>(0);
                else
                {
                    auto& g = globals[a[0]];
                    if (!g)
                        g = std::make_shared<int64_t>(0);
                    local[a[0]] = g;
                }
            }
            else if (x.op == "AGO")
                go = a[0];
            else if (x.op == "AGOC")
            {
                auto v = get(a[0]);
                if (v && *v >= 1 && *v < (int64_t)a.size())
                    go = a[(size_t)*v];
            }
            else if (x.op == "AIF")
            {
                for (size_t k = 0; k < a.size() && !go; k += 4)
                {
                    auto v = get(a[k]);
                    auto n = std::stoll(a[k + 2]);
                    if (!v)
                        break;
                    bool c = a[k + 1] == "EQ" ? *v == n : a[k + 1] == "LT" ? *v < n : *v > n;
                    if (c)
                        go = a[k + 3];
                }
            }
            else if (x.op == "ACTR")
                actr = std::stoll(a[0]);
            else if (x.op == "MEXIT")
            {
                if (depth)
                    return;
                diags.insert("E054");
            }
            else if (x.op == "CALL")
            {
                auto it = macros.find(a[0]);
                if (it == macros.end())
                    diags.insert("E049");
                else
                {
                    auto d = it->second;
                    if (depth)
                        run(d->body, depth + 1);
                    else
                        try
                        {
                            run(d->body, 1);
                        }
                        catch (const Unwind&)
                        {}
                }
            }
            else if (x.op == "OPSYN")
            {
                if (a.size() == 1)
                    macros.erase(a[0]);
                else if (macros.count(a[1]))
                    macros[a[0]] = macros[a[1]];
                else
                    diags.insert("E049");
            }
            else if (x.op == "DEF")
                macros[x.def->name] = x.def;
            if (unspecified)
                throw Stop();
            if (go)
            {
                auto it = seq.find(*go);
                if (it == seq.end())
                {
                    diags.insert("E047");
                    if (!depth) // the whole rest was searched
                        for (size_t k = reached; k < p.size(); ++k)
                            if (dup.count(k))
                                diags.insert("dup");
                }
                else
                {
                    i = it->second;
                    if (!depth)
                        for (size_t k = reached; k <= i; ++k)
                            if (dup.count(k))
                                diags.insert("dup");
                    reached = std::max(reached, i);
                    --actr;
                    continue;
                }
            }
            ++i;
        }
    }
};

static void run_case(Run& r, const std::vector<S>& open)
{
    std::vector<S> p = { s("GBLC", { "T" }) };
    p.insert(p.end(), open.begin(), open.end());
    Interp in;
    bool stopped = false;
    try
    {
        in.run(p, 0);
    }
    catch (const Interp::Stop&)
    {
        stopped = true;
    }
    if (in.steps > (r.thorough() ? 20000 : 1000)) // deep recursion many times over, see limits()
    {
        r.count("skipped: runs too long");
        return;
    }
    std::string text = render(p);
    hl::Program g(text);
    r.transitions += in.steps;
    std::set<std::string> got;
    for (auto& d : g.diags)
        got.insert(d.code == "E045" || d.code == "E044" ? "dup" : d.msg.find("ACTR counter") != std::string::npos ? "E056" : d.code);
    auto show = [&] { return "\n" + text + "diagnostics: " + g.show_diags() + "\n"; };
    if (in.unspecified)
    {
        require(!got.empty(), "an undefined variable is used but nothing is diagnosed" + show());
        return;
    }
    std::string gs, ws;
    for (auto& c : got)
        gs += c + " ";
    for (auto& c : in.diags)
        ws += c + " ";
    auto v = g.ctx().get_var_sym(g.ctx().ids().add("T"));
    require(v && v->access_set_symbol_base(), "no trace variable" + show());
    std::string T = v->access_set_symbol_base()->access_set_symbol<hl::context::C_t>()->get_value();
    if (in.diags.count("E055"))
    {
        // how deep calls may nest is the implementation's choice
        require(got.count("E055"), "unlimited recursion is not diagnosed" + show());
        return;
    }
    require(T == in.T, "executed " + T + ", should be " + in.T + show());
    require(gs == ws, "diagnosed " + gs + ", should be " + ws + show());
    r.validated++;
    if (in.steps > p.size())
        r.interesting();
    r.state(text);
    (void)stopped;
}

static std::string short_(const std::vector<S>& p);
static std::string short_(const S& x)
{
    std::string o = x.seq.empty() ? "" : "." + x.seq + ":";
    o += x.op;
    for (auto& a : x.a)
        o += "/" + a;
    if (x.def)
        o += "{" + x.def->name + "=" + short_(x.def->body) + "}";
    return o;
}
static std::string short_(const std::vector<S>& p)
{
    std::string o;
    for (auto& x : p)
        o += (o.empty() ? "" : ";") + short_(x);
    return o;
}

// words over an alphabet of slots
static void words(size_t n, size_t k, const std::function<void(const std::vector<size_t>&)>& f)
{
    std::vector<size_t> w(n, 0);
    while (true)
    {
        f(w);
        size_t i = n;
        while (i && ++w[i - 1] == k)
            w[--i] = 0;
        if (!i)
            return;
    }
}

static std::vector<S> slots(const std::vector<size_t>& w, const std::vector<S>& ops, const std::vector<std::string>& labels, bool direct)
{
    std::vector<S> p;
    for (size_t i = 0; i < w.size(); ++i)
    {
        auto op = ops[w[i] % ops.size()];
        auto& l = labels[w[i] / ops.size()];
        std::string m = "abcdefgh"[i] + std::string();
        if (direct && op.op != "SET" && op.op != "INC" && op.op != "NOP")
        {
            op.seq = l;
            p.push_back(op);
            p.push_back(s("MARK", { m }));
        }
        else
        {
            if (!l.empty())
                p.push_back(s("NOP", {}, l));
            p.push_back(s("MARK", { m }));
            if (op.op != "NOP")
                p.push_back(op);
        }
    }
    p.push_back(s("MARK", { "." }));
    return p;
}

static void flow(Run& r, bool th)
{
    std::vector<S> ops = { s("NOP"), s("INC", { "A" }), s("AGO", { "A" }), s("AGO", { "B" }), s("AIF", { "A", "LT", "2", "A" }), s("AIF", { "A", "EQ", "1", "B" }), s("AIF", { "A", "EQ", "0", "A", "A", "EQ", "1", "B" }), s("AGOC", { "A", "A", "B" }), s("ACTR", { "2" }), s("MEXIT"), s("DATA", { "x" }) };
    std::vector<std::string> labels = { "", "A", "B" };
    for (int where = 0; where < 2; ++where)
        for (int direct = 0; direct < 2; ++direct)
            for (size_t n = 1; n <= (th ? 4u : 3u); ++n)
                words(n, ops.size() * labels.size(), [&](const std::vector<size_t>& w) {
                    if (n == 4 && direct)
                        return;
                    if (direct && !where) // a misplaced MEXIT defines nothing
                        for (auto x : w)
                            if (x >= ops.size() && ops[x % ops.size()].op == "MEXIT")
                                return;
                    if (!th && n == 3)
                    {
                        if (direct && where)
                            return;
                        for (auto x : w)
                            if (x % ops.size() == 5 || x % ops.size() == 6 || x % ops.size() >= 8)
                                return;
                    }
                    std::vector<S> p;
                    auto mk = [&] {
                        auto b = slots(w, ops, labels, direct);
                        b.insert(b.begin(), s("SET", { "A", "0" }));
                        b.insert(b.begin(), s("ACTR", { "5" }));
                        if (!where)
                            return b;
                        S d = s("DEF");
                        d.def = std::make_shared<Def>(Def { "MA", b });
                        return std::vector<S> { d, s("CALL", { "MA" }), s("MARK", { "x" }), s("CALL", { "MA" }), s("MARK", { "y" }) };
                    };
                    r.check([&] { return "flow " + short_(mk()); }, [&] { run_case(r, mk()); });
                });
    // four and more slots over the branches that matter
    std::vector<S> few = { s("NOP"), s("INC", { "A" }), s("AGO", { "A" }), s("AGO", { "B" }), s("AIF", { "A", "LT", "2", "A" }), s("AIF", { "A", "EQ", "1", "B" }) };
    for (int where = 0; where < 2; ++where)
        for (size_t n = 4; n <= (th ? 5u : 4u); ++n)
            words(n, few.size() * labels.size(), [&](const std::vector<size_t>& w) {
                // each label at most once, at least one of each in the long words
                int na = 0, nb = 0;
                for (auto x : w)
                    na += x / few.size() == 1, nb += x / few.size() == 2;
                if (na != 1 || nb != 1)
                    return;
                if (!th && (w[0] % few.size() == 0 || w[3] % few.size() == 5 || w[2] % few.size() == 5))
                    return;
                auto mk = [&] {
                    auto b = slots(w, few, labels, false);
                    b.insert(b.begin(), s("SET", { "A", "0" }));
                    b.insert(b.begin(), s("ACTR", { "6" }));
                    if (!where)
                        return b;
                    S d = s("DEF");
                    d.def = std::make_shared<Def>(Def { "MA", b });
                    return std::vector<S> { d, s("CALL", { "MA" }), s("MARK", { "x" }) };
                };
                r.check([&] { return "flow " + short_(mk()); }, [&] { run_case(r, mk()); });
            });
}

// a macro definition in open code hides its sequence symbols; labels before, in and after it
static void hidden(Run& r, bool th)
{
    std::vector<S> ops = { s("NOP"), s("AGO", { "A" }), s("AGO", { "B" }), s("AIF", { "A", "LT", "2", "A" }), s("INC", { "A" }), s("DATA", { "x" }) };
    std::vector<std::string> labels = { "", "A", "B" };
    size_t K = ops.size() * labels.size();
    for (size_t n = 2; n <= (th ? 4u : 3u); ++n)
        for (size_t at = 0; at <= n; ++at)
            for (size_t inner = 0; inner < K; ++inner)
            {
                if (n == 4 && inner % ops.size() > 2)
                    continue;
                for (int nested = 0; nested < 3; ++nested) // no inner definition, one before, one after the slot of the macro
                words(n, K, [&](const std::vector<size_t>& w) {
                    if (nested == 2 && inner / ops.size() == 2)
                        return; // the label would be there twice
                    if (!th && nested && (n > 2 || inner % ops.size() || inner < ops.size()))
                        return;
                    if (!th && n == 2 && inner % ops.size() > 2)
                        return;
                    if (!th && n == 3 && (inner % ops.size() > 1 || inner < ops.size() || w[0] % ops.size() < 1 || w[0] % ops.size() > 3 || w[1] % ops.size() > 2 || w[2] % ops.size() == 2 || w[2] % ops.size() == 5 || w[2] % ops.size() == 0))
                        return;
                    if (n >= 3)
                    {
                        int la = 0, lb = 0;
                        for (auto x : w)
                            la += x / ops.size() == 1, lb += x / ops.size() == 2;
                        if (la > 1 || lb > 1 || la + lb == 0)
                            return;
                    }
                    auto mk = [&] {
                        std::vector<S> p = { s("ACTR", { "5" }), s("SET", { "A", "0" }) };
                        for (size_t i = 0; i <= n; ++i)
                        {
                            if (i == at)
                            {
                                S d = s("DEF");
                                std::vector<S> b = slots({ inner }, ops, labels, false);
                                b.insert(b.begin(), s("SET", { "A", "2" }));
                                for (auto& x : b)
                                    if (x.op == "MARK")
                                        x.a[0] = "m" + x.a[0];
                                if (nested)
                                {
                                    S e = s("DEF");
                                    e.def = std::make_shared<Def>(Def { "MI", { s("NOP", {}, "B"), s("MARK", { "i" }) } });
                                    if (nested == 1)
                                        b.insert(b.begin(), e);
                                    else
                                        b.push_back(e), b.push_back(s("NOP", {}, "B")), b.push_back(s("CALL", { "MI" }));
                                }
                                d.def = std::make_shared<Def>(Def { "MA", b });
                                p.push_back(d);
                            }
                            if (i == n)
                                break;
                            auto b = slots({ w[i] }, ops, labels, false);
                            b.pop_back();
                            for (auto& x : b)
                                if (x.op == "MARK")
                                    x.a[0] = "abcdefgh"[i];
                            p.insert(p.end(), b.begin(), b.end());
                        }
                        p.push_back(s("CALL", { "MA" }));
                        p.push_back(s("MARK", { "z" }));
                        return p;
                    };
                    r.check([&] { return "hidden " + short_(mk()); }, [&] { run_case(r, mk()); });
                });
            }
}

// scopes: open code and two macros, each with two statements
static void scopes(Run& r, bool th)
{
    auto def = [](std::string n, std::vector<S> b) {
        S d = s("DEF");
        d.def = std::make_shared<Def>(Def { n, std::move(b) });
        return d;
    };
    std::vector<S> ops = { s("GBLA", { "X" }), s("LCLA", { "X" }), s("INC", { "X" }), s("CALL", { "MA" }), s("CALL", { "MB" }), s("MEXIT"), def("MB", { s("MARK", { "n" }), s("GBLA", { "X" }), s("INC", { "X" }) }), def("MA", { s("MARK", { "N" }), s("CALL", { "MB" }) }) };
    size_t K = ops.size();
    words(6, K, [&](const std::vector<size_t>& w) {
        if (!th && (w[0] > 4 || w[1] < 2 || w[1] == 5 || w[4] == 5 || w[2] == 1 || (w[0] == 1 && w[1] == 2) || w[3] == 0 || w[3] == 7 || w[5] < 2 || w[5] == 6 || w[2] > 6 || w[4] > 6 || w[0] == 1 || w[3] == 1 || w[3] == 6))
            return;
        auto mk = [&] {
            auto body = [&](size_t i, std::string m) {
                return std::vector<S> { s("MARK", { m }), ops[w[i]], ops[w[i + 1]], s("MARK", { m + "e" }) };
            };
            std::vector<S> p = { def("MA", body(2, "A")), def("MB", body(4, "B")), ops[w[0]], s("CALL", { "MA" }), ops[w[1]], s("INC", { "X" }), s("SHOW", { "X" }), s("CALL", { "MB" }), s("SHOW", { "X" }), s("GBLA", { "Y" }), s("SHOW", { "Y" }) };
            return p;
        };
        r.check([&] { return "scope " + short_(mk()); }, [&] { run_case(r, mk()); });
    });
}

// redefinitions, OPSYN and macros hiding instructions
static void names(Run& r, bool th)
{
    auto def = [](std::string n, std::string m) {
        S d = s("DEF");
        d.def = std::make_shared<Def>(Def { n, { s("MARK", { m }) } });
        return d;
    };
    std::vector<S> ops = { def("MA", "1"), def("MA", "2"), s("CALL", { "MA" }), s("OPSYN", { "MB", "MA" }), s("CALL", { "MB" }), s("OPSYN", { "MA", "MB" }), def("MB", "3"), s("OPSYN", { "MA" }) };
    for (size_t n = 1; n <= (th ? 6u : 4u); ++n)
        words(n, ops.size(), [&](const std::vector<size_t>& w) {
            // calls and synonyms only of what is defined: everything else is an error of its own
            std::set<std::string> known;
            for (auto i : w)
            {
                auto& o = ops[i];
                if (o.op == "DEF")
                    known.insert(o.def->name);
                else if (o.op == "CALL" && !known.count(o.a[0]))
                    return;
                else if (o.op == "OPSYN" && o.a.size() == 2 && !known.count(o.a[1]))
                    return;
                else if (o.op == "OPSYN" && o.a.size() == 2)
                    known.insert(o.a[0]);
                else if (o.op == "OPSYN" && !known.erase(o.a[0]))
                    return;
            }
            auto mk = [&] {
                std::vector<S> p;
                for (auto i : w)
                    p.push_back(ops[i]);
                return p;
            };
            r.check([&] { return "names " + short_(mk()); }, [&] { run_case(r, mk()); });
        });
}

// ---- SET symbols: scalars, arrays, created names
static void setsyms(Run& r, bool th)
{
    struct Op
    {
        std::string text;
        std::function<void(std::map<std::string, std::map<int, std::string>>&)> f;
    };
    using M = std::map<std::string, std::map<int, std::string>>;
    auto str = [](M& m, std::string n, int i) { return m[n].count(i) ? m[n][i] : std::string(); };
    auto num = [](M& m, std::string n, int i) { return m[n].count(i) ? std::stoi(m[n][i]) : 0; };
    std::vector<Op> ops = {
        { fld("&A(1)", "SETA", "5"), [](M& m) { m["A"][1] = "5"; } },
        { fld("&A(3)", "SETA", "7,8"), [](M& m) { m["A"][3] = "7", m["A"][4] = "8"; } },
        { fld("&A(2)", "SETA", "1,,3"), [](M& m) { m["A"][2] = "1", m["A"][4] = "3"; } },
        { fld("&A(2)", "SETA", "&A(1)+1,&A(2)+1"), [num](M& m) { m["A"][2] = std::to_string(num(m, "A", 1) + 1), m["A"][3] = std::to_string(num(m, "A", 2) + 1); } },
        { fld("&A(&A(1)+1)", "SETA", "9"), [num](M& m) { m["A"][num(m, "A", 1) + 1] = "9"; } },
        { fld("&C(2)", "SETC", "'P','Q'"), [](M& m) { m["C"][2] = "P", m["C"][3] = "Q"; } },
        { fld("&C(1)", "SETC", "'&C(2)'.'&C(3)'"), [str](M& m) { m["C"][1] = str(m, "C", 2) + str(m, "C", 3); } },
        { fld("&C(3)", "SETC", "'&A(1)'"), [num](M& m) { m["C"][3] = std::to_string(num(m, "A", 1)); } },
        { fld("&(S&I)", "SETA", "&(S&I)+1"), [num](M& m) { std::string n = "S" + m["I"][0]; m[n][0] = std::to_string(num(m, n, 0) + 1); } },
        { fld("&I", "SETA", "2"), [](M& m) { m["I"][0] = "2"; } },
        { fld("&I", "SETA", "&I+1"), [num](M& m) { m["I"][0] = std::to_string(num(m, "I", 0) + 1); } },
        { fld("&B(2)", "SETB", "1"), [](M& m) { m["B"][2] = "1"; } },
        { fld("&B(1)", "SETB", "(&A(1) GT 4),(NOT &B(2))"), [num](M& m) { m["B"][1] = num(m, "A", 1) > 4 ? "1" : "0"; m["B"][2] = num(m, "B", 2) ? "0" : "1"; } },
        { fld("&N", "SETA", "N'&A+10*N'&C"), [](M& m) { auto mx = [&](std::string n) { return m[n].empty() ? 0 : m[n].rbegin()->first; }; m["N"][0] = std::to_string(mx("A") + 10 * mx("C")); } },
    };
    for (size_t n = 1; n <= (th ? 4u : 3u); ++n)
        words(n, ops.size(), [&](const std::vector<size_t>& w) {
            auto text = [&] {
                std::string t = fld("", "LCLA", "&A(9),&I,&N,&S1,&S2,&S3,&S4,&S5,&S6") + fld("", "LCLC", "&C(9)") + fld("", "LCLB", "&B(9)") + fld("&I", "SETA", "1");
                for (auto i : w)
                    t += ops[i].text;
                return t;
            };
            r.check([&] {
                std::string d = "set";
                for (auto i : w)
                    d += " " + std::to_string(i);
                return d; },
                [&] {
                    M m;
                    m["I"][0] = "1";
                    for (auto i : w)
                        ops[i].f(m);
                    auto t = text();
                    hl::Program p(t);
                    require(p.diags.empty(), "diagnosed\n" + t + p.show_diags());
                    auto var = [&](std::string n) { auto v = p.ctx().get_var_sym(p.ctx().ids().add(n)); require(v && v->access_set_symbol_base(), "no variable " + n); return v->access_set_symbol_base(); };
                    for (int i = 1; i <= 12; ++i)
                    {
                        auto a = var("A")->access_set_symbol<hl::context::A_t>()->get_value(i - 1);
                        require(a == num(m, "A", i), "A(" + std::to_string(i) + ") is " + std::to_string(a) + ", should be " + std::to_string(num(m, "A", i)) + "\n" + t);
                        auto c = var("C")->access_set_symbol<hl::context::C_t>()->get_value(i - 1);
                        require(c == str(m, "C", i), "C(" + std::to_string(i) + ") is " + c + ", should be " + str(m, "C", i) + "\n" + t);
                        auto b = var("B")->access_set_symbol<hl::context::B_t>()->get_value(i - 1);
                        require(b == (num(m, "B", i) != 0), "B(" + std::to_string(i) + ") is wrong\n" + t);
                    }
                    for (std::string n : { "I", "N", "S1", "S2", "S3", "S4", "S5", "S6" })
                    {
                        auto a = var(n)->access_set_symbol<hl::context::A_t>()->get_value();
                        require(a == num(m, n, 0), n + " is " + std::to_string(a) + ", should be " + std::to_string(num(m, n, 0)) + "\n" + t);
                    }
                    r.transitions += n;
                    r.state(t);
                    r.interesting();
                });
        });
    // bad assignments are diagnosed and change nothing
    std::vector<std::string> bad = { fld("&A(0)", "SETA", "1"), fld("&A(-1)", "SETA", "1"), fld("&A", "SETA", "1"), fld("&I(1)", "SETA", "1"), fld("&I", "SETC", "'A'"), fld("&A(1)", "SETB", "1"), fld("&C(1)", "SETA", "1"), fld("&A(1)", "SETA"), fld("", "SETA", "1"), fld("LAB", "SETA", "1"), fld(".SEQ", "SETA", "1"), fld("&A(1,2)", "SETA", "1"), fld("", "LCLA", "&A(5)"), fld("", "LCLC", "&I"), fld("", "GBLA", "&I"), fld("", "LCLA"), fld("", "AIF", "(1)"), fld("", "AIF"), fld("", "AGO"), fld("", "AGO", "A"), fld("", "ACTR"), fld("", "ACTR", "1,2"), fld("", "MEXIT"), fld("", "MEND"), fld("&X", "AREAD"), fld("", "NOSUCH", "A") };
    for (size_t i = 0; i < bad.size(); ++i)
        for (int k = 0; k < 3; ++k)
            r.check("bad " + std::to_string(i) + " place " + std::to_string(k), [&] {
                std::vector<std::string> l = { fld("", "LCLA", "&A(9),&I"), fld("&A(1)", "SETA", "5,6"), fld("&I", "SETA", "3"), fld("&C(1)", "SETC", "'x'") };
                std::string t;
                for (auto& x : l)
                    t += x;
                for (int z = 0; z <= k; ++z)
                    t += bad[i];
                t += fld("&OK", "SETA", "&A(2)+&I");
                hl::Program p(t);
                std::set<size_t> ls;
                for (auto& d : p.diags)
                    ls.insert(d.l1);
                for (int z = 0; z <= k; ++z)
                    require(ls.count(4 + (size_t)z), "not diagnosed\n" + t + p.show_diags());
                for (auto x : ls)
                    require(x >= 4 && x <= 4 + (size_t)k, "another line is diagnosed\n" + t + p.show_diags());
                auto var = [&](std::string n) { auto v = p.ctx().get_var_sym(p.ctx().ids().add(n)); require(v && v->access_set_symbol_base(), "no variable " + n); return v->access_set_symbol_base(); };
                require(var("OK")->access_set_symbol<hl::context::A_t>()->get_value() == 9, "values changed\n" + t);
                require(var("C")->access_set_symbol<hl::context::C_t>()->get_value(0) == "x", "values changed\n" + t);
                r.interesting();
            });
}

// ---- AREAD: the lines after the call
static void areads(Run& r, bool th)
{
    std::vector<std::string> ls = { "         LR    1,2", "plain text, no operation", "'unbalanced", "* comment", ".* c2", "         MACRO", "", "L        AREAD", std::string(71, 'q') + "X12345678", "         AIF (1" };
    size_t nl = th ? 4 : 3;
    words(nl, ls.size(), [&](const std::vector<size_t>& w) {
        // comments right after the call are a known finding, listed case by case
        bool comment = w[0] == 3 || w[0] == 4 || w[0] == 6;
        if (comment && !(w[1] == 1 && w[2] == 1 && (nl < 4 || w[3] == 1)))
            return;
        for (int nest = 0; nest < (comment ? 1 : 3); ++nest)
        {
            auto text = [&] {
                std::string t;
                if (nest == 0) // a plain sequence
                {
                    t += fld("", "MACRO") + fld("", "RD") + fld("", "GBLC", "&V(9)");
                    for (size_t i = 0; i < nl; ++i)
                        t += fld("&V(" + std::to_string(i + 1) + ")", "AREAD");
                    t += fld("", "MEND") + fld("", "GBLC", "&V(9)");
                }
                else if (nest == 1) // a loop
                    t += fld("", "MACRO") + fld("", "RD") + fld("", "GBLC", "&V(9)") + fld(".L", "ANOP") + fld("&I", "SETA", "&I+1") + fld("&V(&I)", "AREAD", "NOSTMT") + fld("", "AIF", "(&I LT " + std::to_string(nl) + ").L") + fld("", "MEND") + fld("", "GBLC", "&V(9)");
                else // an inner macro reads the open code too
                {
                    t += fld("", "MACRO") + fld("", "R1", "&I") + fld("", "GBLC", "&V(9)") + fld("&V(&I)", "AREAD") + fld("", "MEND");
                    t += fld("", "MACRO") + fld("", "RD");
                    for (size_t i = 0; i < nl; ++i)
                        t += fld("", "R1", std::to_string(i + 1));
                    t += fld("", "MEND") + fld("", "GBLC", "&V(9)");
                }
                t += fld("", "RD");
                for (auto i : w)
                    t += ls[i] + "\n";
                t += fld("&AFTER", "SETA", "1");
                return t;
            };
            r.check([&] { return (comment ? "aread-comment " : "aread ") + esc(text()); }, [&] {
                auto t = text();
                hl::Program p(t);
                require(p.diags.empty(), "diagnosed\n" + t + p.show_diags());
                auto var = [&](std::string n) { auto v = p.ctx().get_var_sym(p.ctx().ids().add(n)); require(v && v->access_set_symbol_base(), "no variable " + n + "\n" + t); return v->access_set_symbol_base(); };
                for (size_t i = 0; i < nl; ++i)
                {
                    auto c = var("V")->access_set_symbol<hl::context::C_t>()->get_value(i);
                    auto want = ls[w[i]];
                    auto trim = [](std::string x) { while (!x.empty() && x.back() == ' ') x.pop_back(); return x; };
                    require(trim(c) == trim(want), "line " + std::to_string(i + 1) + " read as '" + c + "', should be '" + want + "'\n" + t);
                }
                require(var("AFTER")->access_set_symbol<hl::context::A_t>()->get_value() == 1, "the line after is not processed\n" + t);
                r.interesting();
                r.state(t);
            });
        }
    });
}

// ---- limits: everything ends
static void limits(Run& r)
{
    auto get = [](hl::Program& p, std::string n) -> int64_t { auto v = p.ctx().get_var_sym(p.ctx().ids().add(n)); return v && v->access_set_symbol_base() ? v->access_set_symbol_base()->access_set_symbol<hl::context::A_t>()->get_value() : -1; };
    struct L
    {
        std::string text, code, var;
        int64_t val;
    };
    auto loop = [](std::string head) { return head + fld(".A", "ANOP") + fld("&A", "SETA", "&A+1"); };
    std::vector<L> ls;
    for (int n : { 0, 1, 2, 10, 100 })
        ls.push_back({ loop(fld("", "ACTR", std::to_string(n))) + fld("", "AGO", ".A") + fld("&Z", "SETA", "1"), "E056", "A", n + 1 });
    ls.push_back({ loop("") + fld("", "AGO", ".A"), "E056", "A", 4097 });
    ls.push_back({ loop("") + fld("", "AIF", "(&A LE 4096).A") + fld("&Z", "SETA", "7"), "", "Z", 7 });
    ls.push_back({ loop("") + fld("", "AIF", "(&A LE 4097).A") + fld("&Z", "SETA", "7"), "E056", "Z", -1 });
    auto mac = [&](std::string head, std::string tail) { return fld("", "MACRO") + fld("", "MM") + fld("", "GBLA", "&A") + head + fld(".A", "ANOP") + fld("&A", "SETA", "&A+1") + tail + fld("", "MEND") + fld("", "GBLA", "&A") + fld("", "MM") + fld("", "MM") + fld("&Z", "SETA", "&A"); };
    ls.push_back({ mac(fld("", "ACTR", "3"), fld("", "AGO", ".A")), "E056", "Z", 8 });
    ls.push_back({ mac("", fld("", "AGO", ".A")), "E056", "Z", 8194 });
    ls.push_back({ mac(fld("", "ACTR", "-1"), ""), "E056", "Z", 0 });
    ls.push_back({ mac("", fld("", "MM")), "E055", "", 0 });
    ls.push_back({ loop("") + fld("", "ACTR", "10") + fld("", "AGO", ".A"), "E063", "", 0 });
    ls.push_back({ fld("", "MACRO") + fld("", "M1") + fld("", "M2") + fld("", "MEND") + fld("", "MACRO") + fld("", "M2") + fld("", "M1") + fld("", "MEND") + fld("", "M1") + fld("&Z", "SETA", "5"), "E055", "Z", 5 });
    // a loop over calls, more than 4096 of them is no problem of the called macro
    ls.push_back({ fld("", "MACRO") + fld("", "MM") + fld("", "GBLA", "&A") + fld("&A", "SETA", "&A+1") + fld("", "AGO", ".E") + fld(".E", "ANOP") + fld("", "MEND") + fld("", "GBLA", "&A") + fld(".L", "ANOP") + fld("", "MM") + fld("", "AIF", "(&A LT 4000).L") + fld("&Z", "SETA", "&A"), "", "Z", 4000 });
    for (size_t i = 0; i < ls.size(); ++i)
        r.check("limit " + std::to_string(i), [&] {
            hl::Program p(ls[i].text);
            std::set<std::string> codes;
            for (auto& d : p.diags)
                codes.insert(d.msg.find("ACTR counter") != std::string::npos ? "E056" : d.code);
            require(codes == (ls[i].code.empty() ? std::set<std::string> {} : std::set<std::string> { ls[i].code }), "diagnostics should be " + ls[i].code + ": " + p.show_diags() + "\n" + ls[i].text);
            if (!ls[i].var.empty())
            {
                auto v = get(p, ls[i].var);
                require(v == ls[i].val, ls[i].var + " = " + std::to_string(v) + ", should be " + std::to_string(ls[i].val) + "\n" + ls[i].text);
            }
            r.interesting();
        });
}

int main(int argc, char** argv)
{
    Run r(argc, argv, 16);
    bool th = r.thorough();
    limits(r);
    setsyms(r, th);
    areads(r, th);
    names(r, th);
    hidden(r, th);
    scopes(r, th);
    flow(r, th);
    return r.finish();
}
