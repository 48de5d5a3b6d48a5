// C13: macro operands against an independent decomposer.
#include "hl_util.h"
#include <functional>
#include <optional>
using namespace verif;

// ---------------------------------------------------------------------------- the model
// an operand: its text and, if it is a sublist, its elements
struct Opd
{
    std::string text;
    bool sub = false;
    std::vector<Opd> el;
};
static bool alnum(char c) { return isalnum((unsigned char)c) || c == '$' || c == '#' || c == '@' || c == '_'; }
static bool alpha(char c) { return alnum(c) && !isdigit((unsigned char)c); }
// the apostrophe at i belongs to an attribute reference (L'SYMBOL), it does not start a string
static bool attribute(const std::string& s, size_t i)
{
    if (i == 0 || !strchr("LISTDONKlistdonk", s[i - 1]) || (i > 1 && (alnum(s[i - 2]) || s[i - 2] == '&')))
        return false;
    return i + 1 < s.size() && (alpha(s[i + 1]) || s[i + 1] == '=' || s[i + 1] == '&');
}
// how far an attribute letter with an apostrophe reaches is left open where no name or digit follows
static bool unclear(const std::string& s)
{
    for (size_t i = 1; i < s.size(); ++i)
        if (s[i] == '\'' && strchr("LISTDONKlistdonk", s[i - 1]) && (i < 2 || !alnum(s[i - 2])) && (i + 1 == s.size() || !(alnum(s[i + 1]) || s[i + 1] == '=' || s[i + 1] == '&')))
            return true;
    return false;
}
// splits at the commas outside strings and parentheses; nothing if the text is not balanced
static std::optional<std::vector<std::string>> split(const std::string& s)
{
    std::vector<std::string> v(1);
    int depth = 0;
    for (size_t i = 0; i < s.size(); ++i)
    {
        char c = s[i];
        if (c == '\'' && !attribute(s, i))
        {
            v.back() += c;
            for (++i; i < s.size() && s[i] != '\''; ++i)
                v.back() += s[i];
            if (i == s.size())
                return {};
            v.back() += '\'';
            continue;
        }
        if (c == ' ')
            return {}; // not used
        if (c == '(')
            ++depth;
        if (c == ')' && --depth < 0)
            return {};
        if (c == ',' && !depth)
            v.emplace_back();
        else
            v.back() += c;
    }
    if (depth)
        return {};
    return v;
}
static Opd decompose(const std::string& t)
{
    Opd o { t, false, {} };
    if (t.size() < 2 || t[0] != '(' || t.back() != ')')
        return o;
    // the first parenthesis must be closed by the last
    auto in = split(t.substr(1, t.size() - 2));
    if (!in)
        return o;
    o.sub = true;
    for (auto& e : *in)
        o.el.push_back(decompose(e));
    return o;
}
static const Opd none;
static const Opd& sub(const Opd& o, std::initializer_list<size_t> idx)
{
    const Opd* p = &o;
    for (auto i : idx)
    {
        if (p->sub)
            p = i - 1 < p->el.size() ? &p->el[i - 1] : &none;
        else
            p = i == 1 ? p : &none;
    }
    return *p;
}
static int N(const Opd& o) { return o.text.empty() ? 0 : o.sub ? (int)o.el.size() : 1; }
// characters
static int K(const Opd& o)
{
    int n = 0;
    for (unsigned char c : o.text)
        n += (c & 0xc0) != 0x80;
    return n;
}

// what the called macro M sees
struct Call
{
    std::string name;
    std::vector<Opd> pos; // positional operands
    std::map<std::string, Opd> key; // given keywords
};

// ---------------------------------------------------------------------------- the observing macro
struct Obs
{
    std::string var, what; // array and the expression assigned to it
    bool num;
    std::function<std::string(const Call&)> want;
};
static const std::string ARR = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
static std::string num(int i) { return std::to_string(i); }
static std::vector<Obs> observations()
{
    std::vector<Obs> v;
    auto P = [](const Call& c, size_t i) -> const Opd& { return i < c.pos.size() ? c.pos[i] : none; };
    auto add = [&](std::string what, bool n, std::function<std::string(const Call&)> f) {
        v.push_back({ (n ? "XA" : "XC") + num((int)v.size()), what, n, f });
    };
    add("'&P'", false, [=](const Call& c) { return P(c, 0).text; });
    add("N'&P", true, [=](const Call& c) { return num(N(P(c, 0))); });
    add("K'&P", true, [=](const Call& c) { return num(K(P(c, 0))); });
    add("'&P(1)'", false, [=](const Call& c) { return sub(P(c, 0), { 1 }).text; });
    add("'&P(2)'", false, [=](const Call& c) { return sub(P(c, 0), { 2 }).text; });
    add("'&P(1,1)'", false, [=](const Call& c) { return sub(P(c, 0), { 1, 1 }).text; });
    add("'&P(1,2)'", false, [=](const Call& c) { return sub(P(c, 0), { 1, 2 }).text; });
    add("'&P(2,1)'", false, [=](const Call& c) { return sub(P(c, 0), { 2, 1 }).text; });
    add("N'&P(1)", true, [=](const Call& c) { return num(N(sub(P(c, 0), { 1 }))); });
    add("N'&P(2)", true, [=](const Call& c) { return num(N(sub(P(c, 0), { 2 }))); });
    add("K'&P(2)", true, [=](const Call& c) { return num(K(sub(P(c, 0), { 2 }))); });
    add("'&Q'", false, [=](const Call& c) { return P(c, 1).text; });
    add("N'&Q", true, [=](const Call& c) { return num(N(P(c, 1))); });
    add("N'&SYSLIST", true, [=](const Call& c) { return num((int)c.pos.size()); });
    add("'&SYSLIST(3)'", false, [=](const Call& c) { return P(c, 2).text; });
    add("'&SYSLIST(1,2)'", false, [=](const Call& c) { return sub(P(c, 0), { 2 }).text; });
    add("'&SYSLIST(2,1,1)'", false, [=](const Call& c) { return sub(P(c, 1), { 1, 1 }).text; });
    add("N'&SYSLIST(2)", true, [=](const Call& c) { return num(N(P(c, 1))); });
    add("K'&SYSLIST(2)", true, [=](const Call& c) { return num(K(P(c, 1))); });
    add("'&K'", false, [=](const Call& c) { return c.key.count("K") ? c.key.at("K").text : ""; });
    add("N'&K", true, [=](const Call& c) { return num(c.key.count("K") ? N(c.key.at("K")) : 0); });
    add("'&K(2)'", false, [=](const Call& c) { return c.key.count("K") ? sub(c.key.at("K"), { 2 }).text : ""; });
    add("'&D(2)'", false, [=](const Call& c) { return c.key.count("D") ? sub(c.key.at("D"), { 2 }).text : "E"; });
    add("N'&D", true, [=](const Call& c) { return num(c.key.count("D") ? N(c.key.at("D")) : 3); });
    add("'&D'", false, [=](const Call& c) { return c.key.count("D") ? c.key.at("D").text : "((A,B),E,)"; });
    add("'&NAME'", false, [=](const Call& c) { return c.name; });
    add("'&SYSLIST(0)'", false, [=](const Call& c) { return c.name; });
    return v;
}
static const std::vector<Obs> OBS = observations();
static std::string dump_macro()
{
    std::string m = " MACRO\n&NAME M &P,&Q,&K=,&D=((A,B),E,)\n GBLA &I\n";
    for (auto& o : OBS)
        m += std::string(" GBL") + (o.num ? "A" : "C") + " &" + o.var + "(300)\n";
    m += "&I SETA &I+1\n";
    for (auto& o : OBS)
        m += "&" + o.var + "(&I) " + (o.num ? "SETA " : "SETC ") + o.what + "\n";
    m += " MEND\n";
    return m;
}
static std::string globals()
{
    std::string m = " GBLA &I\n";
    for (auto& o : OBS)
        m += std::string(" GBL") + (o.num ? "A" : "C") + " &" + o.var + "(300)\n";
    return m;
}

struct Item
{
    std::string line; // the statement(s), ends with a line end
    std::optional<Call> want; // none: the statement is wrong and must be diagnosed
    bool warned = false; // a warning is in order
};
static void run_items(Run& r, const std::string& pre, const std::vector<Item>& items, bool bytes = true)
{
    std::string t = dump_macro() + pre + globals();
    std::vector<size_t> first, last;
    size_t ln = std::count(t.begin(), t.end(), '\n');
    for (size_t i = 0; i < items.size(); ++i)
    {
        t += "&I SETA " + num((int)i) + "\n";
        ++ln;
        first.push_back(ln);
        t += items[i].line;
        ln += std::count(items[i].line.begin(), items[i].line.end(), '\n');
        last.push_back(ln);
    }
    r.tick();
    hl::Program p(t);
    auto value = [&](const Obs& o, size_t i) -> std::string {
        auto v = p.ctx().get_var_sym(p.ctx().ids().add(o.var));
        require(v && v->access_set_symbol_base(), "no variable " + o.var);
        if (o.num)
            return num(v->access_set_symbol_base()->access_set_symbol<hl::context::A_t>()->get_value(i));
        return v->access_set_symbol_base()->access_set_symbol<hl::context::C_t>()->get_value(i);
    };
    std::string fails;
    auto bad = [&](const std::string& m) {
        if (getenv("VERIF_ALL"))
            printf("%s\n", m.c_str());
        fails += (fails.empty() ? "" : "; ") + m;
    };
    for (size_t i = 0; i < items.size(); ++i)
    {
        auto& it = items[i];
        std::string ds;
        for (auto& d : p.diags)
            if (d.l1 >= first[i] && d.l1 < last[i])
                ds += d.code + " ";
        if (!it.want)
        {
            if (ds.empty())
                bad("not diagnosed: " + esc(it.line));
            continue;
        }
        if (ds.empty() == it.warned)
        {
            bad("diagnosed " + ds + ": " + esc(it.line));
            continue;
        }
        bool ascii = true;
        for (unsigned char ch : it.line)
            ascii &= ch < 128;
        for (auto& o : OBS)
        {
            if (bytes && !ascii && o.what[0] == 'K')
                continue; // see the case kattr-nonascii
            auto g = value(o, i), w = o.want(*it.want);
            if (g != w)
            {
                bad(esc(it.line) + ": " + o.what + " is " + esc(g) + ", expected " + esc(w));
                break;
            }
            ++r.transitions;
        }
        r.state(it.line);
        ++r.validated;
    }
    for (auto& d : p.diags)
        if (d.l1 < (first.empty() ? ln : first[0]))
            throw Fail("diagnosed outside the calls: " + d.str());
    if (!fails.empty())
        throw Fail(fails.substr(0, 3000));
}
static Call call_of(const std::string& ops, std::string name = "")
{
    Call c;
    c.name = name;
    auto v = *split(ops);
    for (auto& x : v)
        c.pos.push_back(decompose(x));
    if (ops.empty())
        c.pos.clear();
    return c;
}

static void words(size_t n, size_t k, const std::function<void(const std::vector<size_t>&)>& f)
{
    std::vector<size_t> w(n, 0);
    while (true)
    {
        f(w);
        size_t i = 0;
        while (i < n && ++w[i] == k)
            w[i++] = 0;
        if (i == n)
            break;
    }
}

int main(int argc, char** argv)
{
    Run r(argc, argv, 4);
    bool th = r.thorough();
    auto batch = [&](const std::string& what, const std::string& pre, std::vector<Item> items) {
        // 100 statements per program
        for (size_t i = 0; i < items.size(); i += 100)
        {
            r.check([&] { return what + " " + num((int)i) + " " + esc(items[i].line); }, [&] {
                r.interesting();
                run_items(r, pre, std::vector<Item>(items.begin() + i, items.begin() + std::min(items.size(), i + 100)));
            });
        }
    };
    auto strings = [&](const std::vector<std::string>& alpha, size_t max, const std::function<void(const std::string&)>& f) {
        for (size_t n = 1; n <= max; ++n)
            words(n, alpha.size(), [&](const std::vector<size_t>& w) {
                std::string s;
                for (auto x : w)
                    s += alpha[x];
                f(s);
            });
    };
    // every operand field
    auto keywordish = [](const std::string& s) {
        for (size_t i = 0; i < s.size(); ++i)
            if (s[i] == '=' && (i == 0 || alnum(s[i - 1]) || strchr(",(", s[i - 1])))
                return true; // literals and keywords have cases of their own
        return false;
    };
    auto item = [&](const std::string& s) {
        Item i { " M " + s + "\n", std::nullopt };
        if (split(s))
            i.want = call_of(s);
        return i;
    };
    for (auto& [nm, al, mx] : std::vector<std::tuple<std::string, std::vector<std::string>, size_t>> {
             { "plain", { "A", ",", "(", ")" }, th ? 9u : 8u },
             { "quoted", { "A", ",", "(", ")", "'" }, th ? 7u : 6u },
             { "tokens", { "A", ",", "(", ")", "''", "'a b'", "','", "'('", "L'X", "+", "=", "&&", ".", "*", "1" }, th ? 5u : 4u },
             { "letters", { "A", "'", ",", "K", "7", "L'Y" }, th ? 6u : 5u },
             { "balanced", { "A", ",", "(A,B)", "()", "(,)", "'it''s'", "(", ")" }, th ? 6u : 5u },
             { "unicode", { "A", ",", "\xc3\xa9", "\xe2\x82\xac", "'", "(", ")" }, th ? 5u : 4u },
         })
    {
        std::vector<Item> items;
        strings(al, mx, [&](const std::string& s) {
            if (!keywordish(s) && !unclear(s) && s.find("&&1") == std::string::npos && (s.find("'a b'") == std::string::npos || s.find("L'") == std::string::npos))
                items.push_back(item(s));
        });
        batch("field " + nm, "", items);
    }
    r.check("kattr-nonascii", [&] { run_items(r, "", { item("\xc3\xa9,(A,\xe2\x82\xac)") }, false); });
    // the same text through a variable symbol: as the operand, as a keyword value, from an outer macro's parameter
    {
        std::vector<Item> items;
        auto dup = [](const std::string& s) { // inside a character expression
            std::string o;
            for (char c : s)
                o += c == '\'' ? std::string("''") : std::string(1, c);
            return o;
        };
        for (auto& [al, mx] : std::vector<std::pair<std::vector<std::string>, size_t>> {
                 { { "A", ",", "(", ")" }, th ? 9u : 8u }, { { "A", "(", ")", ",", "'", "L'X", "'('", "'a,b'", "A(')')", "('(')", "XL'A'" }, th ? 5u : 4u } })
            strings(al, mx, [&](const std::string& s) {
                if (!split(s))
                    return;
                bool simple = s.find('\'') == std::string::npos;
                Call c;
                c.pos.push_back(decompose(s));
                items.push_back({ "&V SETC '" + dup(s) + "'\n M &V\n", c });
                if (s.size() <= 4)
                {
                    Call k;
                    k.key["K"] = decompose(s);
                    items.push_back({ "&V SETC '" + dup(s) + "'\n M K=&V\n", k });
                }
                if (s.size() <= 5 && split(s)->size() == 1)
                {
                    Call o;
                    o.pos.push_back(decompose(s));
                    items.push_back({ " OUT " + s + "\n", o });
                    if (s.size() <= 4 && simple)
                    {
                        Call k;
                        k.key["K"] = decompose(s);
                        items.push_back({ " M K=" + s + "\n", k });
                        items.push_back({ " OUTK " + s + "\n", k });
                    }
                }
            });
        batch("through", " MACRO\n OUT &W\n M &W\n MEND\n MACRO\n OUTK &W\n M K=&W\n MEND\n LCLC &V\n", items);
    }
    // sequences of operands: positional, keyword, omitted, excess; every word
    {
        std::vector<std::string> ops = { "", "A", "(A,B)", "K=K1", "K=(C,G)", "D=", "D=(X,Y)", "Z=1", "'q,r'" };
        std::vector<Item> items;
        for (size_t n = 1; n <= (th ? 5u : 4u); ++n)
            words(n, ops.size(), [&](const std::vector<size_t>& w) {
                std::string t;
                Call c;
                bool dupl = false, unknown = false;
                for (size_t i = 0; i < n; ++i)
                {
                    auto& o = ops[w[i]];
                    t += (i ? "," : "") + o;
                    if (o.size() > 1 && o[1] == '=' && o[0] != 'Z')
                        dupl |= !c.key.emplace(o.substr(0, 1), decompose(o.substr(2))).second;
                    else
                        c.pos.push_back(decompose(o)), unknown |= o == "Z=1";
                }
                if (unknown && (n > 2 || dupl))
                    return;
                if (dupl && n > 3)
                    return;
                if (t.empty())
                    return;
                Item it { (n % 2 ? " M " : "LAB M ") + t + (n > 3 && w[0] == 1 ? " remark, 'x" : "") + "\n", c };
                if (n % 2 == 0)
                    it.want->name = "LAB";
                if (dupl)
                    it.want.reset();
                it.warned = unknown;
                items.push_back(it);
            });
        batch("mixed", "", items);
    }
    // the name field
    {
        std::vector<Item> items;
        for (std::string n : { "A", "ABCDEFGH", "&V", "A&V", "&V.B", "&V(1)", "$X", ".SEQ", "", "A.B", "A(1)", "A,B", "=A", "*A" })
            for (std::string o : { "", "X", "(X,Y)" })
            {
                if (n == "*A" || n == "&V(1)")
                    continue;
                Call c;
                std::string e = n;
                for (size_t p; (p = e.find("&V.")) != std::string::npos;)
                    e.replace(p, 3, "vv");
                for (size_t p; (p = e.find("&V")) != std::string::npos;)
                    e.replace(p, 2, "vv");
                c.name = n[0] == '.' ? "" : e;
                if (!o.empty())
                    c.pos.push_back(decompose(o));
                items.push_back({ n + " M " + o + "\n", c });
                if (n[0] == '.')
                    break; // once only
            }
        batch("name", " LCLC &V\n&V SETC 'vv'\n", items);
    }
    // continued over lines: the break after every operand and inside the operand
    {
        std::vector<Item> items;
        auto cont = [](std::string a, const std::string& b) { return a + std::string(71 - a.size(), ' ') + "X\n" + std::string(15, ' ') + b; };
        auto fill = [](std::string a) { return a; };
        for (std::string a : { "A", "", "(A,B)", "K=(Q,R)" })
            for (std::string b : { "B", "(C,D)", "'s,t'", "D=Z" })
                for (std::string rem : { "", " remark", " it's (", "  a,b" })
                {
                    Call c;
                    for (auto& o : { a, b })
                    {
                        if (o.size() > 1 && o[1] == '=')
                            c.key.emplace(o.substr(0, 1), decompose(o.substr(2)));
                        else
                            c.pos.push_back(decompose(o));
                    }
                    items.push_back({ cont(" M " + a + "," + rem, b + rem) + "\n", c });
                    items.push_back({ cont(" M " + a + "," + rem, b + "," + rem) + "\n", c });
                    if (b != "D=Z")
                        items.back().want->pos.push_back(decompose(""));
                    else
                        items.back().want->pos.push_back(decompose(""));
                }
        // an operand that fills the line
        for (size_t n = 55; n <= 75; ++n)
            for (char ch : std::string("A'(,"))
            {
                std::string op = ch == '\'' ? "'" + std::string(n, 'b') + "'" : ch == '(' ? "(" + std::string(n, 'b') + ",C)" : ch == ',' ? std::string(n, 'b') + ",C" : std::string(n, 'b');
                std::string l = " M " + op;
                if (l.size() <= 71)
                    continue;
                Call c = call_of(op);
                items.push_back({ l.substr(0, 71) + "X\n" + std::string(15, ' ') + l.substr(71) + "\n", c });
            }
        batch("continued", "", items);
    }
    // nesting depth and many operands
    for (size_t n = 1; n <= (th ? 200u : 60u); ++n)
        r.check("deep " + num((int)n), [&] {
            r.interesting();
            std::string many, nest = "A";
            for (size_t i = 0; i < n && i < 30; ++i)
                nest = i % 2 ? "(" + nest + ")" : "(" + nest + ",B)";
            for (size_t i = 0; i < n && many.size() < 50; ++i)
                many += (i ? "," : "") + std::string(1, "ABC"[i % 3]);
            std::vector<Item> items { { nest.size() < 60 ? " M " + nest + "\n" : " M A\n", call_of(nest.size() < 60 ? nest : "A") },
                { " M " + many + "\n", call_of(many) }, { " M (" + many + ")\n", call_of("(" + many + ")") } };
            run_items(r, "", items);
        });
    return r.finish();
}
