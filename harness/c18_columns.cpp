// C18: source lines are read by the HLASM column rules.
//
// An independent reader joins lines by columns (71 columns of text, the 72nd tells of a continuation, continuation lines
// start in column 16) and interprets a few statements; the real analyzer must see the same statements, and must locate
// every symbol and every diagnostic where it was written.
#include "hl_util.h"

#include "lsp/lsp_context.h"

using namespace verif;
using namespace hl;

static std::vector<std::string> chars(const std::string& s) // the characters of a UTF-8 text
{
    std::vector<std::string> v;
    for (unsigned char c : s)
        if (c < 0x80 || c >= 0xC0)
            v.push_back(std::string(1, c));
        else
            v.back() += c;
    return v;
}
static std::string join(const std::vector<std::string>& v, size_t from, size_t to)
{
    std::string s;
    for (size_t i = from; i < std::min(to, v.size()); ++i)
        s += v[i];
    return s;
}
static size_t width(const std::string& c) { return (unsigned char)c[0] >= 0xF0 ? 2 : 1; }

// ---------------------------------------------------------------- the reference reader
struct Stmt
{
    size_t line;
    std::string text; // joined
};
static std::vector<Stmt> read(const std::vector<std::string>& lines)
{
    std::vector<Stmt> v;
    bool cont = false;
    for (size_t i = 0; i < lines.size(); ++i)
    {
        auto c = chars(lines[i]);
        if (cont)
            v.back().text += join(c, 15, 71);
        else
            v.push_back({ i, join(c, 0, 71) });
        cont = c.size() > 71 && c[71] != " ";
    }
    return v;
}

// ---------------------------------------------------------------- the reference interpreter of SETC statements
struct Interp
{
    std::map<std::string, std::string> var;
    std::set<std::string> unknown; // variables whose value is left open
    size_t bad = 0;
    void run(const std::string& t)
    {
        if (t.empty() || t[0] == '*' || t.substr(0, 2) == ".*")
            return;
        size_t p = t.find(' ');
        std::string label = t.substr(0, p);
        if (p == std::string::npos)
        {
            ++bad;
            return;
        }
        p = t.find_first_not_of(' ', p);
        if (p == std::string::npos)
        {
            if (!label.empty())
                ++bad;
            return;
        }
        size_t q = t.find(' ', p);
        std::string op = t.substr(p, q == std::string::npos ? q : q - p);
        if (op != "SETC")
        {
            ++bad;
            return;
        }
        p = q == std::string::npos ? q : t.find_first_not_of(' ', q);
        std::string value;
        bool ok = p != std::string::npos && t[p] == '\'';
        if (ok)
        {
            ok = false;
            for (++p; p < t.size(); ++p)
            {
                if (t[p] != '\'')
                    value += t[p];
                else if (p + 1 < t.size() && t[p + 1] == '\'')
                {
                    value += '\'';
                    ++p;
                }
                else
                {
                    ok = p + 1 == t.size() || t[p + 1] == ' ';
                    break;
                }
            }
        }
        if (!ok)
        {
            ++bad;
            unknown.insert(label);
            return;
        }
        std::string out;
        for (size_t i = 0; i < value.size(); ++i)
            if (value.compare(i, 3, "&S.") == 0)
            {
                out += var["&S"];
                i += 2;
            }
            else
                out += value[i];
        var[label] = out;
    }
};

static std::string value_of(Program& p, const std::string& name)
{
    auto v = p.ctx().get_var_sym(p.ctx().ids().add(name));
    if (!v || !v->access_set_symbol_base())
        return "(none)";
    auto c = v->access_set_symbol_base()->access_set_symbol<context::C_t>();
    return c ? "'" + c->get_value() + "'" : "(other)";
}

int main(int argc, char** argv)
{
    Run r(argc, argv, 16);
    const bool deep = r.thorough();
    auto esc = [](const std::string& s) { return verif::esc(s); };
    auto rep = [](size_t n, const char* c) {
        std::string s;
        while (n--)
            s += c;
        return s;
    };

    auto judge = [&](const std::vector<std::string>& ls, const std::string& eol, bool last, int place) {
        Interp ref;
        for (auto& s : read(ls))
            ref.run(s.text);
        std::string t;
        for (size_t i = 0; i < ls.size(); ++i)
            t += ls[i] + (i + 1 < ls.size() || last ? eol : "");
        std::string prog = t;
        std::map<std::string, std::string> files;
        if (place == 1) // a macro in the program; global variables bring the values out
            prog = " MACRO" + eol + " MAC" + eol + " GBLC &S,&A,&B" + eol + t + (last ? "" : eol) + " MEND" + eol + " GBLC &S,&A,&B" + eol + " MAC" + eol;
        else if (place == 2)
        {
            files["MEM"] = t;
            prog = " COPY MEM" + eol;
        }
        else if (place == 3)
        {
            files["MAC"] = " MACRO" + eol + " MAC" + eol + " GBLC &S,&A,&B" + eol + t + (last ? "" : eol) + " MEND" + eol;
            prog = " GBLC &S,&A,&B" + eol + " MAC" + eol;
        }
        Program p(prog, files);
        r.transitions += ls.size();
        ++r.validated;
        for (auto& n : { "&S", "&A", "&B" })
        {
            if (ref.unknown.count(n))
                continue;
            std::string want = ref.var.count(n) ? "'" + ref.var[n] + "'" : place == 1 || place == 3 ? "''" : "(none)";
            auto is = value_of(p, n + 1);
            if (is == "(none)" && want == "''")
                want = is;
            require_eq(is, want, std::string(n) + " " + p.show_diags());
        }
        require(p.errors() == (ref.bad > 0), "errors are " + p.show_diags() + " but " + std::to_string(ref.bad) + " statements are wrong");
        if (!ref.bad)
            r.interesting();
    };

    // ---------------------------------------------------------------- 1: around the margins
    {
        const std::vector<std::string> cs = { " ", "x", "'", "\xC3\xA9", "\xE6\xBC\xA2", "\xF0\x9F\x98\x80" };
        const std::string b15 = rep(15, " ");
        const std::vector<std::string> second = { b15 + "tail'", b15 + "'", b15 + " 'x", b15, "", b15 + "'' '" + rep(60, "r"), b15 + rep(55, "t") + "'", b15 + rep(55, "t") + "'X" + b15, b15 + rep(55, "\xC3\xA9") + "'X", rep(80, " ") };
        const std::string head = "&A SETC '";
        const size_t n = deep ? 6 : 5;
        for (auto& fill : { std::string("a"), cs[5] })
        {
            auto rec = [&](auto& self, const std::string& s, size_t k) -> void {
                if (k == 0)
                {
                    const std::string first = head + rep(71 + 3 - n - chars(head).size(), fill.c_str()) + s;
                    for (auto& two : second)
                        for (int crlf = 0; crlf < 2; ++crlf)
                        {
                            if (!deep && crlf && fill != "a")
                                continue;
                            r.check([&] { return "margin " + esc(fill) + " [" + esc(s) + "] " + esc(two.substr(std::min<size_t>(two.size(), 15))) + "|" + std::to_string(two.size()) + (crlf ? " crlf" : ""); },
                                [&] { judge({ first, two, b15 + "3'", "&B SETC 'end'" }, crlf ? "\r\n" : "\n", true, 0); });
                        }
                    return;
                }
                for (auto& c : cs)
                    self(self, s + c, k - 1);
            };
            rec(rec, "", fill == "a" ? n : n - 1);
        }
    }

    // ---------------------------------------------------------------- 2: sequences of lines
    {
        auto pad = [&](std::string s, size_t n = 71) { return s + rep(n - chars(s).size(), " "); };
        const std::vector<std::pair<std::string, std::string>> kinds = {
            { "stmt", "&S SETC '&S.a'" },
            { "cont", pad("&S SETC '&S.b'   remark") + "X" },
            { "open", "&S SETC '&S." + rep(71 - 12, "c") + "X" },
            { "tail", rep(15, " ") + "d'" },
            { "comm", "* comment &S SETC '&S.e'" },
            { "ccom", pad("* comment '") + "X" },
            { "mcom", ".* comment" },
            { "cmco", pad(".* comment '") + "X" },
            { "empt", "" },
            { "blnk", "    " },
            { "seqf", pad("&S SETC '&S.f'") + " SEQ00010" },
            { "long", pad("&S SETC '&S.g'") + rep(300, " ") + "'junk&X" },
            { "wide", pad("&S SETC '&S.\xF0\x9F\x98\x80'") + " \xE6\xBC\xA2" },
            { "wcon", pad("&S SETC '&S.\xC3\xA9'") + "\xC3\xA9" },
            { "tcon", pad(rep(15, " ") + "h'") + "*" },
            { "c016", pad("* c") + rep(8, "X") },
            { "full", "&S SETC '&S." + rep(71 - 13, "i") + "'" },
        };
        for (int place = 0; place < 4; ++place)
            for (int variant = 0; variant < 4; ++variant)
            {
                const std::string eol = variant & 1 ? "\r\n" : "\n";
                auto rec = [&](auto& self, std::vector<size_t> v, size_t k) -> void {
                    if (!v.empty())
                    {
                        r.check(
                            [&] {
                                std::string s = "lines " + std::to_string(place) + std::to_string(variant);
                                for (auto i : v)
                                    s += " " + kinds[i].first;
                                return s;
                            },
                            [&] {
                                std::vector<std::string> ls;
                                if (place == 0 || place == 2)
                                    ls.push_back("&S SETC ''");
                                for (auto i : v)
                                    ls.push_back(kinds[i].second);
                                if (place == 1 || place == 3)
                                    ls.push_back(""); // the last one may be continued
                                judge(ls, eol, !(variant & 2), place);
                            });
                    }
                    if (k)
                        for (size_t i = 0; i < kinds.size(); ++i)
                        {
                            auto w = v;
                            w.push_back(i);
                            self(self, w, k - 1);
                        }
                };
                rec(rec, {}, (deep || (place == 0 && variant == 0)) ? 4 : 3);
            }
    }
    // ---------------------------------------------------------------- 3: positions of names and diagnostics
    {
        // a statement with names, laid out so that every place of it falls on the margin; names are found by their text
        struct Shape
        {
            std::string name, before, stmt, after;
            std::vector<std::string> names;
            std::vector<std::string> undefined; // diagnosed where they are written
        };
        const std::string W = "\xC3\xA9\xF0\x9F\x98\x80";
        const std::string defs = "SYM1 EQU 1\nSYM2 EQU 2\nSYM3 EQU 3\n&VAR1 SETA 1\n&VAR2 SETA 2\n";
        const std::string mac = " MACRO\n MAC &P1,&P2\n MEND\n";
        std::vector<Shape> shapes = {
            { "dc", defs, "LAB@ DC A(SYM1),C'" + W + "',A(SYM2+SYM3)", "", { "SYM1", "SYM2", "SYM3" }, {} },
            { "equ", defs, "LAB@ EQU SYM1*SYM2+C'" + W + "'-SYM3", "", { "SYM1", "SYM2", "SYM3" }, {} },
            { "mach", defs, "LAB@ ST SYM1,SYM2+3(SYM3)", "", { "SYM1", "SYM2", "SYM3" }, {} },
            { "seta", defs, "&A@ SETA &VAR1+K'&VAR2*&VAR2", "", { "&VAR1", "&VAR2" }, {} },
            { "setc", defs, "&C@ SETC '" + W + "&VAR1.x'.'&VAR2'", "", { "&VAR1", "&VAR2" }, {} },
            { "aif", defs, " AIF@ (&VAR1 EQ &VAR2 AND '" + W + "' EQ 'x').SEQ1", ".SEQ1 ANOP\n", { "&VAR1", "&VAR2", ".SEQ1" }, {} },
            { "call", defs + mac, "LAB@ MAC '" + W + "',&VAR1,(a,&VAR2)", "", { "&VAR1", "&VAR2" }, {} },
            { "bmp", defs + mac, "LAB@ MAC '\xC3\xA9\xE6\xBC\xA2',&VAR1,(a,&VAR2)", "", { "&VAR1", "&VAR2" }, {} },
            { "model", defs, "LAB@ DC C'&VAR1" + W + "&VAR2'", "", { "&VAR1", "&VAR2" }, {} },
            { "undef", defs, "LAB@ DC C'" + W + "',A(NONE)", "", {}, { "A(NONE)" } },
            { "vundef", defs + mac, "LAB@ MAC '" + W + "',&NONE", "", {}, { "&NONE" } },
            { "cundef", defs, "&A@ SETA &VAR1+&NONE", "", {}, { "&NONE" } },
        };
        auto lay = [&](const std::vector<std::string>& c, std::vector<std::pair<size_t, size_t>>& pos, size_t line) {
            std::string t;
            size_t col = 0, u = 0;
            for (size_t i = 0; i < c.size(); ++i)
            {
                if (col == 71)
                {
                    t += "X\n" + std::string(15, ' ');
                    ++line;
                    col = u = 15;
                }
                pos.push_back({ line, u });
                t += c[i];
                ++col;
                u += width(c[i]);
            }
            return t + "\n";
        };
        auto where = [&](const std::vector<std::string>& c, const std::string& n) {
            std::vector<size_t> v;
            auto k = chars(n);
            for (size_t i = 0; i + k.size() <= c.size(); ++i)
                if (std::equal(k.begin(), k.end(), c.begin() + i))
                    v.push_back(i);
            return v;
        };
        for (auto& sh : shapes)
            for (int place = 0; place < 3; ++place)
                for (size_t gap = 1; gap < 68; ++gap)
                {
                    if (place == 1 && sh.name == "model") // variables in strings of model statements: C19
                        continue;
                    // two known findings: macro operands after a character outside the basic plane in an earlier line,
                    // and a variable symbol of a model statement that is cut after its ampersand
                    std::string kind = "names ";
                    {
                        std::string st = sh.stmt;
                        st.replace(st.find('@'), 1, rep(gap, " "));
                        auto c = chars(st);
                        std::vector<std::pair<size_t, size_t>> pos;
                        lay(c, pos, 0);
                        bool call = st.find(" MAC ") != std::string::npos, wide = false, cut = false;
                        auto w = where(c, "\xF0\x9F\x98\x80");
                        for (auto& n : sh.names.empty() ? sh.undefined : sh.names)
                            for (auto i : where(c, n))
                            {
                                wide |= call && !w.empty() && pos[w[0]].first < pos[i].first;
                                cut |= ((call && place == 1) || sh.name == "model") && n[0] == '&' && pos[i].first != pos[i + 1].first;
                            }
                        if (wide)
                            kind = "names-wide ";
                        else if (cut)
                            kind = "names-cut-ampersand ";
                    }
                    r.check([&] { return kind + sh.name + " " + std::to_string(place) + " " + std::to_string(gap); }, [&] {
                        std::string st = sh.stmt;
                        st.replace(st.find('@'), 1, rep(gap, " "));
                        // after the operation when the label is absent
                        std::string head = place == 1 ? " MACRO\n MACX\n" : "";
                        std::string before = head + sh.before;
                        if (place == 1 && sh.before.find("MACRO") != std::string::npos)
                            before = mac + head + defs;
                        size_t line = std::count(before.begin(), before.end(), '\n');
                        auto c = chars(st);
                        std::vector<std::pair<size_t, size_t>> pos;
                        std::string t = before + lay(c, pos, line) + sh.after + (place == 1 ? " MEND\n MACX\n" : "");
                        std::string file = "PROG";
                        std::map<std::string, std::string> files;
                        std::string prog = t;
                        if (place == 2)
                        {
                            files["MEM"] = t;
                            file = "MEM";
                            prog = " COPY MEM\n";
                        }
                        Program p(prog, files, nullptr, "PROG", true);
                        ++r.transitions;
                        ++r.validated;
                        auto str = [](size_t l, size_t u) { return std::to_string(l) + ":" + std::to_string(u); };
                        for (auto& n : sh.names)
                        {
                            std::set<std::string> want, is;
                            for (auto i : where(c, n))
                                want.insert(str(pos[i].first, pos[i].second));
                            require(!want.empty(), "no occurrence");
                            auto first = where(c, n)[0];
                            auto refs = p.a->context().lsp_ctx->references(file, position(pos[first].first, pos[first].second));
                            for (auto& x : refs)
                                if (x.file == file && x.pos.line >= line && x.pos.line <= pos.back().first)
                                    is.insert(str(x.pos.line, x.pos.column));
                            std::string a, b;
                            for (auto& x : want)
                                a += x + " ";
                            for (auto& x : is)
                                b += x + " ";
                            require_eq(b, a, "occurrences of " + n);
                        }
                        for (auto& n : sh.undefined)
                            for (auto i : where(c, n))
                            {
                                bool found = false;
                                for (auto& d : p.diags)
                                    found |= d.file == file && d.l1 == pos[i].first && d.c1 == pos[i].second;
                                require(found, n + " is not diagnosed at " + str(pos[i].first, pos[i].second) + ": " + p.show_diags());
                            }
                        r.interesting();
                    });
                }
    }
    return r.finish();
}
