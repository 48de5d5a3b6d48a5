// C20: any text is analysed to an end, deterministically, with well-formed results.
//
// Every text of several finite families is analysed by the real analyzer: with and without highlighting, and with correct
// statements after it. Judged: the analysis ends, every diagnostic and every token lies within the text of its file, tokens
// are in order, the diagnostics are the same each time and do not depend on what follows.
#include "hl_util.h"

#include "semantics/source_info_processor.h"

using namespace verif;
using namespace hl;

// the length in UTF-16 units of every line of a text
static std::vector<size_t> lengths(const std::string& t)
{
    std::vector<size_t> v { 0 };
    for (size_t i = 0; i < t.size(); ++i)
    {
        unsigned char c = t[i];
        if (c == '\n' || c == '\r')
        {
            if (c == '\r' && i + 1 < t.size() && t[i + 1] == '\n')
                ++i;
            v.push_back(0);
        }
        else if (c >= 0xF0)
            v.back() += 2;
        else if (c < 0x80 || c >= 0xC0)
            v.back() += 1;
    }
    return v;
}

static std::string inside(const std::vector<size_t>& len, size_t l1, size_t c1, size_t l2, size_t c2, size_t slack = 0)
{
    auto at = [](size_t l, size_t c) { return std::to_string(l) + ":" + std::to_string(c); };
    if (l1 > l2 || (l1 == l2 && c1 > c2))
        return "ends before it starts " + at(l1, c1) + "-" + at(l2, c2);
    if (l2 >= len.size())
        return "is after the last line " + at(l1, c1) + "-" + at(l2, c2) + " of " + std::to_string(len.size());
    if (c1 > len[l1])
        return "starts behind the end of the line " + at(l1, c1) + "-" + at(l2, c2) + ", the line has " + std::to_string(len[l1]);
    if (c2 > len[l2] + slack)
        return "ends behind the end of the line " + at(l1, c1) + "-" + at(l2, c2) + ", the line has " + std::to_string(len[l2]);
    return {};
}

static std::vector<Diag> sorted(std::vector<Diag> v)
{
    std::sort(v.begin(), v.end());
    return v;
}

struct Case
{
    std::string text;
    std::map<std::string, std::string> files;
    std::string after; // correct statements that may follow, empty: not tried
    // records that AINSERT inserted are located in other lines (a known finding, its own case below)
    bool inserted = false;
};

static void judge(Run& r, const Case& c)
{
    Program p(c.text, c.files, nullptr, "PROG", true);
    if (!p.diags.empty())
        r.interesting();
    std::map<std::string, std::vector<size_t>> len;
    len["PROG"] = lengths(c.text);
    for (auto& [n, t] : c.files)
        len[n] = lengths(t);
    for (auto& d : p.diags)
    {
        require(len.count(d.file), "diagnostic " + d.code + " names the file '" + d.file + "'");
        if (c.inserted)
            continue;
        auto e = inside(len[d.file], d.l1, d.c1, d.l2, d.c2, 1 /* a missing character is marked just behind the text */);
        require(e.empty(), "diagnostic range " + e + " (" + d.code + " " + d.msg + ") in " + d.file);
    }
    size_t l = 0, col = 0;
    for (auto& t : p.a->source_processor().semantic_tokens())
    {
        auto& g = t.token_range;
        if (c.inserted)
            continue;
        auto e = inside(len["PROG"], g.start.line, g.start.column, g.end.line, g.end.column);
        require(e.empty(), "token range " + e + " scope " + std::to_string((int)t.scope));
        require(g.start.line == g.end.line && g.start.column < g.end.column, "token range is empty or not in one line");
        require(g.start.line > l || (g.start.line == l && g.start.column >= col), "token range is not in order");
        l = g.start.line;
        col = g.start.column;
    }
    ++r.validated;
    Program q(c.text + c.after, c.files, nullptr, "PROG", false);
    ++r.transitions;
    // no statement swallows the ones after it, unless it ends the program or the branches are exhausted
    if (c.after.find("ZZZZ9") != std::string::npos && c.text.find(" END") == std::string::npos && q.codes().find("E055") == std::string::npos)
        require(q.ctx().ord_ctx.symbol_defined(q.ctx().ids().add("ZZZZ9")), "the statements after it are not processed: " + q.show_diags());
    auto drop = [](std::vector<Diag> v) {
        v.erase(std::remove_if(v.begin(), v.end(), [](auto& d) { return d.code == "E055"; }), v.end()); // ACTR counts all statements
        return sorted(v);
    };
    require(drop(p.diags) == drop(q.diags),
        (c.after.empty() ? "diagnostics differ without highlighting: " : "diagnostics differ with correct statements after: ") + p.show_diags() + " / " + q.show_diags());
}

int main(int argc, char** argv)
{
    Run r(argc, argv, 16);
    const bool deep = r.thorough();
    const std::string after = "\n LR 1,1\nZZZZ9 EQU 1\n ANOP\n";

    auto check = [&](const std::string& name, const Case& c) {
        r.check([&] { return name; }, [&] { judge(r, c); });
    };
    auto show = [](const std::string& s) { return verif::esc(s); };

    // -------------------------------------------------- 1: raw texts
    {
        std::vector<std::string> ch = { " ", "\n", "A", "&", ".", "'", "(", ")", "*", ",", "1", "\r\n", "\t", "-", "=", "\xC3\xA9", "\xF0\x9F\x98\x80", std::string(1, 0), "\xEF\xBB\xBF" };
        auto rec = [&](auto& self, const std::string& s, size_t n, size_t alphabet, bool two) -> void {
            if (!s.empty())
            {
                check("raw " + show(s), { s, {}, "" });
                if (two)
                    check("raw in macro " + show(s), { " MACRO\n MAC\n" + s + "\n MEND\n MAC\n", {}, "" });
            }
            if (n)
                for (size_t i = 0; i < alphabet; ++i)
                    self(self, s + ch[i], n - 1, alphabet, two);
        };
        rec(rec, "", 3, ch.size(), false);
        rec(rec, "", deep ? 5 : 4, 9, true);
    }

    // -------------------------------------------------- 2: one statement with every operand field
    const std::vector<std::string> tok = { ",", "(", ")", "'", "&", ".", "*", "-", "=", "A", "B", "1", "&A", "&(", "'A'", "C'", "L'", "F", "X'", " ", "&B(", "\xC3\xA9", "T'A", "EQ", "\xF0\x9F\x98\x80", "&&", "A'", "=A(", "@", "&SYSLIST(" };
    const std::vector<std::string> ca = { "&A SETA", "&B SETC", "&C SETB", " AIF", " AGO", " LCLA", " GBLC", "&A(1) SETA", " ACTR", ".S ANOP", "&B AREAD", " SETC", ".S AIF" };
    const std::vector<std::string> as = { " DC", "A DS", "A EQU", " ORG", " USING", " DROP", " COPY", "A OPSYN", " CCW", " CNOP", " EXTRN", " ENTRY", " START", "A CSECT", "A DSECT", "A LOCTR", " END", " LTORG",
        " MNOTE", " PRINT", " PUSH", " TITLE", " ICTL", " ISEQ", " PUNCH", " REPRO", " AMODE", " CATTR", " ALIAS", " AINSERT", " ADATA", " ACONTROL", " EXITCTL", " EJECT", " SPACE", " XATTR", " WXTRN", "A COM", "A RSECT", " DXD", "A CXD",
        "*PROCESS" };
    const std::vector<std::string> ma = { " LR", " L", " MVC", " J", " BC", "A VLR", " SVC", " NOSUCH", " MAC", "&A MAC", " PK" };
    auto stmt = [&](const std::string& head, const std::string& ops, int place) {
        std::string s = head + " " + ops;
        if (head[0] == '*')
            s += "\n";
        const std::string mac = " MACRO\n&L MAC &P,&Q=1\n MEND\n";
        std::map<std::string, std::string> files { { "B", "B EQU 1\n" } };
        switch (place)
        {
            case 0:
                check("open " + show(s), { mac + s, files, after });
                break;
            case 1:
                check("macro " + show(s), { mac + " MACRO\n MAC2 &X\n" + s + "\n MEND\n MAC2 1,A\n", files, "* c\n LR 1,1\n" });
                break;
            case 2:
                check("member " + show(s), { " COPY MEM", { { "MEM", mac + s }, { "B", "B EQU 1\n" } }, after });
                break;
            case 3:
                check("lookahead " + show(s), { " AIF (L'LATER EQ 4).X\n" + s + "\nLATER DS F\n.X ANOP\n", files, " LR 1,1\n" });
                break;
        }
    };
    auto gen = [&](const std::vector<std::string>& heads, size_t n, size_t alphabet, std::vector<int> places) {
        auto rec = [&](auto& self, const std::string& h, const std::string& s, size_t k) -> void {
            for (int p : places)
                stmt(h, s, p);
            if (k)
                for (size_t i = 0; i < alphabet; ++i)
                    self(self, h, s + tok[i], k - 1);
        };
        for (auto& h : heads)
            rec(rec, h, "", n);
    };
    gen(ca, 2, tok.size(), { 0, 1, 2, 3 });
    gen(as, 2, tok.size(), { 0 });
    gen(as, 2, deep ? tok.size() : 18, { 1 });
    gen(ma, 2, tok.size(), { 0, 1 });
    gen(ca, 3, deep ? tok.size() : 12, { 0 });
    gen({ " DC", "A EQU", " MAC", " L" }, 3, deep ? tok.size() : 14, { 0 });
    if (deep)
    {
        gen(as, 3, 15, { 0, 1, 3 });
        gen(ma, 3, 15, { 0, 1, 3 });
        gen({ "&A SETA", "&B SETC", " AIF", " MAC", " DC" }, 4, 14, { 0 });
    }

    // -------------------------------------------------- substituted parts of characters
    for (auto* c : { "\xC3\xA9", "\xE6\xBC\xA2", "\xF0\x9F\x98\x80" })
        for (int from = 1; from < 5; ++from)
            for (int n = 1; n < 4; ++n)
                for (auto* use : { " &A", "&A LR 1,1", " LR &A", " MNOTE 8,'&A'", " DC C'&A'", " DC &A", " MAC &A", "&B SETC '&A&A'", "&(&A) SETC 'x'", " AGO .&A", " COPY &A", " AINSERT '&A',BACK", " EQU &A", " USING &A,1", " TITLE '&A'" })
                {
                    std::string s = "&A SETC '" + std::string(c) + "x'(" + std::to_string(from) + "," + std::to_string(n) + ")\n" + use;
                    check("part " + show(s), { " MACRO\n MAC &P\n MNOTE '&P'\n DC C'&P'\n MEND\n" + s, {}, s.find("AINSERT") == std::string::npos ? after : "", s.find("AINSERT") != std::string::npos });
                    check("part macro " + show(s), { " MACRO\n MAC &P\n MEND\n MACRO\n MACX\n" + s + "\n MEND\n MACX\n", {}, "", s.find("AINSERT") != std::string::npos });
                }

    // -------------------------------------------------- substituted text that is longer or shorter than what is written
    for (auto* v : { "1,(", "1,1)", "''", "1,,,,,,,,,,,,(", "", " x", "C''A''", "1+", "=A(", "(1,2", "A(1),B)", "aaaaaaaaaaaaaaaaaaaa bbbbbbb" })
        for (auto* use : { " LR &A", " L 1,&A", " MNOTE 8,'&A'", " MNOTE &A", " DC C'&A'", " DC &A", " MAC &A", " MAC (&A", " COPY &A", " EQU &A", " USING &A,1", " TITLE '&A'", " DS 0&A", " ORG &A+", "&A LR 1,1", " &A", " &A &A" })
        {
            std::string s = "&A SETC '" + std::string(v) + "'\n" + use;
            check("subst " + show(s), { " MACRO\n MAC &P\n DC C'&P'\n MEND\n" + s, {}, after });
            check("subst macro " + show(s), { " MACRO\n MAC &P\n LR &P\n MEND\n MACRO\n MACX\n" + s + "\n MEND\n MACX\n", {}, "" });
        }

    // -------------------------------------------------- 3: sequences of statements
    {
        const std::vector<std::string> ls = { " MACRO", " MEND", " MAC", " MAC &A", " AGO .X", ".X ANOP", " COPY CPY", "&A SETA 1", " MEXIT", " AIF (1).X", " END", "A EQU B", "B EQU A", " LR A,B", "* c", "", " &A", "&V AREAD", " DC A(X)",
            "X DS (L'Y)F", "Y DS (L'X)F", " ICTL 1,71,16", " AINSERT ' LR 1',BACK", "LR OPSYN MAC", " OPSYN", " AIF (T'A EQ 'U').X" };
        check("inserted record", { " LR 1,1\n AINSERT ' LR 1',BACK\n", {}, "" });
        auto rec = [&](auto& self, const std::string& s, size_t n, size_t lim) -> void {
            if (!s.empty())
            {
                const bool ins = s.find("AINSERT") != std::string::npos;
                check("lines " + show(s), { " ACTR 30\n" + s, { { "CPY", " AGO .X\n MAC\n" }, { "MAC", " MACRO\n MAC &B\n ACTR 30\n LR &B\n AGO .X\n MEND\n" } }, "", ins });
                if (n == 0)
                    check("lines no end " + show(s), { " ACTR 30\n" + s.substr(0, s.size() - 1), { { "CPY", " MACRO\n MAC" } }, "", ins });
            }
            if (n)
                for (size_t i = 0; i < lim; ++i)
                    self(self, s + ls[i] + "\n", n - 1, lim);
        };
        rec(rec, "", deep ? 4 : 3, ls.size());
        rec(rec, "", deep ? 5 : 4, 11);
    }
    return r.finish();
}
