// C16: DC and DS operands - storage, alignment, attributes, validity - against a reference table.
#include "hl_util.h"
#include <optional>
#include "context/ordinary_assembly/symbol.h"
#include "ebcdic_encoding.h"
using namespace verif;

// ---- reference ------------------------------------------------------------------------------------------
enum Cls { BIN, HEX, CHAR, GRAPH, FIXED, PACK, ZONE, FLT, ADDR, SADDR, SYMB };
struct Type
{
    std::string name;
    Cls cls;
    int len;        // implicit length, 0 = as needed
    int align;
    int lmin, lmax; // byte length
    int dsmax;      // with DS
    int bmin, bmax; // bit length, 0 = none
    int smin, smax; // scale; smin > smax = not allowed
    bool sign;      // scale is ignored with a warning
};
static const int NO = 1000;
// clang-format off
static const std::vector<Type> TYPES = {
    { "B",  BIN,   0, 1, 1, 256, 256, 1, 2048, NO, 0, false },
    { "X",  HEX,   0, 1, 1, 256, 65535, 1, 2048, NO, 0, false },
    { "C",  CHAR,  0, 1, 1, 256, 65535, 1, 2048, NO, 0, false },
    { "CA", CHAR,  0, 1, 1, 256, 65535, 1, 2048, NO, 0, false },
    { "CE", CHAR,  0, 1, 1, 256, 65535, 1, 2048, NO, 0, false },
    { "CU", CHAR,  0, 1, 1, 256, 256, 0, 0, NO, 0, false },
    { "G",  GRAPH, 0, 1, 1, 256, 65534, 0, 0, NO, 0, false },
    { "H",  FIXED, 2, 2, 1, 8, 8, 1, 64, -187, 346, false },
    { "F",  FIXED, 4, 4, 1, 8, 8, 1, 64, -187, 346, false },
    { "FD", FIXED, 8, 8, 1, 8, 8, 1, 64, -187, 346, false },
    { "P",  PACK,  0, 1, 1, 16, 16, 1, 128, NO, 0, false },
    { "Z",  ZONE,  0, 1, 1, 16, 16, 1, 128, NO, 0, false },
    { "E",  FLT, 4, 4, 1, 8, 8, 1, 64, 0, 5, false },
    { "EH", FLT, 4, 4, 1, 8, 8, 12, 64, 0, 5, false },
    { "EB", FLT, 4, 4, 4, 4, 4, 32, 32, NO, 0, true },
    { "ED", FLT, 4, 4, 4, 4, 4, 32, 32, NO, 0, true },
    { "D",  FLT, 8, 8, 1, 8, 8, 1, 64, 0, 13, false },
    { "DH", FLT, 8, 8, 1, 8, 8, 12, 64, 0, 13, false },
    { "DB", FLT, 8, 8, 8, 8, 8, 64, 64, NO, 0, true },
    { "DD", FLT, 8, 8, 8, 8, 8, 64, 64, NO, 0, true },
    { "L",  FLT, 16, 8, 1, 16, 16, 1, 128, 0, 27, false },
    { "LH", FLT, 16, 8, 1, 16, 16, 12, 128, 0, 27, false },
    { "LQ", FLT, 16, 16, 1, 16, 16, 12, 128, 0, 27, false },
    { "LB", FLT, 16, 8, 16, 16, 16, 128, 128, NO, 0, true },
    { "LD", FLT, 16, 8, 16, 16, 16, 128, 128, NO, 0, true },
    { "A",  ADDR, 4, 4, 1, 8, 8, 1, 128, NO, 0, false },
    { "AD", ADDR, 8, 8, 1, 8, 8, 1, 128, NO, 0, false },
    { "Y",  ADDR, 2, 2, 1, 2, 2, 1, 16, NO, 0, false },
    { "S",  SADDR, 2, 2, 2, 2, 2, 0, 0, NO, 0, false },
    { "SY", SADDR, 3, 2, 3, 3, 3, 0, 0, NO, 0, false },
    { "V",  SYMB, 4, 4, 3, 4, 4, 0, 0, NO, 0, false },
    { "VD", SYMB, 8, 8, 3, 8, 8, 0, 0, NO, 0, false },
    { "R",  SYMB, 4, 4, 3, 4, 4, 0, 0, NO, 0, false },
    { "RD", SYMB, 8, 8, 3, 8, 8, 0, 0, NO, 0, false },
    { "J",  SYMB, 4, 4, 2, 8, 8, 0, 0, NO, 0, false },
    { "JD", SYMB, 8, 8, 2, 8, 8, 0, 0, NO, 0, false },
    { "Q",  SYMB, 4, 4, 1, 4, 4, 0, 0, NO, 0, false },
    { "QD", SYMB, 8, 16, 1, 8, 8, 0, 0, NO, 0, false },
    { "QY", SYMB, 3, 2, 3, 3, 3, 0, 0, NO, 0, false },
};
// clang-format on
struct Nom
{
    std::string text;       // with apostrophes or parentheses; empty = omitted
    bool ok;                // fits the type
    int first, total, n;    // length of the first value and of all of them (as needed types), number of values
    int scale = 0;          // implied by the first value
    bool reloc = false;
};
static std::vector<Nom> noms(const Type& t)
{
    std::vector<Nom> v = { { "", true, 1, 1, 1 } };
    auto add = [&](std::string s, bool ok, int f, int tot, int n, int sc = 0, bool rel = false) { v.push_back({ s, ok, f, tot, n, sc, rel }); };
    switch (t.cls)
    {
        case BIN:
            add("'1'", true, 1, 1, 1), add("'10101010'", true, 1, 1, 1), add("'101010101'", true, 2, 2, 1);
            add("'1,0'", true, 1, 2, 2), add("'111111111,0,1'", true, 2, 4, 3), add("'10 10'", true, 1, 1, 1);
            add("'1010 1010,1'", true, 1, 2, 2);
            add("'2'", false, 0, 0, 0), add("'1,'", false, 0, 0, 0), add("',1'", false, 0, 0, 0), add("(1)", false, 0, 0, 0);
            break;
        case HEX:
            add("'1'", true, 1, 1, 1), add("'1F'", true, 1, 1, 1), add("'a1B'", true, 2, 2, 1), add("'1,234,5'", true, 1, 4, 3);
            add("'12345,6'", true, 3, 4, 2), add("'01 02'", true, 2, 2, 1), add("'0 1 0,F'", true, 2, 3, 2);
            add("'G'", false, 0, 0, 0), add("'1,'", false, 0, 0, 0), add("'1,,2'", false, 0, 0, 0), add("(1)", false, 0, 0, 0);
            break;
        case CHAR: {
            int u = t.name == "CU" ? 2 : 1;
            v[0].first = v[0].total = u;
            add("'a'", true, u, u, 1), add("'ab'", true, 2 * u, 2 * u, 1), add("'a,b'", true, 3 * u, 3 * u, 1);
            add("'a''b'", true, 3 * u, 3 * u, 1), add("'a&&b'", true, 3 * u, 3 * u, 1), add("' a '", true, 3 * u, 3 * u, 1);
            add("'''&&'", true, 2 * u, 2 * u, 1);
            add("(1)", false, 0, 0, 0);
            break;
        }
        case GRAPH:
            v[0].first = v[0].total = 2;
            add("'<AB>'", true, 2, 2, 1), add("'<ABCD>'", true, 4, 4, 1), add("(1)", false, 0, 0, 0);
            break;
        case FIXED:
            for (auto s : { "'1'", "'-1'", "'+1'", "'U1'", "'1.5'", "'.5'", "'1.'", "'1E2'", "'1.5E-3'", "'-.5E+1'" })
                add(s, true, 0, 0, 1);
            add("'1,2'", true, 0, 0, 2), add("'1E2,-3'", true, 0, 0, 2), add("'1,U2,.3'", true, 0, 0, 3);
            for (auto s : { "'A'", "'1,'", "'1E'", "'.'", "'-'", "'U'", "'1..2'", "',1'", "'1,,2'", "'1-'", "'1E2E3'", "'1-2'", "''", "(1)" })
                add(s, false, 0, 0, 0);
            break;
        case PACK:
            add("'1'", true, 1, 1, 1), add("'12'", true, 2, 2, 1), add("'-123'", true, 2, 2, 1), add("'+1.5'", true, 2, 2, 1, 1);
            add("'.123'", true, 2, 2, 1, 3), add("'12.'", true, 2, 2, 1), add("'1.23,4'", true, 2, 3, 2, 2), add("'1,2.5,345'", true, 1, 5, 3);
            for (auto s : { "'A'", "'1,'", "'.'", "'-'", "'1.2.3'", "',1'", "'1,,2'", "'1-'", "'1E2'", "'U1'", "''", "(1)" })
                add(s, false, 0, 0, 0);
            break;
        case ZONE:
            add("'1'", true, 1, 1, 1), add("'12'", true, 2, 2, 1), add("'-123'", true, 3, 3, 1), add("'+1.5'", true, 2, 2, 1, 1);
            add("'.123'", true, 3, 3, 1, 3), add("'12.'", true, 2, 2, 1), add("'1.23,4'", true, 3, 4, 2, 2), add("'1,2.5,345'", true, 1, 6, 3);
            for (auto s : { "'A'", "'1,'", "'.'", "'-'", "'1.2.3'", "',1'", "'1,,2'", "'1-'", "'1E2'", "'U1'", "''", "(1)" })
                add(s, false, 0, 0, 0);
            break;
        case FLT: {
            for (auto s : { "'1'", "'-1.5'", "'+.5'", "'1.'", "'1E5'", "'1.5E-3'" })
                add(s, true, 0, 0, 1);
            add("'1,2'", true, 0, 0, 2), add("'1E2,-3,4'", true, 0, 0, 3);
            char e = t.name.size() > 1 ? t.name[1] : 0;
            add("'1R4'", e == 'H' || e == 'B', 0, 0, 1), add("'1E2R11,1'", e == 'D', 0, 0, 2), add("'1R2'", false, 0, 0, 1);
            for (auto s : { "'A'", "'1,'", "'1E'", "'.'", "'-'", "'1..2'", "',1'", "'1,,2'", "'U1'", "'1-2'", "''", "(1)" })
                add(s, false, 0, 0, 0);
            break;
        }
        case ADDR:
            add("(1)", true, 0, 0, 1), add("(1,-2)", true, 0, 0, 2), add("(R0+1)", true, 0, 0, 1, 0, true), add("(1,R0,2)", true, 0, 0, 3, 0, true);
            add("(R0-R1)", true, 0, 0, 1), add("(*)", true, 0, 0, 1, 0, true), add("(*-S)", true, 0, 0, 1), add("(1*(2+3))", true, 0, 0, 1);
            for (auto s : { "'1'", "(1(2))", "(U0)" })
                add(s, false, 0, 0, 0);
            break;
        case SADDR:
            add("(0)", true, 0, 0, 1), add("(4095)", true, 0, 0, 1), add("(1(2))", true, 0, 0, 1), add("(4095(15))", true, 0, 0, 1);
            add("(1,2(3))", true, 0, 0, 2);
            {
                bool y = t.name == "SY";
                add("(4096)", y, 0, 0, 1), add("(4096(1))", y, 0, 0, 1), add("(524287(0))", y, 0, 0, 1), add("(-1(0))", y, 0, 0, 1);
                add("(-524288)", y, 0, 0, 1);
            }
            for (auto s : { "'1'", "(1(16))", "(1(-1))", "(524288(1))", "(-524289)", "(U0)" })
                add(s, false, 0, 0, 0);
            break;
        case SYMB:
            add("(R0)", true, 0, 0, 1), add("(R0,R1)", true, 0, 0, 2);
            for (auto s : { "'R0'", "(1)", "(R0+1)", "(1(2))", "(R0,1)" })
                add(s, false, 0, 0, 0);
            break;
    }
    return v;
}
struct Len
{
    std::string text;
    int value; // -1 = omitted
    bool bit;
};
struct Mod
{
    std::string text;
    int value;
    bool present;
};
struct Op
{
    const Type* t;
    Mod dup;
    Len len;
    Mod scale, exp;
    Nom nom;
    std::string text() const { return dup.text + t->name + len.text + scale.text + exp.text + nom.text; }
    bool valid(bool dc) const
    {
        if (dup.value < 0)
            return false;
        if (len.value >= 0)
        {
            if (len.bit)
            {
                // the byte limit of DS applies in bits
                int max = dc ? t->bmax : (t->dsmax != t->lmax ? t->dsmax * 8 : t->bmax);
                if (!t->bmax || len.value < t->bmin || len.value > max)
                    return false;
            }
            else if (len.value < t->lmin || len.value > (dc ? t->lmax : t->dsmax))
                return false;
            if ((t->cls == GRAPH || t->name == "CU") && len.value % 2)
                return false;
            if ((t->name == "VD" || t->name == "RD") && len.value != 3 && len.value != 4 && len.value != 8)
                return false;
            if (t->name[0] == 'J' && len.value != 2 && len.value != 3 && len.value != 4 && len.value != 8)
                return false;
            if (t->cls == ADDR && nom.reloc)
            {
                int max = t->name == "A" ? 4 : t->name == "AD" ? 8 : 2;
                if (len.bit || len.value < 2 || len.value > max)
                    return false;
            }
        }
        if (scale.present && !t->sign && (t->smin > t->smax || scale.value < t->smin || scale.value > t->smax))
            return false;
        if (exp.present && ((t->cls != FIXED && t->cls != FLT) || exp.value < -85 || exp.value > 75))
            return false;
        if (nom.text.empty())
            return !dc || (dup.present && dup.value == 0);
        return nom.ok;
    }
    int align() const { return len.value >= 0 ? 1 : t->align; }
    long long bits() const
    {
        long long b;
        if (len.value >= 0)
            b = (long long)len.value * (len.bit ? 1 : 8) * nom.n;
        else if (t->len)
            b = 8LL * t->len * nom.n;
        else
            b = 8LL * nom.total;
        return b * (dup.present ? dup.value : 1);
    }
    int L() const
    {
        if (len.value >= 0)
            return len.bit ? (len.value + 7) / 8 : len.value;
        return t->len ? t->len : nom.first;
    }
    int S() const { return scale.present ? scale.value : nom.scale; }
    std::optional<int> I() const
    {
        if (len.bit)
            return {}; // not defined by the language
        switch (t->cls)
        {
            case FIXED: return 8 * L() - S() - 1;
            case PACK: return 2 * L() - S() - 1;
            case ZONE: return L() - S();
            case FLT:
                if (t->sign)
                    return {}; // binary and decimal
                return 2 * (L() - 1) - S() - (L() > 8 ? 2 : 0);
            default: return {};
        }
    }
    char T() const
    {
        switch (t->cls)
        {
            case BIN: return 'B';
            case HEX: return 'X';
            case CHAR: return 'C';
            case GRAPH: return '@';
            case PACK: return 'P';
            case ZONE: return 'Z';
            case FIXED: return len.value >= 0 ? 'G' : t->name[0];
            case FLT: return len.value >= 0 ? 'K' : t->name[0];
            default: break;
        }
        if (len.value >= 0)
            return 'R';
        return t->name[0] == 'J' ? 'A' : t->name[0] == 'R' ? 'V' : t->name[0];
    }
    bool si() const { return t->cls == FIXED || t->cls == PACK || t->cls == ZONE || t->cls == FLT; }
};
static long long up(long long x, long long a) { return (x + a - 1) / a * a; }

static int seta(hl::Program& g, const std::string& n)
{
    auto s = g.ctx().get_var_sym(g.ctx().ids().add(n));
    auto a = dynamic_cast<hl::context::set_symbol<int>*>(s.get());
    require(a, n + " not set");
    return a->get_value();
}
static std::string setc(hl::Program& g, const std::string& n)
{
    auto s = g.ctx().get_var_sym(g.ctx().ids().add(n));
    auto a = dynamic_cast<hl::context::set_symbol<std::string>*>(s.get());
    require(a, n + " not set");
    return a->get_value();
}
static long offset(hl::Program& g, const std::string& n)
{
    auto s = g.ctx().ord_ctx.get_symbol(g.ctx().ids().add(n));
    require(s, n + " not defined");
    require(s->kind() == hl::context::symbol_value_kind::RELOC, n + " not relocatable");
    require(!s->value().get_reloc().has_unresolved_space(), n + " unresolved");
    return s->value().get_reloc().offset();
}
// the operands in one statement at the given offset
static void judge(Run& r, bool dc, const std::vector<Op>& ops, int start, bool attrs, bool late_i = false)
{
    std::string o;
    bool valid = true;
    for (auto& x : ops)
    {
        o += (o.empty() ? "" : ",") + x.text();
        valid = valid && x.valid(dc);
    }
    // what depends on symbols defined later has no value in conditional assembly yet
    bool later = (ops[0].len.text + ops[0].scale.text).find('R') != std::string::npos;
    bool si = attrs && valid && ops[0].si();
    std::string p = "S CSECT\n";
    if (start)
        p += " DS XL" + std::to_string(start) + "\n";
    if (attrs && valid && !later)
        p += "&A SETA L'LB\n&B SETC T'LB\n";
    if (si && !later)
        p += "&C SETA S'LB\n&D SETA I'LB\n";
    p += "LB " + std::string(dc ? "DC " : "DS ") + o + "\nEND0 DS X\n";
    if (si)
        p += std::string(later ? "" : "&E SETA S'LB\n&F SETA I'LB\n") + "SEQU EQU S'LB\nIEQU EQU I'LB\n";
    p += "T CSECT\n DS X\nR0 DS F\n DS X\nR1 DS X\n";
    hl::Program g(p);
    ++r.transitions;
    if (!valid)
    {
        require(g.errors(), "accepted: " + o);
        r.interesting();
        ++r.validated;
        return;
    }
    require(!g.errors(), "refused: " + o + ": " + g.show_diags());
    long long at = up(start, ops[0].align()), bit = at * 8;
    long first = (long)at;
    auto run_layout = [&](int qd) {
        auto al = [&](const Op& x) { return x.t->name == "QD" && x.len.value < 0 ? qd : x.align(); };
        bit = up(start, al(ops[0])) * 8;
        first = (long)(bit / 8);
        for (auto& x : ops)
        {
            if (!x.len.bit)
                bit = up(up(bit, 8), 8LL * al(x));
            bit += x.bits();
        }
        return (long)(up(bit, 8) / 8);
    };
    // QD: the boundary is left open between doubleword and quadword
    long end = run_layout(16);
    if (offset(g, "END0") != end || offset(g, "LB") != first)
        end = run_layout(8);
    require_eq(offset(g, "LB"), first, "address of the label of " + o);
    require_eq(offset(g, "END0"), end, "address behind " + o);
    if (attrs)
    {
        auto& x = ops[0];
        auto& a = g.ctx().ord_ctx.get_symbol(g.ctx().ids().add("LB"))->attributes();
        require_eq((int)a.length(), x.L(), "length attribute of " + o);
        require_eq(std::string(1, (char)hlasm_plugin::parser_library::ebcdic_encoding::e2a[(unsigned char)a.type()]), std::string(1, x.T()), "type attribute of " + o);
        if (!later)
            require_eq(seta(g, "A"), x.L(), "length attribute looked up ahead, of " + o);
        if (!later)
            require_eq(setc(g, "B"), std::string(1, x.T()), "type attribute looked up ahead, of " + o);
        if (si && !x.t->sign)
        {
            if (!later)
                require_eq(seta(g, "C"), x.S(), "scale attribute looked up ahead, of " + o);
            if (!later)
                require_eq(seta(g, "E"), x.S(), "scale attribute of " + o);
            if (auto i = x.I(); i && !later)
            {
                require_eq(seta(g, "D"), *i, "integer attribute looked up ahead, of " + o);
                require_eq(seta(g, "F"), *i, "integer attribute of " + o);
            }
            for (auto [n, v] : { std::pair { "SEQU", std::optional<int>(x.S()) }, { "IEQU", later && !late_i ? std::nullopt : x.I() } })
            {
                auto s = g.ctx().ord_ctx.get_symbol(g.ctx().ids().add(n));
                require(s && s->kind() == hl::context::symbol_value_kind::ABS, std::string(n) + " undefined for " + o);
                if (v)
                    require_eq(s->value().get_abs(), *v, std::string(n) + " of " + o);
            }
        }
    }
    ++r.validated;
    if (o.size() > 4)
        r.interesting();
}
static Op simple(const std::string& type, const std::string& len, const std::string& nom, const std::string& dup = "")
{
    Op o;
    for (auto& t : TYPES)
        if (t.name == type)
            o.t = &t;
    o.dup = { dup, dup.empty() ? 1 : atoi(dup.c_str()), !dup.empty() };
    o.len = { len, len.empty() ? -1 : atoi(len.c_str() + (len[1] == '.' ? 2 : 1)), len.size() > 1 && len[1] == '.' };
    o.scale = o.exp = { "", 0, false };
    o.nom = noms(*o.t)[0];
    for (auto& n : noms(*o.t))
        if (n.text == nom)
            o.nom = n;
    require(o.nom.text == nom, "no such nominal value");
    return o;
}

int main(int argc, char** argv)
{
    Run r(argc, argv, 16);
    const std::vector<Mod> DUP = { { "", 1, false }, { "0", 0, true }, { "3", 3, true }, { "(2)", 2, true }, { "(-1)", -1, true }, { "(R1-R0-4)", 1, true } };
    std::vector<Len> LEN = { { "", -1, false } };
    for (int l : { 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 256, 257, 0, 65534, 65535, 65536 })
        LEN.push_back({ "L" + std::to_string(l), l, false });
    LEN.push_back({ "L(2)", 2, false });
    LEN.push_back({ "L(R1-R0)", 5, false });
    for (int l : { 1, 3, 8, 11, 12, 16, 17, 31, 32, 33, 64, 65, 128, 129, 2048, 2049, 0 })
        LEN.push_back({ "L." + std::to_string(l), l, true });
    LEN.push_back({ "L.(3)", 3, true });
    const Mod none { "", 0, false };
    // type x duplication x length x nominal value
    for (int dc = 0; dc < 2; ++dc)
        for (auto& t : TYPES)
        {
            auto ns = noms(t);
            for (auto& d : DUP)
                for (auto& l : LEN)
                {
                    int k = 0;
                    for (auto& n : ns)
                    {
                        // outside the thorough tier the invalid combinations of several invalid parts are thinned out
                        Op o { &t, d, l, none, none, n };
                        if (!r.thorough() && !n.ok && !d.text.empty() && !l.text.empty())
                            continue;
                        ++k;
                        r.check([&] { return std::string(dc ? "DC " : "DS ") + o.text(); }, [&] { judge(r, dc, { o }, 1 + k % 3, true); });
                    }
                }
        }
    // scale and exponent
    std::vector<Mod> SC = { none }, EX = { none };
    for (int s : { 0, 1, 2, 5, 6, 13, 14, 27, 28, -1, -187, -188, 346, 347 })
        SC.push_back({ "S" + std::to_string(s), s, true });
    SC.push_back({ "S(3)", 3, true });
    SC.push_back({ "S(R1-R0)", 5, true });
    for (int s : { 0, 2, -2, 75, 76, -85, -86 })
        EX.push_back({ "E" + std::to_string(s), s, true });
    EX.push_back({ "E(3)", 3, true });
    for (int dc = 0; dc < 2; ++dc)
        for (auto& t : TYPES)
        {
            auto ns = noms(t);
            for (auto& s : SC)
                for (auto& e : EX)
                    for (auto* l : { &LEN[0], &LEN[4], &LEN[8] })
                        for (size_t n = 0; n < std::min<size_t>(ns.size(), r.thorough() ? 99 : 3); ++n)
                        {
                            if (s.text.empty() && e.text.empty())
                                continue;
                            if (n && !ns[n].ok)
                                continue;
                            if (!r.thorough() && s.present && e.present && l != &LEN[0])
                                continue;
                            Op o { &t, DUP[0], *l, s, e, ns[n] };
                            r.check([&] { return std::string(dc ? "DC " : "DS ") + o.text(); }, [&] { judge(r, dc, { o }, 1, true); });
                        }
        }
    // the integer attribute when the length or scale is known only later
    for (auto& t : TYPES)
        if (t.cls == FIXED || t.cls == ZONE)
            for (int k = 0; k < 2; ++k)
            {
                Len late { "L(R1-R0)", 5, false };
                Mod ls { "S(R1-R0)", 5, true };
                Op o { &t, DUP[0], k || t.cls == ZONE ? late : LEN[0], k || t.cls == ZONE ? none : ls, none, noms(t)[1] };
                r.check([&] { return "late-integer " + o.text(); }, [&] { judge(r, true, { o }, 1, true, true); });
            }
    // every type letter with every extension: exactly the known ones are accepted
    for (char a = 'A'; a <= 'Z'; ++a)
        for (char e : std::string(" ABCDFGHIJKMNOQRTUVWXYZ"))
        {
            std::string name(1, a);
            if (e != ' ')
                name += e;
            bool known = false;
            for (auto& t : TYPES)
                known = known || t.name == name;
            for (int lower = 0; lower < 2; ++lower)
                r.check([&] { return "type " + name + (lower ? " lower" : ""); },
                    [&] {
                        auto n = name;
                        if (lower)
                            for (auto& c : n)
                                c = (char)tolower(c);
                        hl::Program g("S CSECT\nLB DS " + n + "\n");
                        require_eq(g.errors(), !known, "DS " + n + " refused; " + g.show_diags());
                        ++r.validated;
                        ++r.transitions;
                    });
        }
    // several operands
    const std::vector<Op> POOL = { simple("X", "", "'1'"), simple("X", "", "'1,234,5'"), simple("C", "L3", "'a'"), simple("H", "", "'1'"), simple("F", "", "'1,2'"),
        simple("F", "L3", "'1'"), simple("D", "", "'1'"), simple("LQ", "", "'1'"), simple("F", "", "'1'", "0"), simple("D", "", "'1'", "0"), simple("X", "L.3", "'1'"),
        simple("B", "L.8", "'1'"), simple("F", "L.12", "'1,2'"), simple("X", "L.3", "'1'", "3"), simple("A", "", "(1)"), simple("A", "", "(*)"), simple("Y", "", "(R0+1)"),
        simple("S", "", "(1(2))"), simple("P", "", "'1.23,4'"), simple("X", "", "'1'", "3"), simple("FD", "", "'1'"), simple("X", "", "'G'"), simple("AD", "L3", "(R0+1)"),
        simple("V", "", "(R0)") };
    int np = (int)POOL.size();
    for (int dc = 0; dc < 2; ++dc)
        for (int st = 0; st <= (r.thorough() ? 8 : 3); ++st)
            for (int i = 0; i < np; ++i)
                for (int j = 0; j < np; ++j)
                    r.check([&] { return "two " + std::to_string(st) + (dc ? " DC " : " DS ") + POOL[i].text() + " , " + POOL[j].text(); },
                        [&] { judge(r, dc, { POOL[i], POOL[j] }, st, st == 1); });
    for (int st = 0; st <= (r.thorough() ? 5 : 1); ++st)
        for (int i = 0; i < np; ++i)
            for (int j = 0; j < np; ++j)
                for (int k = 0; k < np; ++k)
                    r.check([&] { return "three " + std::to_string(st) + " DC " + POOL[i].text() + " , " + POOL[j].text() + " , " + POOL[k].text(); },
                        [&] { judge(r, true, { POOL[i], POOL[j], POOL[k] }, st, false); });
    return r.finish();
}
