// C11: conditional-assembly expressions against an independent evaluator.
#include "hl_util.h"
#include <functional>
#include <optional>
using namespace verif;

static const int64_t MAXA = 2147483647, MINA = -2147483648LL;

struct Val
{
    bool ok = false;
    int64_t a = 0;
    std::string c;
    char t = 'A';
};
static Val A(int64_t v) { return { v >= MINA && v <= MAXA, v, "", 'A' }; }
static Val B(bool v) { return { true, v, "", 'B' }; }
static Val C(std::string s) { return { s.size() <= 4064, 0, std::move(s), 'C' }; }
static Val ERR(char t = 'A')
{
    Val v;
    v.t = t;
    return v;
}

// ---- EBCDIC of the invariant characters
static int ebc(char c)
{
    if (c >= '0' && c <= '9')
        return 0xF0 + c - '0';
    auto alpha = [](int o) { return o < 9 ? 1 + o : o < 18 ? 0x11 + o - 9 : 0x22 + o - 18; };
    if (c >= 'A' && c <= 'Z')
        return 0xC0 + alpha(c - 'A');
    if (c >= 'a' && c <= 'z')
        return 0x80 + alpha(c - 'a');
    static const std::map<char, int> m = { { ' ', 0x40 }, { '.', 0x4b }, { '<', 0x4c }, { '(', 0x4d }, { '+', 0x4e }, { '&', 0x50 }, { '$', 0x5b }, { '*', 0x5c }, { ')', 0x5d }, { ';', 0x5e }, { '-', 0x60 }, { '/', 0x61 }, { ',', 0x6b }, { '%', 0x6c }, { '_', 0x6d }, { '>', 0x6e }, { '?', 0x6f }, { ':', 0x7a }, { '#', 0x7b }, { '@', 0x7c }, { '\'', 0x7d }, { '=', 0x7e }, { '"', 0x7f } };
    auto it = m.find(c);
    return it == m.end() ? -1 : it->second;
}
static std::optional<char> unebc(int b)
{
    for (int c = 32; c < 127; ++c)
        if (ebc((char)c) == b)
            return (char)c;
    return std::nullopt;
}

// ---- one program with many SETx statements; every statement is judged on its own
struct Item
{
    char kind;
    std::string expr;
    Val want;
};
static std::string prelude()
{
    return hl::lines({ "         MACRO", "         MEND" }) // nothing; keeps the first line a statement
        .substr(0, 0)
        + hl::lines({ "&MIN     SETA  -2147483647-1", "&MAX     SETA  2147483647", "&ONE     SETA  1", "&NEG     SETA  -5", "&BT      SETB  1", "&BF      SETB  0", "&CE      SETC  ''", "&C12     SETC  '12'", "&CX      SETC  'X''1F'''", "&CA      SETC  'A'", "&CAB     SETC  'AB'", "&ARR(1)  SETA  10,20,30", "&CARR(2) SETC  'P','Q'", "EQ5      EQU   5" });
}
static size_t prelude_lines = 0;
static void judge(Run& r, const std::vector<Item>& v, const std::string& pre = prelude())
{
    std::string t = pre;
    size_t base = std::count(t.begin(), t.end(), '\n');
    for (size_t i = 0; i < v.size(); ++i)
    {
        std::string lab = std::string("&R") + v[i].kind + "(" + std::to_string(i + 1) + ")";
        std::string line = lab + std::string(lab.size() < 10 ? 10 - lab.size() : 1, ' ') + "SET" + v[i].kind + " " + v[i].expr;
        require(line.size() <= 71, "harness: line too long: " + line);
        t += line + "\n";
    }
    hl::Program p(t);
    std::map<size_t, std::string> bad;
    for (auto& d : p.diags)
        bad[d.l1] += d.code + " ";
    for (size_t i = 0; i < base; ++i)
        require(!bad.count(i), "prelude line diagnosed: " + p.show_diags());
    std::shared_ptr<hl::context::variable_symbol> sym[3];
    std::string errs;
    auto require = [&](bool c, const std::string& m) {
        if (!c)
        {
            if (errs.size() < (r.replaying() ? 20000u : 600u))
                errs += (errs.empty() ? "" : "; ") + m;
            throw 1;
        }
    };
    for (size_t i = 0; i < v.size(); ++i)
    try {
        auto& it = v[i];
        r.tick();
        r.transitions++;
        std::string what = std::string("SET") + it.kind + " " + it.expr;
        bool diag = bad.count(base + i) > 0;
        if (!it.want.ok)
        {
            require(diag, what + ": has no value but is not diagnosed");
            continue;
        }
        require(!diag, what + ": diagnosed " + bad[base + i]);
        auto name = std::string("R") + it.kind;
        auto& s = sym[it.kind - 'A'];
        if (!s)
            s = p.ctx().get_var_sym(p.ctx().ids().add(name));
        require(s && s->access_set_symbol_base(), what + ": no variable");
        auto b = s->access_set_symbol_base();
        if (it.kind == 'A')
        {
            auto x = b->access_set_symbol<hl::context::A_t>()->get_value(i);
            require(x == it.want.a, what + " = " + std::to_string(x) + ", should be " + std::to_string(it.want.a));
        }
        else if (it.kind == 'B')
        {
            bool x = b->access_set_symbol<hl::context::B_t>()->get_value(i);
            require(x == (it.want.a != 0), what + " = " + std::to_string(x) + ", should be " + std::to_string(it.want.a));
        }
        else
        {
            auto& x = b->access_set_symbol<hl::context::C_t>()->get_value(i);
            require(x == it.want.c, what + " = '" + x.substr(0, 200) + "', should be '" + it.want.c.substr(0, 200) + "'");
        }
        r.interesting();
        r.state(what);
    }
    catch (int)
    {}
    verif::require(errs.empty(), errs);
}
struct Batch
{
    Run& r;
    std::string family;
    std::string pre = prelude();
    std::vector<Item> v;
    size_t n = 0;
    void add(char kind, const std::string& e, const Val& w)
    {
        v.push_back({ kind, e, w });
        if (v.size() >= 100)
            flush();
    }
    void flush()
    {
        if (v.empty())
            return;
        r.check([&] { return family + " batch " + std::to_string(n) + " from " + v[0].expr; }, [&] { judge(r, v, pre); });
        ++n;
        v.clear();
    }
    ~Batch() { flush(); }
};

struct T
{
    std::string s;
    Val v;
};

// ---- flat arithmetic with usual precedence
static Val bin(char op, const Val& x, const Val& y)
{
    if (!x.ok || !y.ok)
        return ERR();
    switch (op)
    {
        case '+': return A(x.a + y.a);
        case '-': return A(x.a - y.a);
        case '*': return A(x.a * y.a);
        default: return y.a == 0 ? A(0) : A(x.a / y.a);
    }
}
static Val flat(const std::vector<Val>& t, const std::string& ops)
{
    // sums of products, left to right
    std::vector<Val> sums;
    std::string so;
    Val cur = t[0];
    for (size_t i = 0; i < ops.size(); ++i)
    {
        if (ops[i] == '*' || ops[i] == '/')
            cur = bin(ops[i], cur, t[i + 1]);
        else
        {
            sums.push_back(cur);
            so += ops[i];
            cur = t[i + 1];
        }
    }
    sums.push_back(cur);
    Val x = sums[0];
    for (size_t i = 0; i < so.size(); ++i)
        x = bin(so[i], x, sums[i + 1]);
    return x;
}
static Val neg(const Val& x) { return x.ok ? A(-x.a) : x; }

static void arithmetic(Run& r, bool th)
{
    std::vector<T> big = { { "0", A(0) }, { "1", A(1) }, { "2", A(2) }, { "7", A(7) }, { "65536", A(65536) }, { "2147483647", A(MAXA) }, { "&MIN", A(MINA) }, { "&MAX", A(MAXA) }, { "&NEG", A(-5) }, { "X'FF'", A(255) }, { "X'FFFFFFFF'", A(-1) }, { "B'1011'", A(11) }, { "C'A'", A(0xC1) }, { "C'ZZZZ'", A((int32_t)0xE9E9E9E9) }, { "&C12", A(12) }, { "&CX", A(31) }, { "&CE", A(0) }, { "&BT", A(1) }, { "&ARR(2)", A(20) }, { "&ARR(9)", A(0) }, { "&CARR(9)", A(0) }, { "EQ5", A(5) }, { "K'&CAB", A(2) }, { "N'&ARR", A(3) }, { "(3)", A(3) }, { "&(MA&CE.X)", A(MAXA) }, { "&ARR(&ONE+1)", A(20) }, { "&ARR(&ARR(1)-7)", A(30) }, { "L'EQ5", A(1) }, { "D'EQ5", A(1) }, { "D'NOSUCH", A(0) } };
    std::vector<std::string> signs = { "", "-", "+", "--", "-+-" };
    auto sg = [&](const std::string& s, Val v) {
        for (char c : s)
            if (c == '-')
                v = v; // applied inside out below
        size_t n = std::count(s.begin(), s.end(), '-');
        for (size_t i = 0; i < n; ++i)
            v = neg(v);
        return v;
    };
    {
        Batch b { r, "unary" };
        for (auto& t : big)
            for (auto& s : signs)
                b.add('A', s + t.s, sg(s, t.v));
    }
    {
        Batch b { r, "binary" };
        for (auto& x : big)
            for (auto& y : big)
                for (char op : std::string("+-*/"))
                    for (auto& s : std::vector<std::string> { "", "-" })
                        for (auto& s2 : std::vector<std::string> { "", "-" })
                            b.add('A', s + x.s + op + s2 + y.s, bin(op, sg(s, x.v), sg(s2, y.v)));
    }
    std::vector<T> small = { { "0", A(0) }, { "3", A(3) }, { "7", A(7) }, { "&NEG", A(-5) }, { "&MAX", A(MAXA) }, { "C'A'", A(0xC1) } };
    if (th)
        small.push_back({ "&MIN", A(MINA) }), small.push_back({ "1", A(1) });
    size_t N = 4;
    {
        Batch b { r, "flat" };
        std::vector<Val> v;
        std::string txt, ops;
        std::function<void(size_t)> rec = [&](size_t i) {
            if (i >= 3)
                b.add('A', txt, flat(v, ops));
            if (i == N)
                return;
            for (auto& t : small)
            {
                if (i == 3 && !th && t.s != "3" && t.s != "&NEG" && t.s != "7")
                    continue;
                for (char op : i ? std::string("+-*/") : std::string(" "))
                {
                    auto keep = txt;
                    if (i)
                        txt += op, ops += op;
                    txt += t.s;
                    v.push_back(t.v);
                    rec(i + 1);
                    v.pop_back();
                    txt = keep;
                    if (i)
                        ops.pop_back();
                }
            }
        };
        rec(0);
    }
    {
        // parentheses: every shape of three operators
        Batch b { r, "paren" };
        std::vector<T> q = { { "2", A(2) }, { "7", A(7) }, { "&NEG", A(-5) }, { "&MAX", A(MAXA) } };
        std::string o = "+-*/";
        for (char o1 : o)
            for (char o2 : o)
                for (char o3 : o)
                    for (auto& w : q)
                        for (auto& x : q)
                            for (auto& y : q)
                                for (auto& z : q)
                                {
                                    if (!th && (&w - &q[0] + (&z - &q[0])) % 2)
                                        continue;
                                    auto s = [](char c) { return std::string(1, c); };
                                    b.add('A', "(" + w.s + s(o1) + x.s + ")" + s(o2) + "(" + y.s + s(o3) + z.s + ")", bin(o2, bin(o1, w.v, x.v), bin(o3, y.v, z.v)));
                                    b.add('A', w.s + s(o1) + "(" + x.s + s(o2) + "(" + y.s + s(o3) + z.s + "))", bin(o1, w.v, bin(o2, x.v, bin(o3, y.v, z.v))));
                                    b.add('A', "((" + w.s + s(o1) + x.s + ")" + s(o2) + y.s + ")" + s(o3) + z.s, bin(o3, bin(o2, bin(o1, w.v, x.v), y.v), z.v));
                                    b.add('A', w.s + s(o1) + "-(" + x.s + s(o2) + y.s + ")" + s(o3) + z.s, flat({ w.v, neg(bin(o2, x.v, y.v)), z.v }, s(o1) + s(o3)));
                                }
    }
}

// ---- infix functions
static Val infix(const std::string& op, const Val& x, const Val& y)
{
    if (!x.ok || !y.ok)
        return ERR();
    uint32_t u = (uint32_t)x.a, w = (uint32_t)y.a;
    auto i = [](uint32_t z) { return A((int32_t)z); };
    if (op == "AND")
        return i(u & w);
    if (op == "OR")
        return i(u | w);
    if (op == "XOR")
        return i(u ^ w);
    unsigned n = w & 63;
    bool neg = u >> 31;
    // bit by bit
    for (unsigned k = 0; k < n; ++k)
    {
        if (op == "SLL")
            u = u << 1;
        else if (op == "SRL")
            u = u >> 1;
        else if (op == "SRA")
            u = (u >> 1) | (neg ? 0x80000000u : 0);
        else
            u = ((u << 1) & 0x7fffffffu) | (neg ? 0x80000000u : 0);
    }
    return i(u);
}
static int aprio(const std::string& op) { return op[0] == 'S' ? 1 : 2; } // AND OR XOR bind tighter than shifts
static Val alist(const std::vector<Val>& t, const std::vector<std::string>& ops, size_t lo, size_t hi)
{
    // the loosest operator, the last of those
    if (lo == hi)
        return t[lo];
    size_t at = lo;
    int best = 99;
    for (size_t i = lo; i < hi; ++i)
        if (aprio(ops[i]) <= best)
            best = aprio(ops[i]), at = i;
    return infix(ops[at], alist(t, ops, lo, at), alist(t, ops, at + 1, hi));
}
static void arith_lists(Run& r, bool th)
{
    std::vector<std::string> ops = { "AND", "OR", "XOR", "SLA", "SLL", "SRA", "SRL" };
    std::vector<T> big = { { "0", A(0) }, { "1", A(1) }, { "2", A(2) }, { "31", A(31) }, { "32", A(32) }, { "33", A(33) }, { "63", A(63) }, { "64", A(64) }, { "65", A(65) }, { "-1", A(-1) }, { "&MAX", A(MAXA) }, { "&MIN", A(MINA) }, { "&NEG", A(-5) }, { "X'40000000'", A(0x40000000) }, { "X'C0000001'", A((int32_t)0xC0000001) }, { "X'5A5A5A5A'", A(0x5A5A5A5A) }, { "-32", A(-32) } };
    {
        Batch b { r, "infix2" };
        for (auto& x : big)
            for (auto& y : big)
                for (auto& op : ops)
                {
                    b.add('A', "(" + x.s + " " + op + " " + y.s + ")", infix(op, x.v, y.v));
                    b.add('A', "(NOT " + x.s + " " + op + " NOT " + y.s + ")", infix(op, A(~x.v.a), A(~y.v.a)));
                    b.add('A', "(" + x.s + " " + op + " " + y.s + ")+1", bin('+', infix(op, x.v, y.v), A(1)));
                }
    }
    {
        Batch b { r, "infixn" };
        std::vector<T> q = { { "3", A(3) }, { "10", A(10) }, { "&NEG", A(-5) } };
        std::vector<Val> v;
        std::vector<std::string> os;
        std::string txt;
        size_t N = th ? 5 : 4;
        std::function<void(size_t)> rec = [&](size_t i) {
            if (i >= 3)
                b.add('A', "(" + txt + ")", alist(v, os, 0, v.size() - 1));
            if (i == N)
                return;
            for (auto& t : q)
            {
                if (i == 4 && t.s != "3")
                    continue;
                for (int nt = 0; nt < (i < 3 ? 2 : 1); ++nt)
                {
                    if (!th && nt && i == 0)
                        continue;
                    for (auto& op : i ? ops : std::vector<std::string> { "" })
                    {
                        if (i >= 2 && !th && (op == "SLA" || op == "SRL" || op == "XOR"))
                            continue;
                        auto keep = txt;
                        if (i)
                            txt += " " + op + " ", os.push_back(op);
                        txt += (nt ? "NOT " : "") + t.s;
                        v.push_back(nt ? A(~t.v.a) : t.v);
                        rec(i + 1);
                        v.pop_back();
                        if (i)
                            os.pop_back();
                        txt = keep;
                    }
                }
            }
        };
        rec(0);
    }
}

// ---- logical
static bool lop(const std::string& op, bool x, bool y)
{
    if (op == "AND")
        return x && y;
    if (op == "OR")
        return x || y;
    if (op == "XOR")
        return x != y;
    if (op == "AND NOT")
        return x && !y;
    if (op == "OR NOT")
        return x || !y;
    return x == y;
}
static int lprio(const std::string& op) { return op[0] == 'X' ? 0 : op[0] == 'O' ? 1 : 2; }
static bool llist(const std::vector<bool>& t, const std::vector<std::string>& ops, size_t lo, size_t hi)
{
    if (lo == hi)
        return t[lo];
    size_t at = lo;
    int best = 99;
    for (size_t i = lo; i < hi; ++i)
        if (lprio(ops[i]) <= best)
            best = lprio(ops[i]), at = i;
    return lop(ops[at], llist(t, ops, lo, at), llist(t, ops, at + 1, hi));
}
static int cmp_str(const std::string& x, const std::string& y)
{
    if (x.size() != y.size())
        return x.size() < y.size() ? -1 : 1;
    for (size_t i = 0; i < x.size(); ++i)
        if (ebc(x[i]) != ebc(y[i]))
            return ebc(x[i]) < ebc(y[i]) ? -1 : 1;
    return 0;
}
static bool rel(const std::string& op, int c)
{
    return op == "EQ" ? c == 0 : op == "NE" ? c != 0 : op == "LT" ? c < 0 : op == "LE" ? c <= 0 : op == "GT" ? c > 0 : c >= 0;
}
static void logical(Run& r, bool th)
{
    std::vector<std::string> rels = { "EQ", "NE", "LT", "LE", "GT", "GE" };
    {
        Batch b { r, "compare" };
        std::vector<T> big = { { "0", A(0) }, { "1", A(1) }, { "-1", A(-1) }, { "255", A(255) }, { "&MAX", A(MAXA) }, { "&MIN", A(MINA) }, { "&MAX-1", A(MAXA - 1) }, { "&MIN+1", A(MINA + 1) }, { "-2147483647", A(-MAXA) }, { "X'80000000'", A(MINA) }, { "&C12", A(12) }, { "K'&CAB", A(2) }, { "(1+1)*2", A(4) } };
        for (auto& x : big)
            for (auto& y : big)
                for (auto& op : rels)
                {
                    bool v = rel(op, x.v.a < y.v.a ? -1 : x.v.a > y.v.a);
                    b.add('B', "(" + x.s + " " + op + " " + y.s + ")", B(v));
                    b.add('B', "(NOT " + x.s + " " + op + " " + y.s + ")", B(!v));
                }
        std::vector<std::string> ss = { "" };
        for (char c : std::string("aAz1Z $"))
            ss.push_back(std::string(1, c));
        for (std::string s : { "aA", "Aa", "A1", "1A", "zz", "ABC" })
            ss.push_back(s);
        for (auto& x : ss)
            for (auto& y : ss)
                for (auto& op : rels)
                {
                    bool v = rel(op, cmp_str(x, y));
                    b.add('B', "('" + x + "' " + op + " '" + y + "')", B(v));
                }
    }
    {
        Batch b { r, "logical" };
        struct L
        {
            std::string s;
            bool v;
        };
        std::vector<L> q = { { "0", false }, { "1", true }, { "1 EQ 1", true }, { "'B' LT 'A'", false } };
        std::vector<L> q2 = { { "&BT", true }, { "&BF", false }, { "(1 AND 0)", false } };
        std::vector<std::string> ops = { "AND", "OR", "XOR", "AND NOT", "OR NOT", "XOR NOT" };
        std::vector<bool> v;
        std::vector<std::string> os;
        std::string txt;
        size_t N = th ? 5 : 4;
        std::function<void(size_t)> rec = [&](size_t i) {
            if (i >= 2)
                b.add('B', "(" + txt + ")", B(llist(v, os, 0, v.size() - 1)));
            if (i == N)
                return;
            auto qq = q;
            if (i < 2)
                qq.insert(qq.end(), q2.begin(), q2.end());
            for (auto& t : qq)
            {
                if (i >= 3 && (t.s == "1 EQ 1" || t.s == "'B' LT 'A'") && !th)
                    continue;
                if (i >= 4 && t.s.size() > 1)
                    continue;
                for (int nt = 0; nt < (i == 0 ? 2 : 1); ++nt)
                    for (auto& op : i ? ops : std::vector<std::string> { "" })
                    {
                        if (i >= 3 && op.size() > 3 && !th)
                            continue;
                        auto keep = txt;
                        if (i)
                            txt += " " + op + " ", os.push_back(op);
                        txt += (nt ? "NOT " : "") + t.s;
                        if (txt.size() < 54)
                        {
                            v.push_back(nt ? !t.v : t.v);
                            rec(i + 1);
                            v.pop_back();
                        }
                        if (i)
                            os.pop_back();
                        txt = keep;
                    }
            }
        };
        rec(0);
    }
}

// ---- character expressions
static std::string q(const std::string& s)
{
    std::string o = "'";
    for (char c : s)
    {
        o += c;
        if (c == '\'') // ampersands stay doubled in the value
            o += c;
    }
    return o + "'";
}
static Val substr(const std::string& s, int64_t st, std::optional<int64_t> cnt)
{
    int64_t n = cnt ? *cnt : (int64_t)s.size() - st + 1;
    if (st < 0 || n < 0 || (st == 0 && n > 0))
        return ERR('C');
    if (st > (int64_t)s.size())
        return ERR('C');
    std::string o;
    for (int64_t i = st; i < st + n && i <= (int64_t)s.size(); ++i)
        if (i >= 1)
            o += s[(size_t)i - 1];
    return n == 0 ? C("") : C(o);
}
static void strings(Run& r, bool th)
{
    Batch b { r, "string" };
    b.pre = prelude() + hl::lines({ "&L4064   SETC  (4064)'x'", "&L4063   SETC  (4063)'y'", "&L2032   SETC  (2032)'z'" });
    std::vector<std::string> ss = { "", "A", "AB", "ABC", "ABCDE", "A'B", "A&&B", " ", "A B", "1", ".", "a.b", "''", "&&" };
    for (auto& s : ss)
    {
        b.add('C', q(s), C(s));
        for (int64_t st = -2; st <= (int64_t)s.size() + 2; ++st)
        {
            b.add('C', q(s) + "(" + std::to_string(st) + ",*)", substr(s, st, std::nullopt));
            for (int64_t n = -2; n <= (int64_t)s.size() + 3; ++n)
            {
                b.add('C', q(s) + "(" + std::to_string(st) + "," + std::to_string(n) + ")", substr(s, st, n));
                auto v = substr(s, st, n);
                b.add('C', "'<'." + q(s) + "(" + std::to_string(st) + "," + std::to_string(n) + ").'>'", v.ok ? C("<" + v.c + ">") : v);
                b.add('C', "(2)" + q(s) + "(" + std::to_string(st) + "," + std::to_string(n) + ")", v.ok ? C(v.c + v.c) : v);
            }
        }
        for (auto& t : ss)
        {
            b.add('C', q(s) + "." + q(t), C(s + t));
            for (auto& u : ss)
                b.add('C', q(s) + "." + q(t) + "." + q(u), C(s + t + u));
        }
        for (int64_t d = -2; d <= 5; ++d)
        {
            std::string o;
            for (int64_t k = 0; k < d; ++k)
                o += s;
            b.add('C', "(" + std::to_string(d) + ")" + q(s), d < 0 ? ERR('C') : C(o));
            b.add('C', "'<'.(" + std::to_string(d) + ")" + q(s) + ".'>'", d < 0 ? ERR('C') : C("<" + o + ">"));
        }
    }
    // lengths around the limit
    for (int n : { 2031, 2032, 4063, 4064, 4065, 5000 })
        b.add('C', "(" + std::to_string(n) + ")'k'", C(std::string(n, 'k')));
    b.add('C', "'&L4064'", C(std::string(4064, 'x')));
    b.add('C', "'&L4063'.'a'", C(std::string(4063, 'y') + "a"));
    b.add('C', "'&L4064'.'a'", ERR('C'));
    b.add('C', "'&L4063'.'ab'", ERR('C'));
    b.add('C', "'&L4064.a'", ERR('C'));
    b.add('C', "(2)'&L2032'", C(std::string(4064, 'z')));
    b.add('C', "(3)'&L2032'", ERR('C'));
    b.add('A', "K'&L4064", A(4064));
    // variables within strings; a dot after a variable is consumed
    for (auto& [n, v] : std::vector<std::pair<std::string, std::string>> { { "&CA", "A" }, { "&CAB", "AB" }, { "&CE", "" }, { "&ONE", "1" }, { "&NEG", "5" }, { "&MIN", "2147483648" }, { "&MAX", "2147483647" }, { "&BT", "1" }, { "&BF", "0" }, { "&ARR(2)", "20" }, { "&CARR(3)", "Q" }, { "&(C&CA)", "A" }, { "&(CA)", "A" }, { "&CARR(&ONE+1)", "P" } })
    {
        b.add('C', "'" + n + "'", C(v));
        b.add('C', "'" + n + ".'", C(v));
        b.add('C', "'" + n + "..'", C(v + "."));
        b.add('C', "'" + n + ".x'", C(v + "x"));
        b.add('C', "'x" + n + "'", C("x" + v));
        b.add('C', "'x." + n + "'", C("x." + v));
        b.add('C', "'" + n + n + "'", C(v + v));
        b.add('C', "'" + n + "." + n + "..'", C(v + v + "."));
        if (n.find('&', 1) == std::string::npos)
            b.add('C', "'&&" + n.substr(1) + "'", C("&" + n));
        b.add('C', "'" + n + "'''", C(v + "'"));
        b.add('C', "'" + n + "+'", C(v + "+"));
        b.add('C', "'" + n + " '", C(v + " "));
    }
    // no value
    for (std::string e : { "'&UNDEF'", "'&ARR'", "'&ONE(1)'", "'&ARR(0)'", "'&ARR(-1)'", "'&ARR(1,2)'", "&UNDEF", "5", "1+1", "'A'.5", "'A'+1" })
        b.add('C', e, ERR('C'));
    for (std::string e : { "&UNDEF", "&ARR", "&ARR(0)", "&ARR(-1)", "&ARR(1,2)", "&ONE(1)", "'A'", "NOSUCH", "&CAB", "X'1G'", "B'12'", "X'123456789'", "C'ABCDE'", "B''", "2147483648", "99999999999", "(1 FOO 2)", "(1 AND)", "(AND 1)", "(1 2)", "()", "1+", "1*", "(1", "1)", "-", "K'NOSUCH", "&(UN&CE.DEF)", "&(1A)", "UPPER('a')" })
        b.add('A', e, ERR('A'));
    for (std::string e : { "('A' EQ 1)", "(1 EQ 'A')", "(1 EQ)", "(EQ 1)", "(1 AND)", "(NOT)", "()", "(1 FOO 0)", "(&UNDEF)", "(1 EQ 1", "'A'", "(0 1)", "(2)", "(-1)" })
    {
        if (e == "(2)" || e == "(-1)")
            continue; // values other than 0 and 1 are accepted as true, see DESIGN
        b.add('B', e, ERR('B'));
    }
    (void)th;
}

// ---- built-in functions
static bool all_in(const std::string& s, const char* set) { return s.find_first_not_of(set) == std::string::npos; }
static Val f_b2a(const std::string& s)
{
    if (s.size() > 32 || !all_in(s, "01"))
        return ERR();
    uint32_t v = 0;
    for (char c : s)
        v = v * 2 + (c - '0');
    return A((int32_t)v);
}
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static Val f_x2a(const std::string& s)
{
    if (s.size() > 8)
        return ERR();
    uint32_t v = 0;
    for (char c : s)
    {
        if (hexv(c) < 0)
            return ERR();
        v = v * 16 + hexv(c);
    }
    return A((int32_t)v);
}
static Val f_d2a(const std::string& s)
{
    if (s.empty())
        return A(0);
    if (s.size() > 11)
        return ERR();
    size_t i = s[0] == '+' || s[0] == '-';
    if (i == s.size())
        return ERR();
    int64_t v = 0;
    for (size_t k = i; k < s.size(); ++k)
    {
        if (s[k] < '0' || s[k] > '9')
            return ERR();
        v = v * 10 + s[k] - '0';
    }
    return A(s[0] == '-' ? -v : v);
}
static Val f_c2a(const std::string& s)
{
    if (s.size() > 4)
        return ERR();
    uint32_t v = 0;
    for (char c : s)
        v = v * 256 + ebc(c);
    return A((int32_t)v);
}
static std::string bits(uint32_t v, int n)
{
    std::string o;
    for (int i = n - 1; i >= 0; --i)
        o += (v >> i & 1) ? '1' : '0';
    return o;
}
static std::string hexs(uint32_t v, int n)
{
    std::string o;
    for (int i = n - 1; i >= 0; --i)
        o += "0123456789ABCDEF"[v >> (4 * i) & 15];
    return o;
}
static std::string a2d(int64_t v) { return (v < 0 ? "-" : "+") + std::to_string(v < 0 ? -v : v); }
static std::optional<std::string> bytes2c(const std::vector<int>& b)
{
    std::string o;
    for (int x : b)
    {
        auto c = unebc(x);
        if (!c)
            return std::nullopt;
        o += *c;
    }
    return o;
}
static std::string undouble(const std::string& s)
{
    std::string o;
    for (size_t i = 0; i < s.size(); ++i)
    {
        o += s[i];
        if ((s[i] == '\'' || s[i] == '&') && i + 1 < s.size() && s[i + 1] == s[i])
            ++i;
    }
    return o;
}
// value of a function of one character argument; nothing: not judged here
static std::optional<Val> fc(const std::string& f, const std::string& s)
{
    if (f == "B2A")
        return f_b2a(s);
    if (f == "X2A")
        return f_x2a(s);
    if (f == "D2A")
        return f_d2a(s);
    if (f == "C2A")
        return f_c2a(s);
    if (f == "DCLEN")
        return A((int64_t)undouble(s).size());
    if (f == "ISBIN")
        return s.empty() ? ERR() : A(s.size() <= 32 && all_in(s, "01"));
    if (f == "ISHEX")
        return s.empty() ? ERR() : A(s.size() <= 8 && all_in(s, "0123456789abcdefABCDEF"));
    if (f == "ISDEC")
    {
        if (s.empty())
            return ERR();
        return A(s.size() <= 10 && all_in(s, "0123456789") && std::stoll(s) <= MAXA);
    }
    if (f == "ISSYM")
    {
        if (s.empty())
            return ERR();
        bool ok = s.size() <= 63 && !(s[0] >= '0' && s[0] <= '9');
        for (char c : s)
            ok = ok && (isalnum((unsigned char)c) || strchr("$#@_", c));
        return A(ok);
    }
    auto conv = [](const Val& v, std::function<std::string(int64_t)> g) { return v.ok ? C(g(v.a)) : ERR('C'); };
    if (f == "B2D")
        return conv(f_b2a(s), a2d);
    if (f == "X2D")
        return conv(f_x2a(s), a2d);
    if (f == "C2D")
        return conv(f_c2a(s), a2d);
    if (f == "D2B")
        return s.empty() ? C("") : conv(f_d2a(s), [](int64_t v) { return bits((uint32_t)v, 32); });
    if (f == "D2X")
        return s.empty() ? ERR('C') : conv(f_d2a(s), [](int64_t v) { return hexs((uint32_t)v, 8); });
    if (f == "D2C")
    {
        if (s.empty())
            return ERR('C');
        auto v = f_d2a(s);
        if (!v.ok)
            return ERR('C');
        uint32_t u = (uint32_t)v.a;
        auto c = bytes2c({ (int)(u >> 24), (int)(u >> 16 & 255), (int)(u >> 8 & 255), (int)(u & 255) });
        return c ? std::optional<Val>(C(*c)) : std::nullopt;
    }
    if (f == "B2X" || f == "B2C")
    {
        if (!all_in(s, "01"))
            return ERR('C');
        size_t w = f == "B2X" ? 4 : 8;
        std::string p = s;
        while (p.size() % w)
            p = "0" + p;
        std::string o;
        std::vector<int> by;
        for (size_t i = 0; i < p.size(); i += w)
        {
            int v = 0;
            for (size_t k = 0; k < w; ++k)
                v = v * 2 + p[i + k] - '0';
            o += hexs(v, 1);
            by.push_back(v);
        }
        if (f == "B2X")
            return C(o);
        auto c = bytes2c(by);
        return c ? std::optional<Val>(C(*c)) : std::nullopt;
    }
    if (f == "X2B" || f == "X2C")
    {
        for (char c : s)
            if (hexv(c) < 0)
                return ERR('C');
        std::string o;
        if (f == "X2B")
        {
            for (char c : s)
                o += bits(hexv(c), 4);
            return C(o);
        }
        std::string p = s.size() % 2 ? "0" + s : s;
        std::vector<int> by;
        for (size_t i = 0; i < p.size(); i += 2)
            by.push_back(hexv(p[i]) * 16 + hexv(p[i + 1]));
        auto c = bytes2c(by);
        return c ? std::optional<Val>(C(*c)) : std::nullopt;
    }
    if (f == "C2B" || f == "C2X")
    {
        std::string o;
        for (char c : s)
            o += f == "C2B" ? bits(ebc(c), 8) : hexs(ebc(c), 2);
        return C(o);
    }
    if (f == "DCVAL")
        return C(undouble(s));
    if (f == "DEQUOTE")
    {
        std::string o = s;
        if (!o.empty() && o[0] == '\'')
            o = o.substr(1);
        if (!o.empty() && o.back() == '\'')
            o.pop_back();
        return C(o);
    }
    if (f == "DOUBLE")
    {
        std::string o;
        for (char c : s)
        {
            o += c;
            if (c == '\'' || c == '&')
                o += c;
        }
        return C(o);
    }
    std::string o = s;
    for (char& c : o)
        if (f == "UPPER" && c >= 'a' && c <= 'z')
            c = c - 'a' + 'A';
        else if (f == "LOWER" && c >= 'A' && c <= 'Z')
            c = c - 'A' + 'a';
    return C(o);
}
static void functions(Run& r, bool th)
{
    std::vector<std::string> af = { "B2A", "C2A", "D2A", "DCLEN", "ISBIN", "ISDEC", "ISHEX", "ISSYM", "X2A" };
    std::vector<std::string> cf = { "B2C", "B2D", "B2X", "C2B", "C2D", "C2X", "D2B", "D2C", "D2X", "DCVAL", "DEQUOTE", "DOUBLE", "LOWER", "UPPER", "X2B", "X2C", "X2D" };
    std::vector<std::string> all;
    {
        // every string up to a length over characters of every class
        std::string al = "01A-f'&z";
        std::function<void(std::string)> rec = [&](std::string s) {
            all.push_back(s);
            if (s.size() < (th ? 4u : 3u))
                for (char c : al)
                    rec(s + c);
        };
        rec("");
        // boundary lengths and values
        for (std::string s : { std::string(31, '1'), std::string(32, '1'), std::string(33, '0'), std::string("10000000000000000000000000000000"), std::string("01111111111111111111111111111111"), std::string("7FFFFFFF"), std::string("80000000"), std::string("FFFFFFFF"), std::string("000000001"), std::string("12345678"), std::string("1234567G"), std::string("2147483647"), std::string("2147483648"), std::string("-2147483648"), std::string("-2147483649"), std::string("+2147483647"), std::string("00000000001"), std::string("000000000001"), std::string("0000000001"), std::string("4294967295"), std::string("+1"), std::string("-0"), std::string("+"), std::string("1+"), std::string("+-1"), std::string("C1C2C3C4"), std::string("ABCD"), std::string("ABCDE"), std::string("9999"), std::string("A#@$_9"), std::string("9A"), std::string("A.B"), std::string("A B"), std::string("aBcXyZ 019#"), std::string("''''"), std::string("'''"), std::string("'a'b'"), std::string("&&&"), std::string("&&'&"), std::string("1111000111110010"), std::string("F1F2G3"), std::string("F1FG"), std::string("GF") })
            all.push_back(s);
    }
    for (auto& s : all)
    {
        std::string o;
        for (char c : s)
            o += c == '&' ? "&&" : std::string(1, c);
        s = o;
    }
    {
        Batch b { r, "function" };
        for (auto& s : all)
        {
            for (auto& f : af)
            {
                auto v = fc(f, s);
                b.add('A', f + "(" + q(s) + ")", *v);
            }
            for (auto& f : cf)
            {
                auto v = fc(f, s);
                if (!v)
                    continue;
                b.add('C', f + "(" + q(s) + ")", *v);
                if (s.size() <= 2)
                {
                    b.add('C', "(2)" + f + "(" + q(s) + ")", v->ok ? C(v->c + v->c) : *v);
                }
            }
            for (std::string f : { "UPPER", "LOWER", "DOUBLE" })
                b.add('C', "(" + f + " " + q(s) + ")", *fc(f, s));
        }
        // long arguments through a variable
        b.flush();
        b.family = "longarg";
        b.pre = prelude() + hl::lines({ "&S63     SETC  (63)'A'", "&S64     SETC  (64)'A'", "&H507    SETC  (507)'AF'", "&H508    SETC  (508)'AF'", "&H509    SETC  (509)'AF'", "&X1016   SETC  (1016)'F'", "&X1017   SETC  (1017)'F'", "&Q2032   SETC  (2032)''''", "&Q2033   SETC  (2033)''''" });
        b.add('A', "ISSYM('&S63')", A(1));
        b.add('A', "ISSYM('&S64')", A(0));
        b.add('C', "X2B('&X1016')", C(std::string(4064, '1')));
        b.add('C', "X2B('&X1017')", ERR('C'));
        b.add('C', "DOUBLE('&Q2032')", C(std::string(4064, '\'')));
        b.add('C', "DOUBLE('&Q2033')", ERR('C'));
        b.add('C', "C2B('&S63')", C([] {
            std::string o;
            for (int i = 0; i < 63; ++i)
                o += "11000001";
            return o;
        }()));
    }
    {
        Batch b { r, "arith argument" };
        for (auto& [s, v] : std::vector<std::pair<std::string, int64_t>> { { "0", 0 }, { "1", 1 }, { "255", 255 }, { "256", 256 }, { "-1", -1 }, { "193", 193 }, { "240", 240 }, { "&MAX", MAXA }, { "&MIN", MINA }, { "&NEG", -5 }, { "X'C1C2C3C4'", (int32_t)0xC1C2C3C4 }, { "X'F1F2F3F4'", (int32_t)0xF1F2F3F4 }, { "X'40404040'", 0x40404040 }, { "1+2*3", 7 }, { "(1+2)*3", 9 }, { "12345", 12345 }, { "-12345", -12345 } })
        {
            b.add('C', "A2B(" + s + ")", C(bits((uint32_t)v, 32)));
            b.add('C', "A2D(" + s + ")", C(a2d(v)));
            b.add('C', "A2X(" + s + ")", C(hexs((uint32_t)v, 8)));
            b.add('C', "SIGNED(" + s + ")", C(std::to_string(v)));
            uint32_t u = (uint32_t)v;
            if (auto c = bytes2c({ (int)(u >> 24), (int)(u >> 16 & 255), (int)(u >> 8 & 255), (int)(u & 255) }))
                b.add('C', "A2C(" + s + ")", C(*c));
            if (v < 0 || v > 255)
                b.add('C', "BYTE(" + s + ")", ERR('C'));
            b.add('C', "C2X(A2C(" + s + "))", C(hexs(u, 8)));
            b.add('A', "C2A(A2C(" + s + "))", A(v));
        }
        // every byte: to a character and back; the characters that have a fixed code
        for (int i = 0; i < 256; ++i)
        {
            b.add('C', "C2X(X2C('" + hexs(i, 2) + "'))", C(hexs(i, 2)));
            b.add('C', "C2X(BYTE(" + std::to_string(i) + "))", C(hexs(i, 2)));
            b.add('C', "C2B(B2C('" + bits(i, 8) + "'))", C(bits(i, 8)));
            if (auto c = unebc(i))
                b.add('C', "BYTE(" + std::to_string(i) + ")", C(std::string(1, *c)));
        }
    }
    {
        Batch b { r, "find" };
        std::vector<std::string> ss;
        std::function<void(std::string)> rec = [&](std::string s) {
            ss.push_back(s);
            if (s.size() < 3)
                for (char c : std::string("abA"))
                    rec(s + c);
        };
        rec("");
        for (auto& x : ss)
            for (auto& y : ss)
            {
                if (y.size() > 2 && !th)
                    continue;
                int64_t idx = 0, fnd = 0;
                for (size_t i = 0; i + y.size() <= x.size() && !idx; ++i)
                    if (x.compare(i, y.size(), y) == 0)
                        idx = i + 1;
                for (size_t i = 0; i < x.size() && !fnd; ++i)
                    if (y.find(x[i]) != std::string::npos)
                        fnd = i + 1;
                if (!y.empty())
                {
                    b.add('A', "INDEX(" + q(x) + "," + q(y) + ")", A(idx));
                    b.add('A', "(" + q(x) + " INDEX " + q(y) + ")", A(idx));
                }
                b.add('A', "FIND(" + q(x) + "," + q(y) + ")", A(fnd));
                b.add('A', "(" + q(x) + " FIND " + q(y) + ")", A(fnd));
            }
    }
}

// ---- conversion of variables between the types
static void conversions(Run& r)
{
    std::vector<std::string> vals = { "", "0", "1", "2", "007", "2147483647", "2147483648", "-1", "+1", "X'F'", "X'FFFFFFFF'", "X'123456789'", "X'G'", "B'101'", "B'2'", "C'A'", "C'ABCD'", "C'ABCDE'", "A", "1A", " ", "1 ", "X''", "''", "C''''", "x'ff'", "b'11'", "c'a'", "Q'1'", "X'1", "1'" };
    auto sd = [](const std::string& s) -> Val {
        if (s.empty())
            return A(0);
        if (s.size() >= 3 && s[1] == '\'' && s.back() == '\'')
        {
            auto in = s.substr(2, s.size() - 3);
            if (in.empty())
                return ERR();
            switch (toupper(s[0]))
            {
                case 'X': return f_x2a(in);
                case 'B': return f_b2a(in);
                case 'C': return f_c2a(in);
                default: return ERR();
            }
        }
        return f_d2a(s);
    };
    for (size_t i = 0; i < vals.size(); ++i)
    {
        if (vals[i] == "C''''")
            continue;
        Batch b { r, "convert" + std::to_string(i) };
        b.pre = prelude() + "&V       SETC  " + q(vals[i]) + "\n";
        auto v = sd(vals[i]);
        b.add('A', "&V", v);
        b.add('A', "&V+1", v.ok ? A(v.a + 1) : v);
        b.add('A', "2*&V", v.ok ? A(v.a * 2) : v);
        if (vals[i].find('-') == std::string::npos)
            b.add('B', "(&V EQ 1)", v.ok ? B(v.a == 1) : ERR('B'));
        b.add('C', "'&V'", C(vals[i]));
        b.add('A', "K'&V", A((int64_t)vals[i].size()));
        b.add('B', "('&V' EQ 'X''F''')", B(vals[i] == "X'F'"));
    }
    Batch b { r, "convertAB" };
    b.add('B', "&BT", B(1));
    b.add('B', "&BF", B(0));
    b.add('B', "(&BT)", B(1));
    b.add('B', "(&ONE)", B(1));
    b.add('B', "&ONE", B(1));
    b.add('A', "&BT+&BT", A(2));
    b.add('C', "'&BT&BF'", C("10"));
    b.add('B', "(&BT EQ 1)", B(1));
    b.add('B', "0", B(0));
    b.add('B', "1", B(1));
    b.add('B', "('&CAB'(1,1) EQ 'A')", B(1));
    b.add('B', "('&CAB' EQ 'A'.'B')", B(1));
    b.add('B', "(K'&CAB EQ 2)", B(1));
    b.add('B', "(N'&ARR EQ 3)", B(1));
    b.add('B', "(T'EQ5 EQ 'U')", B(1));
    b.add('B', "(D'EQ5)", B(1));
    b.add('B', "(NOT D'EQ5)", B(0));
}

int main(int argc, char** argv)
{
    Run r(argc, argv, 2);
    bool th = r.thorough();
    (void)prelude_lines;
    strings(r, th);
    functions(r, th);
    conversions(r);
    arithmetic(r, th);
    arith_lists(r, th);
    logical(r, th);
    return r.finish();
}
