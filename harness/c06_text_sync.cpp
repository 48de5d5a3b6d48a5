// C06: the server's text equals the client's text after every edit.
#include "verif.h"
#include "lsp/feature_text_synchronization.h"
#include "nlohmann/json.hpp"
#include "workspace_manager.h"
#include "workspaces/file_impl.h"
#include "workspaces/file_manager_impl.h"

#include <filesystem>
#include <fstream>

using namespace hlasm_plugin;
using namespace hlasm_plugin::parser_library;
using namespace hlasm_plugin::parser_library::workspaces;
using namespace verif;

// ---------------------------------------------------------------------------- the client: a sequence of UTF-16 units
using U16 = std::u16string;
static U16 to16(const std::string& s)
{
    U16 o;
    for (size_t i = 0; i < s.size();)
    {
        unsigned char c = s[i];
        unsigned cp;
        int n;
        if (c < 0x80)
            cp = c, n = 1;
        else if (c < 0xe0)
            cp = c & 31, n = 2;
        else if (c < 0xf0)
            cp = c & 15, n = 3;
        else
            cp = c & 7, n = 4;
        for (int k = 1; k < n; ++k)
            cp = cp << 6 | (s[i + k] & 63);
        i += n;
        if (cp >= 0x10000)
        {
            o += (char16_t)(0xd800 + ((cp - 0x10000) >> 10));
            o += (char16_t)(0xdc00 + ((cp - 0x10000) & 1023));
        }
        else
            o += (char16_t)cp;
    }
    return o;
}
static std::string to8(const U16& s)
{
    std::string o;
    for (size_t i = 0; i < s.size(); ++i)
    {
        unsigned cp = s[i];
        if (cp >= 0xd800 && cp < 0xdc00 && i + 1 < s.size())
            cp = 0x10000 + ((cp - 0xd800) << 10) + (s[++i] - 0xdc00);
        if (cp < 0x80)
            o += (char)cp;
        else if (cp < 0x800)
        {
            o += (char)(0xc0 | cp >> 6);
            o += (char)(0x80 | (cp & 63));
        }
        else if (cp < 0x10000)
        {
            o += (char)(0xe0 | cp >> 12);
            o += (char)(0x80 | (cp >> 6 & 63));
            o += (char)(0x80 | (cp & 63));
        }
        else
        {
            o += (char)(0xf0 | cp >> 18);
            o += (char)(0x80 | (cp >> 12 & 63));
            o += (char)(0x80 | (cp >> 6 & 63));
            o += (char)(0x80 | (cp & 63));
        }
    }
    return o;
}
// [start, end without the line end) of every line
static std::vector<std::pair<size_t, size_t>> lines16(const U16& t)
{
    std::vector<std::pair<size_t, size_t>> v;
    size_t b = 0;
    for (size_t i = 0; i < t.size(); ++i)
        if (t[i] == u'\n')
        {
            v.emplace_back(b, i);
            b = i + 1;
        }
        else if (t[i] == u'\r')
        {
            v.emplace_back(b, i);
            if (i + 1 < t.size() && t[i + 1] == u'\n')
                ++i;
            b = i + 1;
        }
    v.emplace_back(b, t.size());
    return v;
}
static size_t offset16(const U16& t, size_t l, size_t c)
{
    auto v = lines16(t);
    if (l >= v.size())
        return t.size();
    return std::min(v[l].first + c, v[l].second);
}
static U16 edit16(const U16& t, range r, const std::string& repl)
{
    size_t b = offset16(t, r.start.line, r.start.column), e = offset16(t, r.end.line, r.end.column);
    if (e < b)
        e = b;
    return t.substr(0, b) + to16(repl) + t.substr(e);
}
// every position a client may send: existing ones, one and two past the end of each line, one and many lines past the end
static std::vector<position> positions(const U16& t, bool beyond = true)
{
    std::vector<position> v;
    auto ls = lines16(t);
    for (size_t l = 0; l < ls.size(); ++l)
    {
        size_t n = ls[l].second - ls[l].first;
        for (size_t c = 0; c <= n; ++c)
        {
            size_t o = ls[l].first + c;
            if (o < t.size() && t[o] >= 0xdc00 && t[o] < 0xe000 && c > 0)
                continue; // in the middle of a character
            v.emplace_back(l, c);
        }
        if (beyond)
        {
            v.emplace_back(l, n + 1);
            v.emplace_back(l, n + 3);
            if (l + 1 == ls.size())
                v.emplace_back(l, (size_t)0x7fffffff);
        }
    }
    if (beyond)
    {
        v.emplace_back(ls.size(), 0);
        v.emplace_back(ls.size(), 2);
        v.emplace_back(ls.size() + 5, 0);
    }
    return v;
}
static bool before(position a, position b) { return a.line < b.line || a.line == b.line && a.column <= b.column; }
static std::string pos_s(position p) { return std::to_string(p.line) + ":" + std::to_string(p.column); }

static const std::vector<std::string> ALPHA = { "a", "\n", "\r", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80" };
static const std::vector<std::string> REPL = { "", "b", "\n", "\r", "\r\n", "\xc3\xa9", "\xf0\x9f\x98\x80", "x\ny", "\n\n", "\xe2\x82\xac\r" , "y\r\n\xf0\x9f\x98\x80z"};

static std::vector<std::string> docs(const std::vector<std::string>& al, size_t n)
{
    std::vector<std::string> all { "" }, last { "" };
    for (size_t k = 0; k < n; ++k)
    {
        std::vector<std::string> nx;
        for (auto& d : last)
            for (auto& a : al)
                nx.push_back(d + a);
        all.insert(all.end(), nx.begin(), nx.end());
        last = nx;
    }
    return all;
}
static U16 probe(file_impl& f, const U16& t, Run& r)
{
    // the hidden line index is observed by an insertion at every position
    for (auto p : positions(t))
    {
        file_impl g(f);
        g.did_change(range(p, p), "#");
        ++r.transitions;
        std::string want = to8(edit16(t, range(p, p), "#"));
        if (g.get_text() != want)
            throw Fail("after the edit, inserting # at " + pos_s(p) + " gives '" + esc(g.get_text()) + "', the client has '" + esc(want) + "'");
    }
    return t;
}
static void one_edit(Run& r, const std::string& d, bool deep)
{
    file_impl f0("/verif-none");
    f0.did_open(d, 1);
    U16 t0 = to16(d);
    auto ps = positions(t0);
    for (auto a : ps)
        for (auto b : ps)
            if (before(a, b))
                for (auto& rep : REPL)
                {
                    file_impl f(f0);
                    f.did_change(range(a, b), rep);
                    ++r.transitions;
                    U16 t = edit16(t0, range(a, b), rep);
                    std::string want = to8(t);
                    if (f.get_text() != want)
                        throw Fail("replacing " + pos_s(a) + "-" + pos_s(b) + " by '" + esc(rep) + "' gives '" + esc(f.get_text()) + "', the client has '" + esc(want) + "'");
                    r.state(want);
                    ++r.validated;
                    if (!deep)
                        probe(f, t, r);
                    else
                        for (auto a2 : positions(t))
                            for (auto b2 : positions(t))
                                if (before(a2, b2))
                                    for (auto& rep2 : { REPL[0], REPL[2], REPL[3], REPL[6], REPL[10] })
                                    {
                                        file_impl g(f);
                                        g.did_change(range(a2, b2), rep2);
                                        ++r.transitions;
                                        U16 t2 = edit16(t, range(a2, b2), rep2);
                                        if (g.get_text() != to8(t2))
                                            throw Fail("edits " + pos_s(a) + "-" + pos_s(b) + "'" + esc(rep) + "', " + pos_s(a2) + "-" + pos_s(b2) + "'" + esc(rep2) + "' give '" + esc(g.get_text()) + "', the client has '" + esc(to8(t2)) + "'");
                                        // the line index, once more
                                        position e(lines16(t2).size() - 1, 0);
                                        g.did_change(range(e, e), "#");
                                        if (g.get_text() != to8(edit16(t2, range(e, e), "#")))
                                            throw Fail("edits " + pos_s(a) + "-" + pos_s(b) + "'" + esc(rep) + "', " + pos_s(a2) + "-" + pos_s(b2) + "'" + esc(rep2) + "' then # at " + pos_s(e) + " give '" + esc(g.get_text()) + "'");
                                    }
                }
}

// ---------------------------------------------------------------------------- histories through the protocol handlers
struct Mngr : workspace_manager
{
    file_manager_impl fm;
    std::map<std::string, long> ver;
    void did_open_file(const char* u, version_t v, const char* t, size_t n) override { fm.did_open_file(u, v, std::string(t, n)); ver[u] = v; }
    void did_change_file(const char* u, version_t v, const document_change* c, size_t n) override { fm.did_change_file(u, v, c, n); }
    void did_close_file(const char* u) override { fm.did_close_file(u); }
};
struct Resp : language_server::response_provider
{
    void request(const language_server::json&, const std::string&, const language_server::json&, language_server::method) override {}
    void respond(const language_server::json&, const std::string&, const language_server::json&) override {}
    void notify(const std::string&, const language_server::json&) override {}
    void respond_error(const language_server::json&, const std::string&, int, const std::string&, const language_server::json&) override {}
};
using json = nlohmann::json;
static json jpos(position p) { return { { "line", p.line }, { "character", p.column } }; }
static json change(const std::string& t) { return { { "text", t } }; }
static json change(position a, position b, const std::string& t) { return { { "range", { { "start", jpos(a) }, { "end", jpos(b) } } }, { "text", t } }; }

static void history(Run& r, const std::vector<int>& ops)
{
    Mngr m;
    Resp rp;
    language_server::lsp::feature_text_synchronization f(m, rp);
    std::map<std::string, language_server::method> methods;
    f.register_methods(methods);
    const std::string uri[2] = { "file:///verif-none/a%20b", "file:///verif-none/c" };
    const std::string path[2] = { "/verif-none/a b", "/verif-none/c" };
    std::map<int, U16> client; // open documents
    int ver = 1;
    std::string trace;
    for (int op : ops)
    {
        int d = op & 1, k = op >> 1;
        json td = { { "uri", uri[d] }, { "version", ++ver } };
        bool open = client.count(d);
        auto send = [&](json changes, std::vector<std::pair<range, std::string>> es) {
            methods["textDocument/didChange"]("", json { { "textDocument", td }, { "contentChanges", changes } });
            if (open)
                for (auto& [rg, t] : es)
                    client[d] = rg.start.line == (position_t)-1 ? to16(t) : edit16(client[d], rg, t);
        };
        range whole(position(-1, 0), position(0, 0));
        auto rr = [](size_t a, size_t b, size_t c, size_t e) { return range(position(a, b), position(c, e)); };
        switch (k)
        {
            case 0:
                if (open)
                    continue;
                td["text"] = "1\xf0\x9f\x98\x80\r\n2\r3";
                td["languageId"] = "hlasm";
                methods["textDocument/didOpen"]("", json { { "textDocument", td } });
                client[d] = to16("1\xf0\x9f\x98\x80\r\n2\r3");
                break;
            case 1:
                send({ change({ 0, 3 }, { 1, 0 }, "") }, { { rr(0, 3, 1, 0), "" } });
                break;
            case 2:
                send({ change({ 0, 1 }, { 0, 1 }, "x\n"), change({ 1, 0 }, { 1, 2 }, "\xe2\x82\xac"), change({ 2, 0 }, { 9, 0 }, "q") },
                    { { rr(0, 1, 0, 1), "x\n" }, { rr(1, 0, 1, 2), "\xe2\x82\xac" }, { rr(2, 0, 9, 0), "q" } });
                break;
            case 3:
                send({ change("n\rm"), change({ 1, 1 }, { 1, 1 }, "\r\n!") }, { { whole, "n\rm" }, { rr(1, 1, 1, 1), "\r\n!" } });
                break;
            case 4:
                send({ change({ 0, 0 }, { 0, 0 }, "\n") }, { { rr(0, 0, 0, 0), "\n" } });
                break;
            case 5:
                methods["textDocument/didClose"]("", json { { "textDocument", { { "uri", uri[d] } } } });
                client.erase(d);
                break;
            case 6:
                send({ change({ 1, 0 }, { 2, 0 }, "a\xc3\xa9"), change("") , change({ 0, 5 }, { 3, 0 }, "z\nw") }, { { rr(1, 0, 2, 0), "a\xc3\xa9" }, { whole, "" }, { rr(0, 5, 3, 0), "z\nw" } });
                break;
            case 7: // hold another reference to the file, as the analysis of a dependant does
                break;
        }
        ++r.transitions;
        trace += std::to_string(op) + " ";
        for (auto& [dd, t] : client)
        {
            auto file = m.fm.find(path[dd]);
            require(!!file, "open document " + path[dd] + " is not known after " + trace);
            require(file->get_lsp_editing(), "open document not marked as edited after " + trace);
            require_eq(file->get_text(), to8(t), "text of " + path[dd] + " after " + trace);
            require(m.ver[path[dd]] > 0, "version");
        }
        std::string st;
        for (auto& [dd, t] : client)
            st += std::to_string(dd) + to8(t) + "|";
        r.state(st);
    }
    ++r.validated;
}

// ---------------------------------------------------------------------------- open documents and the files on disk
static const char* DISK_OPS[] = { "disk-a", "disk-b", "disk-empty", "disk-delete", "open-empty", "open-x", "clear", "insert", "whole", "close",
    "update", "processor", "hold" };
static void disk_history(Run& r, const std::vector<int>& ops)
{
    const char* w = getenv("VERIF_WORK");
    std::string dir = std::string(w ? w : ".") + "/c06";
    std::filesystem::create_directories(dir);
    std::string path = dir + "/doc";
    auto put = [&](const std::string& t) { std::ofstream(path, std::ios::binary) << t; };
    std::filesystem::remove(path);
    file_manager_impl fm;
    std::vector<file_ptr> held;
    std::optional<std::string> ondisk, client;
    std::string trace;
    auto whole = [&](const std::string& t) {
        document_change c(t.c_str(), t.size());
        fm.did_change_file(path, 2, &c, 1);
        client = t;
    };
    for (int op : ops)
    {
        trace += std::string(DISK_OPS[op]) + " ";
        switch (op)
        {
            case 0:
            case 1:
            case 2:
                ondisk = op == 0 ? "da\n" : op == 1 ? "db" : "";
                put(*ondisk);
                break;
            case 3:
                ondisk.reset();
                std::filesystem::remove(path);
                break;
            case 4:
            case 5:
                if (client)
                    return;
                client = op == 4 ? "" : "x\n";
                fm.did_open_file(path, 1, *client);
                break;
            case 6: // everything is deleted
                if (!client)
                    return;
                {
                    document_change c(range(position(0, 0), position(9, 0)), "", 0);
                    fm.did_change_file(path, 2, &c, 1);
                    client = "";
                }
                break;
            case 7:
                if (!client)
                    return;
                {
                    document_change c(range(position(0, 0), position(0, 0)), "y", 1);
                    fm.did_change_file(path, 2, &c, 1);
                    client = "y" + *client;
                }
                break;
            case 8:
                if (!client)
                    return;
                whole("w");
                break;
            case 9:
                if (!client)
                    return;
                fm.did_close_file(path);
                client.reset();
                break;
            case 10: // before an analysis
                {
                    auto f = fm.add_file(path);
                    bool bad = f->update_and_get_bad();
                    require_eq((int)bad, (int)(!client && !ondisk), "whether the file can be read after " + trace);
                    require_eq(f->get_text(), client ? *client : ondisk.value_or(""), "text to analyse after " + trace);
                }
                break;
            case 11:
                require(!!fm.add_processor_file(path), "no processor file after " + trace);
                break;
            case 12: // another owner, as the analysis of a dependant
                held.push_back(fm.add_file(path));
                break;
        }
        if (client)
        {
            auto f = fm.find(path);
            require(!!f && f->get_lsp_editing(), "open document not known as open after " + trace);
            require_eq(f->get_text(), *client, "text after " + trace);
        }
        ++r.transitions;
        r.state("d" + (client ? "o" + *client : "-") + "|" + (ondisk ? *ondisk : "-"));
    }
    ++r.validated;
}

// ---------------------------------------------------------------------------- text from disk is made valid UTF-8
// length of the well formed UTF-8 sequence at s[i] (Unicode table 3-7), 0 if none
static size_t wf(const std::string& s, size_t i)
{
    auto b = [&](size_t k) -> unsigned { return i + k < s.size() ? (unsigned char)s[i + k] : 0; };
    auto in = [](unsigned x, unsigned l, unsigned h) { return x >= l && x <= h; };
    unsigned c = b(0);
    if (c < 0x80)
        return 1;
    if (in(c, 0xc2, 0xdf))
        return in(b(1), 0x80, 0xbf) ? 2 : 0;
    if (in(c, 0xe0, 0xef))
        return in(b(1), c == 0xe0 ? 0xa0 : 0x80, c == 0xed ? 0x9f : 0xbf) && in(b(2), 0x80, 0xbf) ? 3 : 0;
    if (in(c, 0xf0, 0xf4))
        return in(b(1), c == 0xf0 ? 0x90 : 0x80, c == 0xf4 ? 0x8f : 0xbf) && in(b(2), 0x80, 0xbf) && in(b(3), 0x80, 0xbf) ? 4 : 0;
    return 0;
}
static void disk(Run& r, const std::string& s)
{
    std::string got = file_impl::replace_non_utf8_chars(s);
    // well formed, and the same characters once replacement characters are left out
    std::string a, b;
    for (size_t i = 0; i < got.size();)
    {
        size_t n = wf(got, i);
        require(n > 0, "text is not valid UTF-8: " + esc(got));
        if (got.compare(i, n, "\xef\xbf\xbd"))
            a += got.substr(i, n);
        i += n;
    }
    size_t bad = 0;
    for (size_t i = 0; i < s.size();)
    {
        size_t n = wf(s, i);
        if (n && s.compare(i, n, "\xef\xbf\xbd"))
            b += s.substr(i, n);
        bad += !n;
        i += n ? n : 1;
    }
    require_eq(a, b, "valid characters are kept");
    require(!bad || got.find("\xef\xbf\xbd") != std::string::npos, "an invalid sequence vanished");
    require(bad || got == s, "valid text changed");
    ++r.validated;
    ++r.transitions;
    r.state("disk" + got);
}

int main(int argc, char** argv)
{
    Run r(argc, argv, 4);
    for (auto& d : docs(ALPHA, r.thorough() ? 5 : 4))
        r.check("edit " + esc(d), [&] { r.interesting(); one_edit(r, d, false); });
    for (auto& d : docs(ALPHA, r.thorough() ? 3 : 2))
        r.check("edit2 " + esc(d), [&] { r.interesting(); one_edit(r, d, true); });
    // long documents: many lines, long lines
    for (std::string eol : { "\n", "\r\n", "\r" })
        for (size_t n : { 1, 2, 3, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 32768, 65536, 70001 })
            for (int shape = 0; shape < 3; ++shape)
                r.check("long " + esc(eol) + " " + std::to_string(n) + " " + std::to_string(shape), [&] {
                    r.interesting();
                    std::string d;
                    if (shape == 0)
                        for (size_t i = 0; i < n; ++i)
                            d += "l" + eol;
                    else if (shape == 1)
                        d = std::string(n, 'x') + eol + "\xf0\x9f\x98\x80";
                    else
                        for (size_t i = 0; i < n; ++i)
                            d += i % 3 ? "\xf0\x9f\x98\x80" : "\xc3\xa9" + (i % 7 ? std::string() : eol);
                    U16 t0 = to16(d);
                    auto ls = lines16(t0);
                    std::vector<position> ps;
                    for (size_t l : { (size_t)0, (size_t)1, ls.size() / 2, ls.size() - 2, ls.size() - 1, ls.size() })
                        if (l <= ls.size())
                            for (size_t c : { (size_t)0, l < ls.size() ? ls[l].second - ls[l].first : 0 })
                                ps.emplace_back(l, c);
                    for (auto a : ps)
                        for (auto b : ps)
                            if (before(a, b))
                                for (std::string rep : { std::string(), std::string("\n"), "y" + eol + "z", std::string(300, '\n') })
                                {
                                    file_impl f("/verif-none");
                                    f.did_open(d, 1);
                                    f.did_change(range(a, b), rep);
                                    U16 t = edit16(t0, range(a, b), rep);
                                    require(f.get_text() == to8(t), "first edit differs at " + pos_s(a) + " " + pos_s(b));
                                    auto l2 = lines16(t);
                                    for (size_t l : { (size_t)0, l2.size() / 2, l2.size() - 1 })
                                    {
                                        position p(l, 0);
                                        file_impl g(f);
                                        g.did_change(range(p, p), "#");
                                        ++r.transitions;
                                        require(g.get_text() == to8(edit16(t, range(p, p), "#")), "second edit differs after " + pos_s(a) + " " + pos_s(b));
                                    }
                                    r.tick();
                                }
                    ++r.validated;
                });
    // sequences of notifications on two documents
    size_t depth = r.thorough() ? 6 : 5;
    std::vector<int> alphabet = { 0, 1, 2, 4, 5, 6, 8, 10, 11, 12 };
    std::vector<int> seq;
    std::function<void()> rec = [&]() {
        if (seq.size() == depth)
        {
            r.check([&] { std::string s = "history"; for (int x : seq) s += " " + std::to_string(x); return s; }, [&] { r.interesting(); history(r, seq); });
            return;
        }
        for (int a : alphabet)
        {
            seq.push_back(a);
            rec();
            seq.pop_back();
        }
    };
    rec();
    // the same document open and on disk: all words
    size_t ddepth = r.thorough() ? 6 : 5;
    std::vector<int> dseq;
    std::function<void(bool)> drec = [&](bool open) {
        if (dseq.size() == ddepth)
        {
            r.check([&] { std::string s = "disk-history"; for (int x : dseq) s += std::string(" ") + DISK_OPS[x]; return s; }, [&] { r.interesting(); disk_history(r, dseq); });
            return;
        }
        for (int a = 0; a < 13; ++a)
        {
            bool opens = a == 4 || a == 5;
            if (open ? opens : a >= 6 && a <= 9)
                continue;
            dseq.push_back(a);
            drec(opens || (open && a != 9));
            dseq.pop_back();
        }
    };
    drec(false);
    // bytes from disk
    std::vector<std::string> bytes = { "a", "\n", "\x80", "\x90", "\xa0", "\xbf", "\xc0", "\xc3", "\xe0", "\xe2", "\xed", "\xef", "\xf0", "\xf4", "\xf5", "\xf8", "\xff" };
    for (auto& s : docs(bytes, r.thorough() ? 5 : 4))
        r.check([&] { return "disk " + esc(s); }, [&] { r.interesting(); disk(r, s); });
    return r.finish();
}
