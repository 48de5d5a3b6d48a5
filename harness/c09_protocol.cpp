// C09: the language server speaks the protocol correctly.
//
// A client talks to the real lsp::server through the real transport encoding. Behind the server is either a stand-in for the
// workspace manager with known answers (so that every field of every message can be predicted), or the real manager, whose
// diagnostics a second consumer records. The client decodes everything it is sent.
#include "ws_util.h"

#include <sstream>

#include "base_protocol_channel.h"
#include "diagnostic.h"
#include "location.h"
#include "lsp/lsp_server.h"
#include "nlohmann/json.hpp"

using namespace verif;
using namespace hlasm_plugin;
using namespace hlasm_plugin::parser_library;
using nlohmann::json;

// the client's way to write and read URIs
static std::string uri_of(const std::string& path)
{
    std::string s = "file://";
    static const char* hex = "0123456789ABCDEF";
    for (unsigned char c : path)
        if (isalnum(c) || c == '-' || c == '.' || c == '_' || c == '~' || c == '/')
            s += c;
        else
            s += std::string("%") + hex[c >> 4] + hex[c & 15];
    return s;
}
static std::string path_of(const std::string& uri)
{
    require(uri.compare(0, 7, "file://") == 0, "uri " + uri + " has another scheme");
    std::string s;
    for (size_t i = 7; i < uri.size(); ++i)
        if (uri[i] == '%' && i + 2 < uri.size() && isxdigit((unsigned char)uri[i + 1]) && isxdigit((unsigned char)uri[i + 2]))
        {
            s += (char)std::stoi(uri.substr(i + 1, 2), nullptr, 16);
            i += 2;
        }
        else
        {
            require(uri[i] != '?' && uri[i] != '#' && uri[i] != ' ' && !((unsigned char)uri[i] & 0x80), "uri " + uri + " is not encoded");
            s += uri[i];
        }
    return s;
}

static std::string str(const diagnostic_s& d, const std::string& file)
{
    auto pos = [](const position& p) { return std::to_string(p.line) + ":" + std::to_string(p.column); };
    std::string s = file + " " + pos(d.diag_range.start) + "-" + pos(d.diag_range.end) + " " + std::to_string((int)d.severity) + " " + d.code + "/" + d.source + " " + d.message;
    for (auto& x : d.related)
        s += " <" + x.location.uri + " " + pos(x.location.rang.start) + "-" + pos(x.location.rang.end) + " " + x.message + ">";
    return s;
}

static std::string valid(const std::string& s) // as it can be transported
{
    return json::parse(json(s).dump(-1, ' ', false, json::error_handler_t::replace)).get<std::string>();
}

struct Client : language_server::send_message_provider
{
    std::stringstream in, out;
    language_server::base_protocol_channel channel { in, out };
    std::vector<json> got; // since the last message
    std::map<std::string, std::multiset<std::string>> shown; // diagnostics by path
    size_t published = 0;

    void reply(const json& m) override
    {
        out.str("");
        channel.write(m);
        auto s = out.str();
        auto p = s.find("\r\n\r\n");
        require(p != std::string::npos, "no header");
        auto j = json::parse(s.substr(p + 4));
        require(j.value("jsonrpc", "") == "2.0", "no jsonrpc member");
        got.push_back(j);
        if (j.value("method", "") == "textDocument/publishDiagnostics")
        {
            ++published;
            auto path = path_of(j["params"]["uri"]);
            auto& v = shown[path];
            v.clear();
            for (auto& d : j["params"]["diagnostics"])
            {
                auto range = [](const json& r) {
                    return hlasm_plugin::parser_library::range({ r.at("start").at("line").get<size_t>(), r.at("start").at("character").get<size_t>() },
                        { r.at("end").at("line").get<size_t>(), r.at("end").at("character").get<size_t>() });
                };
                diagnostic_s x;
                x.diag_range = range(d.at("range"));
                x.severity = (diagnostic_severity)d.value("severity", (int)diagnostic_severity::unspecified);
                x.code = d.at("code");
                x.source = d.at("source");
                x.message = d.at("message");
                if (!d.at("relatedInformation").is_null())
                    for (auto& i : d.at("relatedInformation"))
                        x.related.push_back({ { path_of(i.at("location").at("uri")), range(i.at("location").at("range")) }, i.at("message") });
                v.insert(str(x, path));
            }
            if (v.empty())
                shown.erase(path);
        }
    }
    std::string view() const
    {
        std::string s;
        for (auto& [f, v] : shown)
            for (auto& x : v)
                s += x + "\n";
        return s;
    }
    // the response to a request, the only one
    json response(const json& id)
    {
        json r;
        size_t n = 0;
        for (auto& m : got)
            if (!m.contains("method"))
            {
                require(m.contains("id") && m["id"].dump() == id.dump(), "response with id " + m.value("id", json()).dump() + " instead of " + id.dump());
                require(m.contains("result") != m.contains("error"), "response has no result and no error, or both");
                ++n;
                r = m;
            }
        require(n == 1, std::to_string(n) + " responses to " + id.dump());
        return r;
    }
    void no_response()
    {
        for (auto& m : got)
            require(m.contains("method"), "a response to a notification: " + m.dump());
    }
};

static std::multiset<std::string> all(diagnostic_s* d, size_t n)
{
    std::multiset<std::string> s;
    for (size_t i = 0; i < n; ++i)
        s.insert(str(d[i], d[i].file_name));
    return s;
}

struct Recorder : diagnostics_consumer // the current diagnostics of the real manager
{
    std::string view;
    void consume_diagnostics(diagnostic_list l) override
    {
        std::multiset<std::string> s;
        for (size_t i = 0; i < l.diagnostics_size(); ++i)
        {
            auto d = l.diagnostics(i);
            diagnostic_s x;
            x.diag_range = d.get_range();
            x.severity = d.severity();
            x.code = d.code();
            x.source = d.source();
            x.message = valid(d.message());
            for (size_t k = 0; k < d.related_info_size(); ++k)
                x.related.push_back({ { d.related_info(k).location().uri(), d.related_info(k).location().get_range() }, d.related_info(k).message() });
            s.insert(str(x, d.file_name()));
        }
        view.clear();
        for (auto& x : s)
            view += x + "\n";
    }
};

struct Fake : workspace_manager // answers what it is told to and records what it was asked
{
    std::vector<std::string> calls;
    std::vector<token_info> tokens;
    diagnostics_consumer* consumer = nullptr;
    location def;
    location_list refs;
    std::string hov;
    std::vector<std::string> order;

    static std::string p(position x) { return std::to_string(x.line) + ":" + std::to_string(x.column); }
    void register_diagnostics_consumer(diagnostics_consumer* c) override { consumer = c; }
    void set_message_consumer(message_consumer*) override {}
    void add_workspace(const char* n, const char* u) override { calls.push_back(std::string("add ") + u); }
    void remove_workspace(const char* u) override { calls.push_back(std::string("remove ") + u); }
    void did_open_file(const char* u, version_t v, const char* t, size_t n) override { calls.push_back("open " + std::string(u) + " " + std::to_string(v) + " " + std::string(t, n)); }
    void did_change_file(const char* u, version_t v, const document_change* c, size_t n) override
    {
        std::string s = "change " + std::string(u) + " " + std::to_string(v);
        for (size_t i = 0; i < n; ++i)
            s += c[i].whole ? " [all " + std::string(c[i].text, c[i].text_length) + "]"
                            : " [" + p(c[i].change_range.start) + "-" + p(c[i].change_range.end) + " " + std::string(c[i].text, c[i].text_length) + "]";
        calls.push_back(s);
    }
    void did_close_file(const char* u) override { calls.push_back("close " + std::string(u)); }
    void did_change_watched_files(const char** u, size_t n) override
    {
        std::string s = "watched";
        for (size_t i = 0; i < n; ++i)
            s += " " + std::string(u[i]);
        calls.push_back(s);
    }
    position_uri definition(const char* u, position x) override
    {
        calls.push_back("definition " + std::string(u) + " " + p(x));
        return position_uri(def);
    }
    position_uri_list references(const char* u, position x) override
    {
        calls.push_back("references " + std::string(u) + " " + p(x));
        return position_uri_list(refs.data(), refs.size());
    }
    std::string_view hover(const char* u, position x) override
    {
        calls.push_back("hover " + std::string(u) + " " + p(x));
        return hov;
    }
    completion_list completion(const char* u, position x, char t, completion_trigger_kind k) override
    {
        calls.push_back("completion " + std::string(u) + " " + p(x) + " " + (t ? std::string(1, t) : "-") + " " + std::to_string((int)k));
        return completion_list(nullptr, 0);
    }
    const std::vector<token_info>& semantic_tokens(const char* u) override
    {
        calls.push_back("tokens " + std::string(u));
        return tokens;
    }
    void configuration_changed(const lib_config&) override { calls.push_back("configuration"); }
};

struct Session
{
    Client c;
    language_server::lsp::server s;
    explicit Session(workspace_manager& m)
        : s(m)
    {
        s.set_send_message_provider(&c);
    }
    void send(const json& m)
    {
        c.got.clear();
        s.message_received(m);
    }
    json request(const json& id, const std::string& method, const json& params)
    {
        send({ { "jsonrpc", "2.0" }, { "id", id }, { "method", method }, { "params", params } });
        return c.response(id);
    }
    void notify(const std::string& method, const json& params)
    {
        send({ { "jsonrpc", "2.0" }, { "method", method }, { "params", params } });
        c.no_response();
    }
};

static json pos(size_t l, size_t c) { return { { "line", l }, { "character", c } }; }

int main(int argc, char** argv)
{
    Run r(argc, argv, 16);
    const bool deep = r.thorough();
    ws::Disk disk;
    const std::vector<std::string> names = { "A", "a b", "\xC3\xA9", "x%41", "x+y", "x#y", "x?y", "x;y=z", "x@y", "x&y", "x!$'()*,y", "x[y]", "x:y", "\xF0\x9F\x98\x80", "x~y", "x%", "x\"y", "x\\y" };

    // -------------------------------------------------- 1: the token encoding
    {
        std::vector<token_info> grid;
        for (size_t l : { 0, 1, 3 })
            for (size_t c : { 0, 1, 5, 71 })
                for (size_t n : { 1, 4 })
                    grid.emplace_back(l, c, l, c + n, (semantics::hl_scopes)((l + c + n) % 17));
        auto rec = [&](auto& self, std::vector<token_info> v, size_t from, size_t k) -> void {
            r.check(
                [&] {
                    std::string s = "tokens";
                    for (auto& t : v)
                        s += " " + Fake::p(t.token_range.start) + "+" + std::to_string(t.token_range.end.column - t.token_range.start.column);
                    return s;
                },
                [&] {
                    Fake m;
                    Session s(m);
                    m.tokens = v;
                    auto d = s.request(1, "textDocument/semanticTokens/full", { { "textDocument", { { "uri", "file:///f" } } } })["result"]["data"];
                    require(d.size() % 5 == 0, "incomplete token");
                    size_t line = 0, col = 0;
                    std::string is, want;
                    for (size_t i = 0; i < d.size(); i += 5)
                    {
                        require(d[i] >= 0 && d[i + 1] >= 0, "negative distance");
                        line += d[i].get<size_t>();
                        col = (d[i].get<size_t>() ? 0 : col) + d[i + 1].get<size_t>();
                        is += std::to_string(line) + ":" + std::to_string(col) + "+" + d[i + 2].dump() + "/" + d[i + 3].dump() + "/" + d[i + 4].dump() + " ";
                    }
                    const token_info* last = nullptr;
                    for (auto& t : v)
                    {
                        if (last && last->token_range.start.line == t.token_range.start.line && last->token_range.start.column == t.token_range.start.column)
                            continue; // the first one at a place is shown
                        want += Fake::p(t.token_range.start) + "+" + std::to_string(t.token_range.end.column - t.token_range.start.column) + "/" + std::to_string((int)t.scope) + "/0 ";
                        last = &t;
                    }
                    require_eq(is, want, "decoded tokens");
                    ++r.transitions;
                    ++r.validated;
                    if (v.size() > 1)
                        r.interesting();
                });
            if (k)
                for (size_t i = from; i < grid.size(); ++i)
                {
                    auto w = v;
                    w.push_back(grid[i]);
                    self(self, w, i, k - 1);
                }
        };
        rec(rec, {}, 0, deep ? 5 : 4);
    }

    // -------------------------------------------------- 2: what the client is told of diagnostics
    {
        // sets of diagnostics: each of three files has one of four lists
        auto mk = [&](int file, int kind) {
            std::vector<diagnostic_s> v;
            std::string f = "/w/" + names[file];
            if (kind >= 1)
                v.push_back(diagnostic_s(f, range({ 1, 2 }, { 1, 7 }), diagnostic_severity::error, "E1", "m" + names[file], {}));
            if (kind >= 2)
                v.push_back(diagnostic_s(f, range({ 0, 0 }, { 3, 71 }), diagnostic_severity::warning, "W\xC3\xA9", "\"q\"\n\xF0\x9F\x98\x80", { { { "/w/" + names[(file + 1) % 3], range({ 5, 6 }, { 5, 6 }) }, "rel" }, { { "/w/x%20", range({ 7, 0 }, { 8, 0 }) }, "" } }));
            if (kind == 2)
                v.erase(v.begin());
            if (kind == 3)
                v.push_back(v[0]); // the same one twice
            return v;
        };
        std::vector<std::vector<int>> sets;
        for (int a = 0; a < 4; ++a)
            for (int b = 0; b < (deep ? 4 : 3); ++b)
                for (int c = 0; c < 2; ++c)
                    sets.push_back({ a, b, c });
        auto rec = [&](auto& self, std::vector<size_t> v, size_t k) -> void {
            if (k == 0)
            {
                r.check(
                    [&] {
                        std::string s = "diagnostics";
                        for (auto i : v)
                            s += " " + std::to_string(sets[i][0]) + std::to_string(sets[i][1]) + std::to_string(sets[i][2]);
                        return s;
                    },
                    [&] {
                        Fake m;
                        Session s(m);
                        for (auto i : v)
                        {
                            std::vector<diagnostic_s> d;
                            for (int f = 0; f < 3; ++f)
                                for (auto& x : mk(f, sets[i][f]))
                                    d.insert(f == 1 ? d.begin() : d.end(), x);
                            m.consumer->consume_diagnostics(diagnostic_list(d.data(), d.size()));
                            std::string want;
                            std::map<std::string, std::multiset<std::string>> by;
                            for (auto& x : d)
                                by[x.file_name].insert(str(x, x.file_name));
                            for (auto& [f, y] : by)
                                for (auto& x : y)
                                    want += x + "\n";
                            require_eq(s.c.view(), want, "diagnostics the client shows");
                            ++r.transitions;
                        }
                        ++r.validated;
                        r.interesting();
                    });
                return;
            }
            for (size_t i = 0; i < sets.size(); ++i)
            {
                auto w = v;
                w.push_back(i);
                self(self, w, k - 1);
            }
        };
        rec(rec, {}, 3);
    }

    // -------------------------------------------------- 3: every message: what arrives and what is answered
    {
        const std::vector<json> ids = { 1, 0, -7, 4294967296, "s", "", "1" };
        const std::vector<std::pair<size_t, size_t>> places = { { 0, 0 }, { 1, 2 }, { 70000, 3 }, { 2, 4294967295u } };
        for (auto& n : names)
            for (auto& id : ids)
                for (auto& pl : places)
                    r.check([&] { return "message " + esc(n) + " " + id.dump() + " " + std::to_string(pl.first); }, [&] {
                        Fake m;
                        Session s(m);
                        const std::string path = "/w/" + n, uri = uri_of(path), at = path + " " + Fake::p({ pl.first, pl.second });
                        json doc { { "textDocument", { { "uri", uri } } }, { "position", pos(pl.first, pl.second) } };
                        auto called = [&](const std::string& what) {
                            require(m.calls.size() == 1, std::to_string(m.calls.size()) + " calls instead of " + what);
                            require_eq(m.calls[0], what, "call");
                            m.calls.clear();
                            ++r.transitions;
                        };
                        for (auto& target : { path, std::string("/o/x%41 y"), std::string() })
                        {
                            m.def = location({ pl.second, pl.first }, target);
                            auto d = s.request(id, "textDocument/definition", doc)["result"];
                            called("definition " + at);
                            require_eq(path_of(d.at("uri")), target.empty() ? path : target, "file of the definition");
                            require_eq(d.at("range").at("start").dump(), pos(pl.second, pl.first).dump(), "definition");
                            require_eq(d.at("range").at("end").dump(), pos(pl.second, pl.first).dump(), "definition");
                        }
                        m.refs = { location({ 1, 2 }, path), location({ 3, 4 }, "/o/\xC3\xA9"), location({ 1, 2 }, path) };
                        auto d = s.request(id, "textDocument/references", doc)["result"];
                        called("references " + at);
                        require(d.size() == 3, "references are lost");
                        for (size_t i = 0; i < 3; ++i)
                        {
                            require_eq(path_of(d[i].at("uri")), m.refs[i].file, "file of a reference");
                            require_eq(d[i].at("range").at("start").dump(), pos(m.refs[i].pos.line, m.refs[i].pos.column).dump(), "reference");
                        }
                        m.refs.clear();
                        require_eq(s.request(id, "textDocument/references", doc)["result"].dump(), "[]", "no references");
                        called("references " + at);
                        m.hov = "text *" + n;
                        require_eq(s.request(id, "textDocument/hover", doc)["result"].at("contents").at("value").get<std::string>(), m.hov, "hover");
                        called("hover " + at);
                        s.request(id, "textDocument/completion", doc);
                        called("completion " + at + " - 1");
                        auto cdoc = doc;
                        cdoc["context"] = { { "triggerKind", 2 }, { "triggerCharacter", "&" } };
                        s.request(id, "textDocument/completion", cdoc);
                        called("completion " + at + " & 2");
                        s.request(id, "textDocument/semanticTokens/full", doc);
                        called("tokens " + path);
                        s.notify("textDocument/didOpen", { { "textDocument", { { "uri", uri }, { "languageId", "hlasm" }, { "version", pl.first }, { "text", "a\r\n" + n } } } });
                        called("open " + path + " " + std::to_string(pl.first) + " a\r\n" + n);
                        json ch = json::array();
                        ch.push_back({ { "range", { { "start", pos(1, 2) }, { "end", pos(pl.first + 3, 4) } } }, { "text", n } });
                        ch.push_back({ { "text", "all" } });
                        ch.push_back({ { "range", { { "start", pos(0, 0) }, { "end", pos(0, 0) } } }, { "text", "" } });
                        s.notify("textDocument/didChange", { { "textDocument", { { "uri", uri }, { "version", 9 } } }, { "contentChanges", ch } });
                        called("change " + path + " 9 [1:2-" + std::to_string(pl.first + 3) + ":4 " + n + "] [all all] [0:0-0:0 ]");
                        s.notify("textDocument/didClose", doc);
                        called("close " + path);
                        s.notify("workspace/didChangeWatchedFiles", { { "changes", { { { "uri", uri }, { "type", 2 } }, { { "uri", "file:///z" }, { "type", 1 } } } } });
                        called("watched " + path + " /z");
                        json f { { { "uri", uri }, { "name", "n" } } };
                        s.notify("workspace/didChangeWorkspaceFolders", { { "event", { { "added", f }, { "removed", json::array() } } } });
                        called("add " + path);
                        s.notify("workspace/didChangeWorkspaceFolders", { { "event", { { "added", json::array() }, { "removed", f } } } });
                        called("remove " + path);
                        // the configuration is asked for, and its answer is used once
                        s.notify("workspace/didChangeConfiguration", { { "settings", json::object() } });
                        require(s.c.got.size() == 1 && s.c.got[0].value("method", "") == "workspace/configuration", "the configuration is not requested");
                        json cid = s.c.got[0]["id"];
                        s.send({ { "jsonrpc", "2.0" }, { "id", cid }, { "result", { json::object() } } });
                        called("configuration");
                        s.send({ { "jsonrpc", "2.0" }, { "id", cid }, { "result", { json::object() } } });
                        require(m.calls.empty() && s.c.got.empty(), "a second answer is used");
                        auto i = s.request(id, "initialize", { { "rootUri", uri }, { "capabilities", json::object() } })["result"];
                        called("add " + path);
                        require(i.at("capabilities").at("definitionProvider") == true, "capabilities");
                        s.request(id, "shutdown", json());
                        require(s.s.is_shutdown_request_received() && !s.s.is_exit_notification_received(), "shutdown");
                        s.notify("exit", json());
                        require(s.s.is_exit_notification_received(), "exit");
                        ++r.validated;
                        r.interesting();
                    });
    }

    // -------------------------------------------------- 4: histories with the real workspace manager
    {
        const std::string pgm = "{\"pgms\":[{\"program\":\"P*\",\"pgroup\":\"G\"}]}", grp = "{\"pgroups\":[{\"name\":\"G\",\"libs\":[\"lib\"]}]}";
        std::map<std::string, std::string> files = { { ".hlasmplugin/pgm_conf.json", pgm }, { ".hlasmplugin/proc_grps.json", grp }, { "lib/MAC", " MACRO\n MAC &X\n LR &X\n MEND\n" } };
        struct Event
        {
            std::string name;
            std::function<void(Session&)> run;
            std::function<void(Session&)> before; // of the disk
        };
        std::vector<Event> ev;
        auto doc = [&](const std::string& f) { return json { { "uri", uri_of(disk.uri(f)) }, { "version", 1 } }; };
        const std::vector<std::pair<std::string, std::string>> texts = { { "ok", " LR 1,1\n" }, { "bad", " LR 1\nX EQU X\n" }, { "mac", " MAC 1\n MAC\n" }, { "note", "&A SETC '\xC3\xA9'(1,1)\n MNOTE 8,'&A'\n &A\n DC \xF0\x9F\x98\x80\n \xC3\xA9\n" } };
        for (auto& f : { "P1", "P 2#%41" })
        {
            for (auto& [n, t] : texts)
            {
                std::string tt = t, ff = f;
                ev.push_back({ "open-" + ff + "-" + n, [=](Session& s) { auto d = doc(ff); d["text"] = tt; s.notify("textDocument/didOpen", { { "textDocument", d } }); }, {} });
                if (n != "note" || ff == "P1")
                    ev.push_back({ "change-" + ff + "-" + n, [=](Session& s) { s.notify("textDocument/didChange", { { "textDocument", doc(ff) }, { "contentChanges", { { { "text", tt } } } } }); }, {} });
            }
            std::string ff = f;
            ev.push_back({ "close-" + ff, [=](Session& s) { s.notify("textDocument/didClose", { { "textDocument", doc(ff) } }); }, {} });
            ev.push_back({ "ask-" + ff, [=](Session& s) {
                              json p { { "textDocument", doc(ff) }, { "position", pos(0, 2) } };
                              json id = 5;
                              for (auto m : { "definition", "references", "hover", "completion", "semanticTokens/full" })
                                  require(s.request(id, std::string("textDocument/") + m, p).contains("result"), "no result");
                          }, {} });
        }
        ev.push_back({ "conf-bad", [=](Session& s) { s.notify("workspace/didChangeWatchedFiles", { { "changes", { { { "uri", uri_of(disk.uri(".hlasmplugin/proc_grps.json")) }, { "type", 2 } } } } }); }, [&](Session&) { disk.put(".hlasmplugin/proc_grps.json", "{"); } });
        ev.push_back({ "odd", [=](Session& s) {
                          for (auto m : { R"({})", R"({"id":1})", R"({"method":"nosuch","params":{}})", R"({"id":2,"method":"nosuch","params":{}})", R"({"method":5,"params":{}})", R"({"id":77,"result":null})", R"({"id":77,"error":{"message":"m"}})", R"({"id":77,"error":1})", R"({"method":"textDocument/didOpen"})",
                                   R"({"method":"textDocument/didOpen","params":{"textDocument":{"uri":"file:///q"}}})", R"({"method":"textDocument/didChange","params":{"textDocument":{"uri":"file:///q","version":1},"contentChanges":{"a":1}}})", R"({"method":"textDocument/didClose","params":{"textDocument":{"uri":7}}})",
                                   R"({"method":"textDocument/didClose","params":[]})", R"({"method":"textDocument/didOpen","params":{"textDocument":{"uri":"::","version":1,"text":""}}})", R"({"method":"workspace/didChangeWatchedFiles","params":{"changes":[{"uri":"%"}]}})", R"([])", R"("x")" })
                          {
                              s.send(json::parse(m));
                              s.c.no_response();
                          }
                      }, {} });
        ev.push_back({ "folder-gone", [=](Session& s) { s.notify("workspace/didChangeWorkspaceFolders", { { "event", { { "added", json::array() }, { "removed", { { { "uri", uri_of(disk.root) }, { "name", "w" } } } } } } }); }, {} });
        auto rec = [&](auto& self, std::vector<size_t> v, size_t k) -> void {
            if (!v.empty())
                r.check(
                    [&] {
                        std::string s = "history";
                        for (auto i : v)
                            s += " " + ev[i].name;
                        return s;
                    },
                    [&] {
                        disk.set(files);
                        std::atomic<bool> cancel { false };
                        workspace_manager m(&cancel);
                        Recorder ref;
                        Session s(m);
                        m.register_diagnostics_consumer(&ref);
                        s.request(0, "initialize", { { "rootUri", uri_of(disk.root) }, { "capabilities", json::object() } });
                        for (auto i : v)
                        {
                            if (ev[i].before)
                                ev[i].before(s);
                            ev[i].run(s);
                            std::string want = ref.view;
                            require_eq(s.c.view(), want, "diagnostics the client shows after " + ev[i].name);
                            ++r.transitions;
                        }
                        ++r.validated;
                        if (!ref.view.empty())
                            r.interesting();
                    });
            if (k)
                for (size_t i = 0; i < ev.size(); ++i)
                {
                    auto w = v;
                    w.push_back(i);
                    self(self, w, k - 1);
                }
        };
        rec(rec, {}, deep ? 4 : 3);
    }
    return r.finish();
}
