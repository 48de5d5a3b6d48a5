// C05: the whole server program (main.cpp with in-memory streams): routing and debug session life cycle.
#define main server_main
#include "main.cpp"
#undef main
#include "mc_util.h"
using namespace verif;
using namespace hlasm_plugin::language_server;
using json = nlohmann::json;

// alphabet: letter + session digit
//  L  language server request                 r register session     t threads request (payload echoed in request_seq)
//  i  initialize      l launch                d disconnect           x dispose (no params)      X params null
//  q  malformed debug payload                 u messages to nobody   m malformed registrations
//  ?  messages of odd shapes for the language server
struct Step
{
    char k;
    int s;
};
static std::string text_of(const std::vector<Step>& v)
{
    std::string t;
    for (auto& x : v)
        t += std::string(1, x.k) + (strchr("rtildxXq", x.k) ? std::to_string(x.s) : "") + " ";
    return t;
}
static json tunnel(int s, json p) { return { { "jsonrpc", "2.0" }, { "method", "hlasm/dap_tunnel/" + std::to_string(s) }, { "params", std::move(p) } }; }
static json dap_req(int s, const char* c, json seq, json args)
{
    return tunnel(s, { { "type", "request" }, { "seq", std::move(seq) }, { "command", c }, { "arguments", std::move(args) } });
}
static json seq_of(size_t i) { return i % 2 ? json { { "n", i }, { "x", "\xc3\xa9\xe4\xb8\xad" } } : json(i); }
static std::vector<json> not_awaited; // requests whose answer the client does not wait for
static json msg(json method, json params) { return json { { "method", std::move(method) }, { "params", std::move(params) } }; }
static json only_method(json method) { return json { { "method", std::move(method) } }; }
static std::vector<json> messages(const Step& st, size_t i)
{
    std::vector<json> v;
    auto add = [&](json j) { v.push_back(std::move(j)); };
    auto req = [](const char* c) { return json { { "type", "request" }, { "command", c }, { "seq", "q" } }; };
    switch (st.k)
    {
        case 'L': add(json { { "jsonrpc", "2.0" }, { "id", i }, { "method", "shutdown" }, { "params", json::object() } }); break;
        case 'r': add(json { { "jsonrpc", "2.0" }, { "method", "hlasm/dap_tunnel" }, { "params", st.s } }); break;
        case 't': add(dap_req(st.s, "threads", seq_of(i), json::object())); break;
        case 'i': add(dap_req(st.s, "initialize", seq_of(i), json { { "linesStartAt1", true }, { "columnsStartAt1", true }, { "pathFormat", "path" } })); break;
        case 'l': add(dap_req(st.s, "launch", seq_of(i), json { { "program", "/nonexistent-verif/p" }, { "stopOnEntry", true } })); break;
        case 'd': add(dap_req(st.s, "disconnect", seq_of(i), json::object())); break;
        case 'x': {
            auto m = tunnel(st.s, json());
            m.erase("params");
            add(m);
            break;
        }
        case 'X': add(tunnel(st.s, nullptr)); break;
        case 'q':
            add(tunnel(st.s, 5));
            add(tunnel(st.s, "x"));
            add(tunnel(st.s, json::array()));
            add(tunnel(st.s, json::object()));
            add(tunnel(st.s, json { { "type", 3 } }));
            add(tunnel(st.s, json { { "type", "request" } }));
            add(tunnel(st.s, json { { "type", "request" }, { "command", 4 }, { "seq", 1 } }));
            add(tunnel(st.s, req("nothing")));
            add(tunnel(st.s, json { { "type", "request" }, { "command", "threads" } }));
            add(tunnel(st.s, json { { "type", "response" }, { "command", "threads" }, { "seq", 1 } }));
            for (const char* c : { "initialize", "launch", "setBreakpoints", "scopes", "variables" })
            {
                // no arguments at all, and of a wrong type
                add(tunnel(st.s, req(c)));
                for (json a : { json(5), json(json::object()), json(json::array()), json(nullptr) })
                {
                    auto m = req(c);
                    m["arguments"] = a;
                    add(tunnel(st.s, m));
                }
            }
            for (const char* path : { "", "x y%%%", "file://%zz", "\xc3\xa9", "::::" })
            {
                auto m = req("setBreakpoints");
                m["arguments"] = json { { "source", { { "path", path } } }, { "breakpoints", json::array({ json { { "line", 0 } }, json { { "line", -1 } } }) } };
                add(tunnel(st.s, m));
                m = req("initialize");
                m["arguments"] = json { { "pathFormat", "uri" } };
                add(tunnel(st.s, m));
                m = req("launch");
                m["arguments"] = json { { "program", path } };
                add(tunnel(st.s, m));
            }
            break;
        case 'u':
            add(dap_req(77, "threads", 1, json::object()));
            add(msg("hlasm/dap_tunnel/", req("threads")));
            add(msg("hlasm/dap_tunnel/1x", req("threads")));
            add(msg("hlasm/dap_tunnel/01", req("threads")));
            add(msg("hlasm/dap_tunnelx", 3));
            break;
        case 'm':
            add(only_method("hlasm/dap_tunnel"));
            add(msg("hlasm/dap_tunnel", "1"));
            add(msg("hlasm/dap_tunnel", 1.5));
            add(msg("hlasm/dap_tunnel", nullptr));
            add(msg("hlasm/dap_tunnel", json::array({ 3 })));
            break;
        case '?':
            add(json(3));
            add(json::array());
            add(json());
            add(json("hlasm/dap_tunnel/1"));
            add(json::object());
            add(msg(3, 1));
            add(only_method(nullptr));
            add(only_method(json::array({ "hlasm/dap_tunnel/1" })));
            add(json { { "method", "textDocument/hover" }, { "id", "h" } });
            add(msg("textDocument/didOpen", json::array()));
            add(msg("textDocument/didOpen", json::object()));
            break;
    }
    return v;
}

struct World
{
    std::mutex m;
    std::condition_variable cv;
    std::vector<json> out;
    std::vector<json> in;
    std::vector<size_t> wait; // number of answers to wait for before message i is sent; last: before the end
    size_t pos = 0;
    size_t answers = 0; // of the kinds that are waited for
};
static World* W = nullptr;
static bool is_answer(const json& m)
{
    if (m.contains("id") && m.contains("result"))
        return true;
    return m.contains("params") && m.at("params").is_object() && m.at("params").value("type", "") == "response" && m.at("params").at("request_seq") != "q" && std::find(not_awaited.begin(), not_awaited.end(), m.at("params").at("request_seq")) == not_awaited.end();
}
struct my_streams final : server_streams, json_sink, json_source
{
    json_sink& get_response_stream() & override { return *this; }
    json_source& get_request_stream() & override { return *this; }
    void write(const nlohmann::json& msg) override
    {
        {
            std::lock_guard g(W->m);
            mc::Off off;
            W->out.push_back(msg);
            W->answers += is_answer(msg);
        }
        W->cv.notify_all();
    }
    void write(nlohmann::json&& msg) override { write((const nlohmann::json&)msg); }
    std::optional<nlohmann::json> read() override
    {
        std::unique_lock l(W->m);
        W->cv.wait(l, [] { return W->answers >= W->wait[W->pos]; });
        mc::Off off;
        if (W->pos >= W->in.size())
            return std::nullopt;
        return W->in[W->pos++];
    }
};
std::unique_ptr<server_streams> server_streams::create(int, char**) { return std::make_unique<my_streams>(); }

// mode 0: the client waits for every answer before the next message; 1: only before the end; 2: never, the stream just ends
static void scenario(Run& r, const std::vector<Step>& sc, int mode, int bound, bool delay)
{
    struct Exp
    {
        json body; // request_seq or id
        std::string command;
        bool optional;
    };
    std::map<int, std::vector<Exp>> want; // -1: language server
    std::map<int, char> st;               // o open, c closing, e ended
    std::vector<json> in;
    std::vector<size_t> wait;
    size_t answers = 0;
    not_awaited.clear();
    for (size_t i = 0; i < sc.size(); ++i)
    {
        auto ms = messages(sc[i], i);
        for (auto& m : ms)
        {
            in.push_back(m);
            wait.push_back(mode == 0 ? answers : 0);
        }
        int s = sc[i].s;
        switch (sc[i].k)
        {
            case 'L':
                want[-1].push_back({ i, "", false });
                ++answers;
                break;
            case 'r':
                if (!st.count(s))
                    st[s] = 'o';
                break;
            case 't':
            case 'i':
            case 'd':
            case 'l':
            case 'q':
                if (st.count(s) && st[s] != 'e')
                {
                    bool opt = st[s] == 'c' || sc[i].k == 'l';
                    if (sc[i].k != 'q')
                        want[s].push_back({ seq_of(i), sc[i].k == 't' ? "threads" : sc[i].k == 'i' ? "initialize" : sc[i].k == 'd' ? "disconnect" : "launch", opt });
                    if (!opt && sc[i].k != 'q')
                        ++answers;
                    else
                        not_awaited.push_back(seq_of(i));
                    if (sc[i].k == 'd')
                        st[s] = 'c';
                }
                break;
            case 'x':
            case 'X':
                if (st.count(s))
                    st[s] = 'e';
                break;
        }
    }
    wait.push_back(mode == 2 ? 0 : answers);
    std::vector<json> out;
    explore_case(
        r, bound,
        [&] {
            World w;
            w.in = in;
            w.wait = wait;
            W = &w;
            server_main(0, nullptr);
            mc::Off off;
            out = w.out;
        },
        [&] {
            std::map<int, size_t> pos;
            for (auto& m : out)
            {
                std::string d = m.dump().substr(0, 300);
                if (m.contains("id") && !m.contains("error"))
                {
                    auto& v = want[-1];
                    size_t& p = pos[-1];
                    require(p < v.size() && v[p].body == m.at("id") && m.contains("result"), "unexpected answer of the language server: " + d);
                    ++p;
                    continue;
                }
                if (m.contains("error"))
                    continue; // an error answer to a malformed request of '?'
                require(m.value("jsonrpc", "") == "2.0" && m.contains("method") && m.contains("params"), "unexpected message " + d);
                std::string me = m.at("method");
                require(me.rfind("hlasm/dap_tunnel/", 0) == 0, "unexpected message " + d);
                int s = atoi(me.c_str() + 17);
                require(me == "hlasm/dap_tunnel/" + std::to_string(s) && st.count(s), "message of a session that does not exist: " + d);
                auto& b = m.at("params");
                if (b.at("type") == "event")
                {
                    std::string e = b.at("event");
                    require(e == "initialized" || e == "exited" || e == "terminated" || e == "stopped", "unexpected event " + d);
                    continue;
                }
                auto& v = want[s];
                size_t& p = pos[s];
                if (b.value("request_seq", json()) == "q")
                    continue; // malformed requests may be answered
                require(b.at("type") == "response" && b.at("success") == true, "unexpected message " + d);
                while (p < v.size() && v[p].optional && v[p].body != b.at("request_seq"))
                    ++p;
                require(p < v.size() && v[p].body == b.at("request_seq") && v[p].command == b.at("command"), "unexpected answer of session " + std::to_string(s) + ": " + d);
                ++p;
            }
            if (mode != 2)
                for (auto& [s, v] : want)
                {
                    size_t p = pos[s];
                    while (p < v.size() && v[p].optional)
                        ++p;
                    require(p == v.size(), "an answer of " + std::to_string(s) + " is missing");
                }
        },
        3000000, delay);
    r.interesting();
    r.state(text_of(sc));
}

int main(int argc, char** argv)
{
    Run r(argc, argv, 2);
    bool th = r.thorough();
#ifdef VERIF_RACE
    const bool race = true;
#else
    const bool race = false;
#endif
    // every kind once, for session 1 and 2
    std::vector<Step> al = { { 'L', 0 }, { 'r', 1 }, { 't', 1 }, { 'i', 1 }, { 'd', 1 }, { 'x', 1 }, { 'X', 1 }, { 'q', 1 }, { 'l', 1 }, { 'r', 2 }, { 't', 2 }, { 'd', 2 }, { 'x', 2 }, { 'u', 0 }, { 'm', 0 }, { '?', 0 } };
    auto go = [&](const std::vector<Step>& sc, int mode, int bound) {
        // two debug sessions or an assembly (many threads), many messages: delay bounding
        bool delay = std::count_if(sc.begin(), sc.end(), [](auto& x) { return x.k == 'r'; }) > 1;
        for (auto& x : sc)
            if (strchr("ql?", x.k))
            {
                delay = true;
                if (x.k != 'l' && !th && sc.size() > 1)
                    bound = 0;
            }
        r.check([&] { return "script " + text_of(sc) + "mode=" + std::to_string(mode) + (delay ? " delays=" : " bound=") + std::to_string(bound); }, [&] { scenario(r, sc, mode, bound, delay); });
    };
    std::vector<Step> sc;
    size_t L = race ? 2 : th ? 4 : 3;
    std::function<void()> rec = [&] {
        if (!sc.empty())
        {
            // canonical: session 2 only after session 1 was mentioned
            bool core = sc[0].k == 'r';
            for (auto& x : sc)
                core = core && strchr("Lrtdx", x.k);
            int bound = sc.size() == 1 ? (race ? 1 : 2) : sc.size() == 2 ? (th && core ? 2 : 1) : sc.size() == 3 ? (core || th ? 1 : 0) : 0;
            if (race)
                bound = std::min(bound, 1);
            for (int mode : { 0, 1, 2 })
            {
                if (sc.size() >= 4 && mode == 0)
                    continue;
                if (race && mode == 0)
                    continue;
                if (sc.size() == 3 && !th && mode != 1 && bound < 1)
                    continue;
                go(sc, mode, sc.size() == 3 && mode == 0 ? 0 : bound);
            }
        }
        if (sc.size() < L)
            for (auto& x : al)
            {
                if (x.s == 2)
                {
                    bool one = false;
                    for (auto& y : sc)
                        one = one || y.s == 1;
                    if (!one)
                        continue;
                }
                // registered ids are fresh: never again after the session ended
                if (x.k == 'r')
                {
                    bool ended = false;
                    for (auto& y : sc)
                        ended = ended || (y.s == x.s && strchr("dxX", y.k));
                    if (ended)
                        continue;
                }
                sc.push_back(x);
                rec();
                sc.pop_back();
            }
    };
    rec();
    // longer fixed conversations
    std::vector<std::vector<Step>> fixed = {
        { { 'r', 1 }, { 'i', 1 }, { 'l', 1 }, { 't', 1 }, { 'd', 1 }, { 'x', 1 }, { 'L', 0 } },
        { { 'L', 0 }, { 'r', 1 }, { 'r', 2 }, { 't', 1 }, { 't', 2 }, { 'L', 0 }, { 'x', 1 }, { 't', 2 }, { 't', 1 } },
        { { 'r', 1 }, { 'i', 1 }, { 'r', 2 }, { 'i', 2 }, { 'd', 1 }, { 't', 2 }, { 'd', 2 }, { 'x', 2 }, { 'x', 1 } },
        { { 'r', 1 }, { 'r', 1 }, { 't', 1 }, { 'q', 1 }, { 't', 1 }, { '?', 0 }, { 'L', 0 } },
        { { 'r', 1 }, { 't', 1 }, { 't', 1 }, { 't', 1 }, { 't', 1 }, { 'u', 0 }, { 'm', 0 }, { 'L', 0 }, { 'L', 0 } },
        { { 'r', 1 }, { 'x', 1 }, { 'r', 2 }, { 't', 2 }, { 'r', 3 }, { 't', 3 }, { 't', 1 } },
    };
    for (auto& f : fixed)
        for (int mode : { 0, 1, 2 })
        {
            go(f, mode, race || (!th && mode == 0) ? 0 : 1);
        }
    return r.finish();
}
