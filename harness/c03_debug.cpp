// C03: the debugger (directly and behind its DAP server) under every command script and schedule.
#include "mc_util.h"
#include "hl_util.h"

#include <filesystem>
#include <fstream>

#include "dap/dap_server.h"
#include "debugger.h"
#include "debugging/debug_types.h"
#include "workspace_manager.h"
#include "workspaces/workspace.h"
#include "debugging/debug_lib_provider.h"
using namespace verif;
using namespace hlasm_plugin;
using namespace hlasm_plugin::parser_library;
using json = nlohmann::json;
namespace fs = std::filesystem;

static std::string root;
static std::string path_of(const std::string& n) { return root + "/" + n; }
// the clock is not part of the result
static std::string clock_free(const std::string& name, const std::string& v)
{
    return name.rfind("&SYSTIME", 0) == 0 || name.rfind("&SYSDAT", 0) == 0 ? "(clock)" : v;
}
static std::string base(std::string_view p)
{
    auto i = p.rfind('/');
    return std::string(i == std::string_view::npos ? p : p.substr(i + 1));
}

struct Prog
{
    std::string name, text;
    std::string expect; // file:line/depth of every executed statement, written by hand
    std::vector<std::pair<std::string, std::vector<size_t>>> bps; // interesting break point lines per file
};

static const std::vector<Prog>& programs()
{
    static const std::vector<Prog> p = {
        { "flat", hl::lines({ " LR 1,1", "* comment", "&A SETA 5", "", "X EQU 7", " LR 1,2" }),
            "flat:0/1 flat:2/1 flat:4/1 flat:5/1 ", { { "flat", { 0, 1, 2, 5 } } } },
        { "mac",
            hl::lines({ " MACRO", " IN &P", "&L SETA 3", " LR &P,1", " MEND", " MACRO", " OUT &Q,&K=7", " IN &Q", "&M SETC '&K'", " MEND", " OUT 4", " LR 2,2" }),
            "mac:0/1 mac:5/1 mac:10/1 mac:7/2 mac:2/3 mac:3/3 mac:4/3 mac:8/2 mac:9/2 mac:11/1 ", { { "mac", { 3, 7, 8, 10, 11 } } } },
        { "loop", hl::lines({ "&I SETA 0", ".T ANOP", "&I SETA &I+1", "&C(&I) SETA &I*2", " AIF (&I LT 3).T", " AGO .E", " LR 3,3", ".E ANOP", " END" }),
            "loop:0/1 loop:1/1 loop:2/1 loop:3/1 loop:4/1 loop:1/1 loop:2/1 loop:3/1 loop:4/1 loop:1/1 loop:2/1 loop:3/1 loop:4/1 loop:5/1 loop:7/1 loop:8/1 ",
            { { "loop", { 2, 4, 6, 7 } } } },
        { "libs", hl::lines({ " COPY MEM", " LIBM (1,2),A", " LR 1,1", " GBLA &G", "&G SETA 8", " LIBM 3" }),
            "libs:0/1 MEM:0/2 MEM:1/2 libs:1/1 LIBM:2/2 LIBM:3/2 LIBM:4/2 libs:2/1 libs:3/1 libs:4/1 libs:5/1 LIBM:2/2 LIBM:3/2 LIBM:4/2 ",
            { { "libs", { 1, 5 } }, { "lib/MEM", { 0, 1 } }, { "lib/LIBM", { 3 } } } },
        { "cont", hl::lines({ " LR    1," + std::string(62, ' ') + "X", "               2", " LR 2,2" }), "cont:0/1 cont:2/1 ",
            { { "cont", { 0, 1, 2 } } } },
        { "one", " LR 1,1\n", "one:0/1 ", { { "one", { 0 } } } },
        { "two", " LR 1,1\n LR 2,2\n", "two:0/1 two:1/1 ", { { "two", { 0, 1 } } } },
        { "none", "* nothing\n\n", "", { { "none", { 0 } } } },
    };
    return p;
}
static const Prog& prog(const std::string& n)
{
    for (auto& p : programs())
        if (p.name == n)
            return p;
    throw Fail("no program " + n);
}

static workspace_manager* wsm = nullptr;
static void setup()
{
    const char* w = getenv("VERIF_WORK");
    root = w ? w : "/tmp/verif_c03_" + std::to_string(getpid());
    fs::create_directories(root);
    root = fs::canonical(root).string();
    fs::create_directories(root + "/.hlasmplugin");
    fs::create_directories(root + "/lib");
    auto put = [](const std::string& f, const std::string& t) { std::ofstream(f, std::ios::binary) << t; };
    put(root + "/.hlasmplugin/proc_grps.json", R"({"pgroups":[{"name":"G","libs":["lib"]}]})");
    put(root + "/.hlasmplugin/pgm_conf.json", R"({"pgms":[{"program":"*","pgroup":"G"}]})");
    put(root + "/lib/MEM", "MA EQU 3\nMB DS F\n");
    put(root + "/lib/LIBM", hl::lines({ " MACRO", "&N LIBM &P,&Q", "&V SETC 'v&P(1)'", "&B SETB 1", " MEND" }));
    for (auto& p : programs())
        put(path_of(p.name), p.text);
    wsm = new workspace_manager();
    wsm->add_workspace("ws", root.c_str());
    for (auto& p : programs())
        wsm->did_open_file(path_of(p.name).c_str(), 0, p.text.data(), p.text.size());
}

// ---- the trace of executed statements, with all that can be seen at each of them
struct Stop
{
    std::vector<std::string> frames; // innermost first: type file line
    std::string vars;                // of every frame
    size_t depth = 0, l1 = 0, l2 = 0;
    std::string file;
};
static std::string dump_set(const context::set_symbol_base& s)
{
    auto one = [&](bool idx, size_t k) -> std::string {
        switch (s.type)
        {
            case context::SET_t_enum::A_TYPE: {
                auto* p = s.access_set_symbol<context::A_t>();
                return std::to_string(idx ? p->get_value(k) : p->get_value());
            }
            case context::SET_t_enum::B_TYPE: {
                auto* p = s.access_set_symbol<context::B_t>();
                return (idx ? p->get_value(k) : p->get_value()) ? "TRUE" : "FALSE";
            }
            default: {
                auto* p = s.access_set_symbol<context::C_t>();
                return idx ? p->get_value(k) : p->get_value();
            }
        }
    };
    std::string t = s.type == context::SET_t_enum::A_TYPE ? "A" : s.type == context::SET_t_enum::B_TYPE ? "B" : "C";
    std::string o = "&" + *s.id + ":" + t + "=";
    if (s.is_scalar)
        return o + clock_free("&" + *s.id, one(false, 0));
    o += "{";
    std::vector<std::string> v;
    for (auto k : s.keys())
        v.push_back(std::to_string(k + 1) + ":" + t + "=" + one(true, k));
    std::sort(v.begin(), v.end());
    for (auto& x : v)
        o += x + ",";
    return o + "}";
}
static std::string dump_param(const context::macro_param_base& p, std::vector<size_t> idx, const std::string& name)
{
    std::string o = name + ":C=" + clock_free(name, p.get_value(idx));
    size_t n = p.size(idx);
    if (!n)
        return o;
    o += "{";
    std::vector<std::string> v;
    bool sys = p.access_system_variable() && idx.empty();
    for (size_t i = sys ? 0 : 1; i < (sys ? n : n + 1); ++i)
    {
        auto j = idx;
        j.push_back(i);
        v.push_back(dump_param(p, j, std::to_string(i)));
    }
    std::sort(v.begin(), v.end());
    for (auto& x : v)
        o += x + ",";
    return o + "}";
}
struct Recorder final : processing::statement_analyzer
{
    std::vector<Stop> stops;
    context::hlasm_context* ctx = nullptr;
    void analyze(const context::hlasm_statement& st, processing::statement_provider_kind, processing::processing_kind k) override
    {
        if (k != processing::processing_kind::ORDINARY || st.access_resolved()->opcode_ref().value == context::id_storage::empty_id)
            return;
        Stop s;
        auto stack = ctx->processing_stack();
        s.depth = stack.size();
        s.file = stack.back().proc_location.file;
        s.l1 = st.access_resolved()->stmt_range_ref().start.line;
        s.l2 = st.access_resolved()->stmt_range_ref().end.line;
        for (size_t i = stack.size(); i-- > 0;)
        {
            static const char* n[] = { "OPENCODE", "COPY", "MACRO" };
            s.frames.push_back(std::to_string(i) + " " + n[(int)stack[i].proc_type] + " " + base(stack[i].proc_location.file) + ":"
                + std::to_string(stack[i].proc_location.pos.line));
            std::vector<std::string> g, l, o;
            auto& sc = stack[i].scope;
            if (sc.is_in_macro())
                for (auto& [id, p] : sc.this_macro->named_params)
                    if (id != context::id_storage::empty_id)
                        l.push_back(dump_param(*p, {}, "&" + *p->id));
            for (auto& [id, v] : sc.variables)
                (v->is_global ? g : l).push_back(dump_set(*v));
            for (auto& [id, v] : sc.system_variables)
                (v->is_global ? g : l).push_back(dump_param(*v, {}, "&" + *v->id));
            for (auto& [id, sy] : ctx->ord_ctx.get_all_symbols())
            {
                std::string d = *sy.name + "=";
                if (sy.kind() == context::symbol_value_kind::ABS)
                    d += std::to_string(sy.value().get_abs());
                else
                    d += sy.kind() == context::symbol_value_kind::RELOC ? "RELOC" : "UNDEF";
                if (sy.attributes().is_defined(context::data_attr_kind::L))
                    d += "{L=" + std::to_string(sy.attributes().get_attribute_value(context::data_attr_kind::L)) + "}";
                o.push_back(d);
            }
            for (auto* v : { &g, &l, &o })
            {
                std::sort(v->begin(), v->end());
                for (auto& x : *v)
                    s.vars += x + ";";
                s.vars += "|";
            }
            s.vars += "\n";
        }
        stops.push_back(std::move(s));
    }
};
static const std::vector<Stop>& trace_of(const std::string& n)
{
    static std::map<std::string, std::vector<Stop>> cache;
    auto it = cache.find(n);
    if (it != cache.end())
        return it->second;
    auto& p = prog(n);
    auto* ws = wsm->find_workspace(path_of(n).c_str());
    debugging::debug_lib_provider lp(*ws);
    Recorder rec;
    analyzer a(p.text, path_of(n), lp);
    rec.ctx = a.context().hlasm_ctx.get();
    a.register_stmt_analyzer(&rec);
    a.analyze();
    return cache[n] = rec.stops;
}

// ---- the two ways to drive a session
struct Frame
{
    std::string text, file;
    size_t line, id;
};
struct Drive
{
    // events, written by the analysing thread
    std::mutex m;
    std::condition_variable cv;
    int stops = 0, exits = 0, late = 0;
    bool closed = false;
    void on_stop()
    {
        {
            std::lock_guard g(m);
            ++stops;
            late += closed;
        }
        cv.notify_all();
    }
    void on_exit()
    {
        {
            std::lock_guard g(m);
            ++exits;
            late += closed;
        }
        cv.notify_all();
    }
    // waits for stop number k (counted from 1) or the end; true if stopped
    bool wait(int k)
    {
        std::unique_lock g(m);
        cv.wait(g, [&] { return stops >= k || exits; });
        return stops >= k;
    }
    virtual ~Drive() = default;
    virtual void bps(const std::string& file, const std::vector<size_t>& lines) = 0;
    virtual void launch(const std::string& file, bool entry) = 0;
    virtual void cmd(char c) = 0; // n s c d
    virtual std::vector<Frame> frames() = 0;
    virtual std::string vars(size_t frame) = 0;
    virtual void destroy() = 0;
    void end()
    {
        destroy();
        std::lock_guard g(m);
        closed = true;
    }
};
struct Direct : Drive, debugging::debug_event_consumer
{
    std::optional<debugging::debugger> d;
    Direct() { d.emplace(); d->set_event_consumer(this); }
    void stopped(sequence<char>, sequence<char>) override { on_stop(); }
    void exited(int code) override
    {
        if (code != 0)
            mc::Sched::instance()->violate("exit code is not zero");
        on_exit();
    }
    void bps(const std::string& f, const std::vector<size_t>& l) override
    {
        std::vector<breakpoint> b;
        for (auto x : l)
            b.emplace_back(x);
        d->breakpoints(path_of(f), sequence(b));
    }
    void launch(const std::string& f, bool e) override { d->launch(path_of(f), *wsm->find_workspace(path_of(f).c_str()), e); }
    void cmd(char c) override
    {
        switch (c)
        {
            case 'n': d->next(); break;
            case 's': d->step_in(); break;
            case 'c': d->continue_debug(); break;
            case 'd': d->disconnect(); break;
        }
    }
    std::vector<Frame> frames() override
    {
        std::vector<Frame> v;
        for (const auto& f : d->stack_frames())
        {
            if (f.source_range.start.line != f.source_range.end.line || f.source_range.start.column || f.source_range.end.column)
                throw Fail("frame range is not one line");
            v.push_back({ std::string(std::string_view(f.name)), std::string(std::string_view(f.source_file.path)), f.source_range.start.line, f.id });
        }
        return v;
    }
    std::string list(var_reference_t ref, bool ord, bool outer)
    {
        struct V
        {
            std::string name, value, type;
            size_t ref;
        };
        std::vector<V> vs;
        for (const auto& v : d->variables(ref))
        {
            std::string t = v.type == set_type::A_TYPE ? "A" : v.type == set_type::B_TYPE ? "B" : v.type == set_type::C_TYPE ? "C" : "";
            vs.push_back({ std::string(std::string_view(v.name)), std::string(std::string_view(v.value)), t, v.variable_reference });
        }
        std::vector<std::string> o;
        for (auto& v : vs)
            o.push_back(v.name + (v.type.empty() ? "" : ":" + v.type) + "=" + clock_free(v.name, v.value) + (v.ref ? "{" + list(v.ref, ord, false) + "}" : ""));
        std::sort(o.begin(), o.end());
        std::string s;
        for (auto& x : o)
            s += ord && !outer ? x.substr(0, 2) == "L=" ? x : "" : x + (outer ? ";" : ",");
        return s;
    }
    std::string vars(size_t frame) override
    {
        std::vector<std::pair<std::string, size_t>> sc;
        for (const auto& s : d->scopes((frame_id_t)frame))
            sc.emplace_back(std::string_view(s.name), s.variable_reference);
        require(sc.size() == 3 && sc[0].first == "Globals" && sc[1].first == "Locals" && sc[2].first == "Ordinary symbols", "scopes of a frame");
        std::string o;
        for (int i = 0; i < 3; ++i)
            o += list(sc[i].second, i == 2, true) + "|";
        return o + "\n";
    }
    void destroy() override { d.reset(); }
};
struct Dap : Drive, language_server::send_message_provider
{
    std::optional<language_server::dap::server> srv;
    int seq = 0, one;
    json last;
    bool uri;
    std::vector<json> replies;
    Dap(int one, bool uri)
        : one(one)
        , uri(uri)
    {
        srv.emplace(*wsm);
        srv->set_send_message_provider(this);
        call("initialize", { { "linesStartAt1", one == 1 }, { "columnsStartAt1", one == 1 }, { "pathFormat", uri ? "uri" : "path" } });
    }
    std::string p(const std::string& f) { return uri ? "file://" + path_of(f) : path_of(f); }
    void reply(const json& m) override
    {
        if (m.at("type") == "event")
        {
            if (m.at("event") == "stopped")
                on_stop();
            else if (m.at("event") == "exited")
                on_exit();
        }
        else
        {
            mc::Off off;
            replies.push_back(m);
        }
    }
    json call(const char* c, json args = json())
    {
        size_t n;
        {
            mc::Off off;
            n = replies.size();
        }
        srv->message_received({ { "type", "request" }, { "seq", ++seq }, { "command", c }, { "arguments", std::move(args) } });
        mc::Off off;
        require(replies.size() == n + 1, std::string("one response to ") + c);
        require(replies.back().at("request_seq") == seq && replies.back().at("command") == c && replies.back().at("success") == true, std::string("response to ") + c);
        return replies.back().at("body");
    }
    void bps(const std::string& f, const std::vector<size_t>& l) override
    {
        json b = json::array();
        for (auto x : l)
            b.push_back({ { "line", x + one } });
        auto r = call("setBreakpoints", { { "source", { { "path", p(f) } } }, { "breakpoints", b } });
        require_eq(r.at("breakpoints").size(), l.size(), "break points verified");
    }
    void launch(const std::string& f, bool e) override { call("launch", { { "program", p(f) }, { "stopOnEntry", e } }); }
    void cmd(char c) override { call(c == 'n' ? "next" : c == 's' ? "stepIn" : c == 'c' ? "continue" : "disconnect", { { "threadId", 1 } }); }
    std::vector<Frame> frames() override
    {
        auto r = call("stackTrace", { { "threadId", 1 } });
        std::vector<Frame> v;
        for (auto& f : r.at("stackFrames"))
        {
            require(f.at("line") == f.at("endLine") && f.at("column") == one && f.at("endColumn") == one, "frame range");
            v.push_back({ f.at("name"), f.at("source").at("path"), f.at("line").get<size_t>() - one, f.at("id") });
        }
        require(r.at("totalFrames") == v.size(), "totalFrames");
        return v;
    }
    std::string list(size_t ref, bool ord, bool outer)
    {
        auto r = call("variables", { { "variablesReference", ref } });
        std::vector<std::string> o;
        for (auto& v : r.at("variables"))
        {
            std::string t = v.contains("type") ? v.at("type").get<std::string>().substr(0, 1) : "";
            size_t vr = v.at("variablesReference");
            o.push_back(v.at("name").get<std::string>() + (t.empty() ? "" : ":" + t) + "=" + clock_free(v.at("name"), v.at("value")) + (vr ? "{" + list(vr, ord, false) + "}" : ""));
        }
        std::sort(o.begin(), o.end());
        std::string s;
        for (auto& x : o)
            s += ord && !outer ? x.substr(0, 2) == "L=" ? x : "" : x + (outer ? ";" : ",");
        return s;
    }
    std::string vars(size_t frame) override
    {
        auto r = call("scopes", { { "frameId", frame } }).at("scopes");
        require(r.size() == 3 && r[0].at("name") == "Globals" && r[1].at("name") == "Locals" && r[2].at("name") == "Ordinary symbols", "scopes of a frame");
        std::string o;
        for (int i = 0; i < 3; ++i)
            o += list(r[i].at("variablesReference"), i == 2, true) + "|";
        return o + "\n";
    }
    void destroy() override { srv.reset(); }
};

struct Scn
{
    std::string prog;
    bool entry;
    std::vector<std::pair<std::string, std::vector<size_t>>> bps;
    std::string word; // one command per stop; D: destroy without disconnecting; after the word: c
    int drive;        // 0 direct, 1 DAP 1-based path, 2 DAP 0-based uri
    bool look;        // query everything at each stop
    std::string str() const
    {
        std::string s = "sync " + prog + " entry=" + std::to_string(entry) + " bp=";
        for (auto& [f, l] : bps)
            for (auto x : l)
                s += base(f) + ":" + std::to_string(x) + ",";
        return s + " word=" + word + " drive=" + std::to_string(drive) + " look=" + std::to_string(look);
    }
};
static std::unique_ptr<Drive> make(int k)
{
    if (k == 0)
        return std::make_unique<Direct>();
    return std::make_unique<Dap>(k == 1 ? 1 : 0, k == 2);
}
// the statements at which the session must stop
static std::vector<size_t> expected(const Scn& s, bool& open_end)
{
    auto& t = trace_of(s.prog);
    std::vector<size_t> r;
    bool next = s.entry, over = false;
    size_t depth = 0, k = 0;
    open_end = false;
    for (size_t i = 0; i < t.size(); ++i)
    {
        bool hit = next || (over && t[i].depth <= depth);
        for (auto& [f, l] : s.bps)
            if (t[i].file == path_of(f))
                for (auto x : l)
                    hit = hit || (t[i].l1 <= x && x <= t[i].l2);
        if (!hit)
            continue;
        r.push_back(i);
        next = over = false;
        char c = k < s.word.size() ? s.word[k] : 'c';
        ++k;
        if (c == 's')
            next = true;
        else if (c == 'n')
        {
            over = true;
            depth = t[i].depth;
        }
        else if (c == 'd' || c == 'D')
        {
            open_end = true;
            return r;
        }
    }
    return r;
}
static void sync_case(Run& r, const Scn& s, int bound)
{
    bool open_end;
    auto exp = expected(s, open_end);
    auto& t = trace_of(s.prog);
    int stops = 0, exits = 0, late = 0;
    explore_case(
        r, bound,
        [&] {
            auto bad = [&](const std::string& m) { mc::Sched::instance()->violate(m); };
            auto d = make(s.drive);
            stops = exits = late = 0;
            try
            {
                for (auto& [f, l] : s.bps)
                    d->bps(f, l);
                d->launch(s.prog, s.entry);
                size_t k = 0;
                bool gone = false;
                while (d->wait((int)k + 1))
                {
                    if (k >= exp.size())
                        bad("the session stops once more than it should, after " + std::to_string(k) + " stops");
                    const Stop& e = t[exp[k]];
                    auto fr = d->frames();
                    std::vector<std::string> got;
                    for (auto& f : fr)
                        got.push_back(std::to_string(f.id) + " " + f.text + " " + base(f.file) + ":" + std::to_string(f.line));
                    if (got != e.frames || fr.at(0).file != e.file)
                        bad("stop " + std::to_string(k) + ": stack is " + (got.empty() ? "empty" : got[0]) + ", expected " + e.frames[0]);
                    if (s.look)
                    {
                        std::string v;
                        for (auto& f : fr)
                            v += d->vars(f.id);
                        if (v != e.vars)
                            bad("stop " + std::to_string(k) + ": variables are " + esc(v) + ", expected " + esc(e.vars));
                    }
                    char c = k < s.word.size() ? s.word[k] : 'c';
                    ++k;
                    if (c == 'D')
                    {
                        gone = true;
                        break;
                    }
                    d->cmd(c);
                    if (c == 'd')
                    {
                        gone = true;
                        break;
                    }
                }
                if (!gone && k != exp.size())
                    bad("the session ended after " + std::to_string(k) + " stops, expected " + std::to_string(exp.size()));
                if (!gone)
                {
                    // the run is over: nothing more to show, and every command is still accepted
                    for (char c : std::string("nsc"))
                        d->cmd(c);
                    if (!d->frames().empty())
                        bad("a stack is shown although the run is over");
                }
            }
            catch (const Fail& f)
            {
                bad(f.m);
            }
            d->end();
            stops = d->stops;
            exits = d->exits;
            late = d->late;
        },
        [&] {
            require(late == 0, "an event is reported after the session was destroyed");
            if (!open_end)
            {
                require_eq(stops, (int)exp.size(), "number of reported stops");
                require_eq(exits, 1, "number of exit events");
            }
            else
                require_eq(stops, (int)exp.size(), "number of reported stops before disconnecting");
        });
    r.state(s.prog + s.word);
    if (!exp.empty())
        r.interesting();
}
// commands at any time: q stack query, v scopes, b set break points, B clear them; then continue to the end (or leave)
static void async_case(Run& r, const std::string& pn, bool entry, const std::string& word, int drive, char ending, int bound)
{
    auto& t = trace_of(pn);
    int stops = 0, exits = 0, late = 0;
    explore_case(
        r, bound,
        [&] {
            auto bad = [&](const std::string& m) { mc::Sched::instance()->violate(m); };
            auto d = make(drive);
            stops = exits = late = 0;
            try
            {
                bool launched = false, left = false;
                for (char c : word)
                {
                    switch (c)
                    {
                        case 'l':
                            d->launch(pn, entry);
                            launched = true;
                            break;
                        case 'b': {
                            std::vector<size_t> l;
                            for (size_t i = 0; i < 4; ++i)
                                l.push_back(i);
                            d->bps(pn, l);
                            break;
                        }
                        case 'B': d->bps(pn, {}); break;
                        case 'q':
                            for (auto& f : d->frames())
                            {
                                bool any = false;
                                for (auto& x : t)
                                    for (auto& y : x.frames)
                                        any = any || y == std::to_string(f.id) + " " + f.text + " " + base(f.file) + ":" + std::to_string(f.line);
                                if (!any)
                                    bad("a stack frame is shown that no statement has");
                            }
                            break;
                        case 'v': d->frames(); break;
                        default: d->cmd(c); left = left || c == 'd';
                    }
                }
                if (ending == 'e' && launched && !left)
                {
                    d->bps(pn, {});
                    int handled = 0;
                    while (d->wait(handled + 1))
                    {
                        handled = d->stops;
                        d->cmd('c');
                    }
                }
                else if (ending == 'd' && !left)
                    d->cmd('d');
            }
            catch (const Fail& f)
            {
                bad(f.m);
            }
            d->end();
            stops = d->stops;
            exits = d->exits;
            late = d->late;
        },
        [&] {
            require(late == 0, "an event is reported after the session was destroyed");
            require(exits <= 1 && stops <= (int)t.size(), "too many events");
            if (ending == 'e' && word.find('d') == std::string::npos)
                require_eq(exits, (int)(word.find('l') != std::string::npos), "exit events");
        });
    r.interesting();
}

int main(int argc, char** argv)
{
    Run r(argc, argv, 2);
    setup();
#ifdef VERIF_RACE
    const bool race = true;
#else
    const bool race = false;
#endif
    bool th = r.thorough();
    if (!race)
        for (auto& p : programs())
            r.check("trace " + p.name, [&] {
                std::string s;
                for (auto& x : trace_of(p.name))
                    s += base(x.file) + ":" + std::to_string(x.l1) + "/" + std::to_string(x.depth) + " ";
                require_eq(s, p.expect, "executed statements");
                for (auto& x : trace_of(p.name))
                    require(x.frames[0].find(base(x.file) + ":" + std::to_string(x.l1)) != std::string::npos, "innermost frame is not at the statement");
            });
    // words
    std::vector<std::string> words = { "" };
    size_t L = race ? 2 : th ? 6 : 4;
    for (size_t i = 0, b = 0; i < L; ++i)
    {
        size_t e = words.size();
        for (size_t k = b; k < e; ++k)
            for (char c : std::string("nsc"))
                words.push_back(words[k] + c);
        b = e;
    }
    auto all_bps = [&](const Prog& p) {
        std::vector<std::vector<std::pair<std::string, std::vector<size_t>>>> sets = { {} };
        for (auto& [f, l] : p.bps)
            for (auto x : l)
                sets.push_back({ { f, { x } } });
        sets.push_back(p.bps);
        return sets;
    };
    auto go = [&](const Scn& s, int bound) {
        r.check([&] { return s.str() + " bound=" + std::to_string(bound); }, [&] { sync_case(r, s, bound); });
    };
    for (auto& p : programs())
        for (bool entry : { true, false })
            for (auto& b : all_bps(p))
            {
                if (!entry && b.empty() && p.name != "one" && p.name != "none")
                    continue;
                for (auto& w : words)
                {
                    bool quick_only = race && (w.size() > 1 || p.name == "mac" || p.name == "loop");
                    if (quick_only)
                        continue;
                    // a word longer than the number of stops repeats a shorter one
                    Scn s { p.name, entry, b, w, 0, true };
                    bool oe;
                    if (expected(s, oe).size() < w.size())
                        continue;
                    if (!race)
                    {
                        go(s, 0);
                        if (w.size() <= 2)
                        {
                            s.drive = 1;
                            go(s, 0);
                            s.drive = 2;
                            go(s, 0);
                            for (const char* t : { "d", "D" })
                            {
                                s.word = w + t;
                                s.drive = (int)(w.size() % 3);
                                if (expected(s, oe).size() == s.word.size())
                                    go(s, 0);
                            }
                        }
                    }
                    // schedules
                    bool small = p.name == "one" || p.name == "two" || p.name == "none";
                    if (w.size() <= (small ? 2u : th ? 2u : 1u))
                    {
                        s.look = false;
                        s.drive = 0;
                        s.word = w;
                        if (p.bps.size() > 1 && !th)
                            continue;
                        go(s, small && !race ? (th ? 3 : 2) : 1);
                        s.word = w + "d";
                        if (expected(s, oe).size() == s.word.size())
                            go(s, small && !race ? 2 : 1);
                        if (small)
                        {
                            s.drive = 1;
                            go(s, 1);
                        }
                    }
                }
            }
    // asynchronous commands
    std::vector<std::string> aw = { "" };
    for (size_t i = 0, b = 0; i < (th && !race ? 4u : 3u); ++i)
    {
        size_t e = aw.size();
        for (size_t k = b; k < e; ++k)
            for (char c : std::string(race ? "nscqd" : "nscqdbB"))
                aw.push_back(aw[k] + c);
        b = e;
    }
    for (const char* p : { "two", "one" })
        for (bool entry : { true, false })
            for (auto& w : aw)
            {
                if (w.find('d') < w.size() - 1 && w.size() > 1 && w.find('d') != std::string::npos && w.find('d') + 2 < w.size())
                    continue;
                if (std::string(p) == "one" && w.size() > 2)
                    continue;
                for (char e : std::string("edD"))
                {
                    int bound = w.size() <= 1 ? (race ? 1 : 2) : w.size() <= 2 ? 1 : (th ? 1 : 0);
                    if (w.size() > 2 && (race || (e != 'e' && !th)))
                        continue;
                    r.check("async " + std::string(p) + " entry=" + std::to_string(entry) + " word=l" + w + " ending=" + e + " bound=" + std::to_string(bound),
                        [&] { async_case(r, p, entry, "l" + w, 0, e, bound); });
                }
            }
    for (std::string w : { "nl", "sl", "cl", "bl", "qldd", "n", "s", "c", "q", "d", "dd", "nld", "blcq", "ll", "lcl", "ldl" })
        for (char e : std::string("edD"))
            r.check("async two entry=1 word=" + w + " ending=" + e, [&] { async_case(r, "two", true, w, 0, e, 1); });
    int rc = r.finish();
    if (!getenv("VERIF_WORK"))
        fs::remove_all(root);
    return rc;
}
