// C02: request manager and dispatcher under every schedule.
#include "mc_util.h"
#include "dispatcher.h"
#include "json_queue_channel.h"
#include "request_manager.h"
#include "scope_exit.h"
using namespace verif;
using namespace hlasm_plugin;
using namespace hlasm_plugin::language_server;
using json = nlohmann::json;

// one letter per message: o/c/h/x = didOpen, didChange, hover, didClose of file 1; O/C/H/X of file 2;
// n = notification without a file, r = a response of the client; upper bit of the server is given separately
static json message(char k, int i)
{
    bool two = isupper(k);
    std::string uri = two ? "file:///b" : "file:///a";
    std::string m;
    switch (tolower(k))
    {
        case 'o': m = "textDocument/didOpen"; break;
        case 'c': m = "textDocument/didChange"; break;
        case 'h': m = "textDocument/hover"; break;
        case 'x': m = "textDocument/didClose"; break;
        case 'n': return { { "jsonrpc", "2.0" }, { "method", "workspace/didChangeWatchedFiles" }, { "params", json::object() }, { "i", i } };
        case 'e': return { { "jsonrpc", "2.0" }, { "method", "exit" }, { "params", json::object() }, { "i", i } };
        case 's': return { { "jsonrpc", "2.0" }, { "method", "shutdown" }, { "id", 5 }, { "i", i } };
        case 'r': return { { "jsonrpc", "2.0" }, { "id", 1 }, { "result", nullptr }, { "i", i } };
    }
    return { { "jsonrpc", "2.0" }, { "method", m }, { "params", { { "textDocument", { { "uri", uri } } } } }, { "i", i } };
}
static std::string file_of(char k)
{
    if (strchr("ochx", tolower(k)))
        return isupper(k) ? "b" : "a";
    return "";
}
static bool parses(char k) { return strchr("oc", tolower(k)) != nullptr; }

struct Ev
{
    enum T { add_begin, add_end, start, end, fin_begin, fin_end, stop_begin, stop_end } t;
    int msg; // or server for fin_*
    int srv;
    bool cancel;
    int thr;
};
// the log is the harness's own: not subject to the race detector
static std::vector<Ev>* evs = new std::vector<Ev>();
static void log_ev(Ev::T t, int msg, int srv, bool cancel = false)
{
    mc::Off off;
    evs->push_back({ t, msg, srv, cancel, mc::Sched::instance()->cur()->id });
}

static parser_library::workspace_manager& ws()
{
    static parser_library::workspace_manager* w = new parser_library::workspace_manager();
    return *w;
}
struct fake_server : server
{
    int id;
    std::atomic<bool>* cancel;
    int polls;
    bool alive = true;
    int data = 0; // touched by every request: requests of one server must not overlap
    fake_server(int id, std::atomic<bool>* c, int polls)
        : server(ws())
        , id(id)
        , cancel(c)
        , polls(polls)
    {}
    ~fake_server() { alive = false; }
    void message_received(const json& m) override
    {
        {
            mc::Off off;
            if (!alive)
                mc::Sched::instance()->violate("a request runs on a server that was already destroyed");
        }
        int i = m.at("i");
        log_ev(Ev::start, i, id, cancel->peek());
        ++data;
        for (int p = 0; p < polls; ++p)
            (void)cancel->load();
        ++data;
        std::string method = m.contains("method") ? m.at("method") : "";
        if (method == "shutdown")
            shutdown_request_received_ = true;
        if (method == "exit")
            log_ev(Ev::fin_begin, 9, 9); // the reader may leave and finish from here on
        if (method == "exit")
            exit_notification_received_ = true;
        if (send_message_)
            send_message_->reply(json { { "reply", i } });
        bool c = cancel->peek();
        if (!alive)
            mc::Sched::instance()->violate("a server is destroyed while a request runs on it");
        log_ev(Ev::end, i, id, c);
    }
    void request(const json&, const std::string&, const json&, method) override {}
    void respond(const json&, const std::string&, const json&) override {}
    void notify(const std::string&, const json&) override {}
    void respond_error(const json&, const std::string&, int, const std::string&, const json&) override {}
};

static std::string show()
{
    std::string s;
    for (auto& e : *evs)
    {
        static const char* n[] = { "add", "/add", "run", "/run", "finish", "/finish", "stop", "/stop" };
        s += std::string(" ") + n[e.t] + std::to_string(e.msg) + (e.cancel ? "!" : "") + "@" + std::to_string(e.thr);
    }
    return s;
}

// msgs: letter + server digit pairs. all: every message must have been handled
static void judge(const std::string& letters, const std::vector<int>& srv, bool all)
{
    int n = (int)letters.size();
    std::vector<int> at_add(n, -1), add_done(n, -1), st(n, -1), en(n, -1), runs(n);
    std::vector<bool> cst(n), cen(n);
    std::map<int, int> fin_b, fin_e;
    int stop_b = -1;
    std::map<int, int> last_started;
    std::map<int, int> open_on; // server -> running message
    for (int k = 0; k < (int)evs->size(); ++k)
    {
        auto& e = (*evs)[k];
        switch (e.t)
        {
            case Ev::add_begin: at_add[e.msg] = k; break;
            case Ev::add_end: add_done[e.msg] = k; break;
            case Ev::start:
                require(e.msg >= 0 && e.msg < n && at_add[e.msg] >= 0, "a message is handled that was not sent:" + show());
                require(++runs[e.msg] == 1, "message " + std::to_string(e.msg) + " is handled twice:" + show());
                require_eq(e.srv, srv[e.msg], "server of message " + std::to_string(e.msg) + show());
                require(!open_on.count(e.srv), "two requests of one server run at the same time:" + show());
                require(!last_started.count(e.srv) || last_started[e.srv] < e.msg, "requests are handled out of order:" + show());
                require(!fin_e.count(e.srv), "a request runs after its server was finished:" + show());
                last_started[e.srv] = e.msg;
                open_on[e.srv] = e.msg;
                st[e.msg] = k;
                cst[e.msg] = e.cancel;
                break;
            case Ev::end:
                open_on.erase(e.srv);
                en[e.msg] = k;
                cen[e.msg] = e.cancel;
                break;
            case Ev::fin_begin: if (!fin_b.count(e.srv)) fin_b[e.srv] = k; break;
            case Ev::fin_end:
                fin_e[e.srv] = k;
                require(!open_on.count(e.srv), "the server is finished while its request runs:" + show());
                for (int i = 0; i < n; ++i)
                    if (srv[i] == e.srv && add_done[i] >= 0 && add_done[i] < fin_b[e.srv])
                        require(runs[i] == 1, "a queued request was dropped when its server was finished:" + show());
                break;
            case Ev::stop_begin: stop_b = k; break;
            default: break;
        }
    }
    require(open_on.empty(), "a request never ended:" + show());
    int first_fin = INT_MAX;
    for (auto& [s, k] : fin_b)
        first_fin = std::min(first_fin, k);
    for (int i = 0; i < n; ++i)
    {
        if (all)
            require(runs[i] == 1, "message " + std::to_string(i) + " was never handled:" + show());
        if (st[i] < 0)
            continue;
        // cancelled only for a reason
        auto newer = [&](int until) {
            for (int j = i + 1; j < n; ++j)
                if (parses(letters[j]) && file_of(letters[j]) == file_of(letters[i]) && !file_of(letters[i]).empty() && at_add[j] >= 0 && at_add[j] < until)
                    return true;
            return false;
        };
        if (cst[i])
            require(newer(st[i]) || first_fin < st[i], "message " + std::to_string(i) + " starts cancelled although nothing supersedes it:" + show());
        if (cen[i])
            require(newer(en[i]) || first_fin < en[i], "message " + std::to_string(i) + " was cancelled although nothing supersedes it:" + show());
        // and always cancelled when there is one
        for (int j = i + 1; j < n; ++j)
            if (parses(letters[j]) && file_of(letters[j]) == file_of(letters[i]) && !file_of(letters[i]).empty() && at_add[j] > st[i] && add_done[j] >= 0 && add_done[j] < en[i])
            {
                require(cen[i], "message " + std::to_string(i) + " is not cancelled by the newer " + std::to_string(j) + ":" + show());
                for (int q = i + 1; q < j; ++q)
                    if (file_of(letters[q]) == file_of(letters[i]) && at_add[q] >= 0 && st[q] >= 0)
                        require(cst[q], "the queued message " + std::to_string(q) + " is not superseded by " + std::to_string(j) + ":" + show());
            }
    }
}

struct Scn
{
    std::string letters;
    std::vector<int> srv;
    int mode; // 0 add all, wait for all, finish, stop; 1 add, finish at once, destroy, stop; 2 add, stop; 3 finish server 1 then 0; 4 second thread finishes 1
    int polls;
};

static void manager(Run& r, const Scn& s, int bound)
{
    int nsrv = 1;
    for (int x : s.srv)
        nsrv = std::max(nsrv, x + 1);
    explore_case(
        r, bound,
        [&] {
            evs->clear();
            std::atomic<bool> cancel = false;
            request_manager rm(&cancel);
            bool stopped = false;
            scope_exit stop([&rm, &stopped]() {
                if (stopped)
                    return;
                log_ev(Ev::stop_begin, 0, 0);
                rm.end_worker();
                log_ev(Ev::stop_end, 0, 0);
            });
            std::vector<std::unique_ptr<fake_server>> sv;
            for (int i = 0; i < nsrv; ++i)
                sv.push_back(std::make_unique<fake_server>(i, &cancel, s.polls));
            auto add = [&](int i) {
                log_ev(Ev::add_begin, i, s.srv[i]);
                rm.add_request(sv[s.srv[i]].get(), message(s.letters[i], i));
                log_ev(Ev::add_end, i, s.srv[i]);
            };
            auto finish = [&](int k) {
                log_ev(Ev::fin_begin, k, k);
                rm.finish_server_requests(sv[k].get());
                log_ev(Ev::fin_end, k, k);
            };
            for (int i = 0; i < (int)s.letters.size(); ++i)
                add(i);
            switch (s.mode)
            {
                case 0:
                    while (rm.is_running())
                        std::this_thread::sleep_for(std::chrono::milliseconds(1));
                    for (int k = 0; k < nsrv; ++k)
                        finish(k);
                    break;
                case 1:
                    for (int k = 0; k < nsrv; ++k)
                        finish(k);
                    break;
                case 2: // the servers outlive the worker
                    log_ev(Ev::stop_begin, 0, 0);
                    stopped = true;
                    rm.end_worker();
                    log_ev(Ev::stop_end, 0, 0);
                    break;
                case 3:
                    for (int k = nsrv - 1; k >= 0; --k)
                    {
                        finish(k);
                        finish(k);
                        sv[k].reset();
                    }
                    break;
                case 4: {
                    std::thread other([&] { finish(nsrv - 1); });
                    for (int k = 0; k < nsrv - 1; ++k)
                        finish(k);
                    other.join();
                    break;
                }
            }
        },
        [&] {
            judge(s.letters, s.srv, s.mode != 2);
            std::string st;
            for (auto& e : *evs)
                st += char('a' + e.t), st += char('0' + e.msg), st += char('0' + e.cancel);
            r.state(st);
        });
}

// the whole reading side: channel -> dispatcher -> request manager -> server, as the main program and a debug session do
static void dispatch(Run& r, const std::string& letters, bool terminate, int polls, int bound)
{
    std::vector<json> replies;
    int ret = -1;
    explore_case(
        r, bound,
        [&] {
            evs->clear();
            replies.clear();
            ret = -1;
            json_queue_channel in, out;
            std::atomic<bool> cancel = false;
            std::thread lsp([&] {
                request_manager rm(&cancel);
                scope_exit stop([&rm]() { rm.end_worker(); });
                fake_server server(0, &cancel, polls);
                dispatcher d(json_channel_adapter(in, out), server, rm);
                ret = d.run_server_loop();
            });
            for (int i = 0; i < (int)letters.size(); ++i)
            {
                log_ev(Ev::add_begin, i, 0);
                in.write(message(letters[i], i));
            }
            if (terminate)
            {
                // the channel drops what was not read: wait until everything is handled, as far as the server goes on
                auto done = [&] {
                    mc::Off off;
                    int ends = 0;
                    for (auto& e : *evs)
                        ends += e.t == Ev::end;
                    return ends == (int)letters.size() || letters.find('e') != std::string::npos;
                };
                while (!done())
                    std::this_thread::sleep_for(std::chrono::milliseconds(1));
            }
            log_ev(Ev::fin_begin, 9, 9);
            in.terminate();
            lsp.join();
            out.terminate();
        },
        [&] {
            judge(letters, std::vector<int>(letters.size(), 0), terminate && letters.find('e') == std::string::npos);
            // messages that were read are handled, in order, without gaps
            int n = 0;
            for (auto& e : *evs)
                if (e.t == Ev::start)
                {
                    require_eq(e.msg, n, "order of handling:" + show());
                    ++n;
                }
            bool exited = false, shut = false;
            for (int i = 0; i < n; ++i)
            {
                shut |= letters[i] == 's' && !exited;
                exited |= letters[i] == 'e';
            }
            require(ret == 1 || (ret == 0 && exited && letters.find('s') < (size_t)n), "return value " + std::to_string(ret) + show());
            std::string st = letters + std::to_string(ret);
            for (auto& e : *evs)
                st += char('a' + e.t), st += char('0' + e.msg), st += char('0' + e.cancel);
            r.state(st);
        });
}

static void seqs(const std::string& al, size_t n, const std::function<void(const std::string&)>& f)
{
    std::string s(n, al[0]);
    std::function<void(size_t)> rec = [&](size_t i) {
        if (i == n)
            return f(s);
        for (char c : al)
        {
            s[i] = c;
            rec(i + 1);
        }
    };
    rec(0);
}

int main(int argc, char** argv)
{
    Run r(argc, argv, 1);
#ifdef VERIF_RACE
    int deep = 0;
#else
    int deep = 1 + r.thorough();
#endif
    ws();
    for (size_t n = 1; n <= (deep ? 3 : 2); ++n)
        seqs(n == 3 && deep < 2 ? "chC" : "ochCnr", n, [&](const std::string& l) {
            for (int mode = 0; mode < 4; ++mode)
                r.check("manager " + l + " mode" + std::to_string(mode), [&] {
                    r.interesting();
                    manager(r, { l, std::vector<int>(n, 0), mode, n == 3 ? 1 : 2 }, n == 3 && deep < 2 ? 1 : std::max(1, deep));
                });
        });
    // two servers on one manager
    for (size_t n = 2; n <= (deep > 1 ? 3 : 2); ++n)
        seqs("cCn", n, [&](const std::string& l) {
            for (int bits = 1; bits < 1 << n; ++bits)
                for (int mode : { 0, 1, 3, 4 })
                    r.check("servers " + l + " " + std::to_string(bits) + " mode" + std::to_string(mode), [&] {
                        r.interesting();
                        std::vector<int> sv;
                        for (size_t i = 0; i < n; ++i)
                            sv.push_back(bits >> i & 1);
                        manager(r, { l, sv, mode, 1 }, 1);
                    });
        });
    if (deep)
        for (std::string l : { "cccc", "chch", "cCcC", "occh", "chnc", "ccCc", "cchhc" , "oxoc", "xoxc" })
            for (int mode : { 0, 1 })
                r.check("long " + l + " mode" + std::to_string(mode), [&] {
                    r.interesting();
                    manager(r, { l, std::vector<int>(l.size(), 0), mode, 1 }, 1);
                });
    // many requests for one file while it runs: no schedule but the default one and one deviation at the first points
    for (int n : { 20, 70 })
        for (int mode : { 0, 1 })
            r.check("many " + std::to_string(n) + " mode" + std::to_string(mode), [&] {
                std::string l;
                for (int i = 0; i < n; ++i)
                    l += "cCch"[i % 4];
                manager(r, { l, std::vector<int>(n, 0), mode, 1 }, 0);
            });
    for (size_t n = 0; n <= (deep > 1 ? 3 : 2); ++n)
        seqs("cnse", n, [&](const std::string& l) {
            for (bool t : { false, true })
                r.check("dispatch " + l + (t ? " wait" : " cut"), [&] {
                    r.interesting();
                    dispatch(r, l, t, 1, 1);
                });
        });
    return r.finish();
}
