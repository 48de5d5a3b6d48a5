// C01: channels between threads, under every schedule.
#include "mc_util.h"
#include "json_queue_channel.h"
using namespace verif;
using namespace hlasm_plugin::language_server;
using json = nlohmann::json;

struct Scn
{
    std::vector<int> writes; // messages per writer
    int term; // 0 none, 1 a third thread terminates at any time, 2 after the writers have finished, 3 before anything
    bool move; // which overload is used
    int kind; // 0 json channel, 1 queue that drops, 2 queue that drains
};
static std::string name(const Scn& s)
{
    std::string d = "kind" + std::to_string(s.kind) + " term" + std::to_string(s.term) + (s.move ? " move" : " copy") + " writers";
    for (int w : s.writes)
        d += " " + std::to_string(w);
    return d;
}
// payloads that a careless implementation could mistake for "nothing"
static json payload(int w, int i)
{
    switch ((w * 3 + i) % 5)
    {
        case 0: return json { { "w", w }, { "i", i } };
        case 1: return json { { "w", w }, { "i", i }, { "x", nullptr } };
        case 2: return json { { "w", w }, { "i", i }, { "text", std::string(2000, 'x') } };
        case 3: return json { { "w", w }, { "i", i }, { "e", json::array() } };
        default: return json { { "i", i }, { "w", w }, { "t", "" } };
    }
}

template<typename Q, typename Write, typename Read, typename Term>
static void run(Run& r, const Scn& sc, int bound, Write wr, Read rd, Term tm)
{
    int total = 0;
    for (int w : sc.writes)
        total += w;
    std::vector<json> got;
    bool ended = false, ended_again = false, term_done_before_read = false, writers_done_before_term = false;
    bool dropped = false;
    explore_case(
        r, bound,
        [&] {
            got.clear();
            ended = ended_again = term_done_before_read = writers_done_before_term = false;
            Q q;
            std::atomic<bool> term_done = false;
            if (sc.term == 3)
            {
                tm(q);
                term_done.poke(true);
            }
            std::vector<std::thread> ts;
            for (int w = 0; w < (int)sc.writes.size(); ++w)
                ts.emplace_back([&, w] {
                    for (int i = 0; i < sc.writes[w]; ++i)
                        wr(q, payload(w, i), sc.move);
                });
            std::thread reader([&] {
                for (int i = 0; sc.term ? true : i < total; ++i)
                {
                    bool t = term_done.peek();
                    std::optional<json> m = rd(q);
                    if (!m)
                    {
                        ended = true;
                        // and it stays ended
                        ended_again = !rd(q);
                        break;
                    }
                    if (t && sc.kind < 2)
                        dropped = true; // delivered after termination was complete
                    got.push_back(*m);
                }
            });
            std::thread term;
            if (sc.term == 1)
                term = std::thread([&] {
                    tm(q);
                    term_done.poke(true);
                });
            for (auto& t : ts)
                t.join();
            if (sc.term == 2)
            {
                tm(q);
                term_done.poke(true);
            }
            reader.join();
            if (term.joinable())
                term.join();
            if (sc.term)
            {
                // a message written after the end goes nowhere
                wr(q, payload(0, 77), sc.move);
                if (rd(q))
                    mc::Sched::instance()->violate("a message is delivered after the channel ended");
            }
        },
        [&] {
            std::vector<int> next(sc.writes.size());
            std::string st;
            for (auto& m : got)
            {
                int w = m.at("w"), i = m.at("i");
                require(m == payload(w, i), "a message was changed: " + m.dump());
                require_eq(i, next[w], "order of the messages of writer " + std::to_string(w));
                ++next[w];
                st += std::to_string(w);
            }
            r.state(name(sc) + st);
            if (sc.term == 0)
                require_eq((int)got.size(), total, "messages delivered");
            else
            {
                require(ended && ended_again, "the reader was not told that the channel ended");
                if (sc.term == 2 && sc.kind == 2)
                    require_eq((int)got.size(), total, "messages delivered before the end");
            }
            require((int)got.size() <= total, "more messages delivered than written");
        });
}

// every sequence of writes and reads by one thread: a queue is a queue
template<typename Q, typename Write, typename Read>
static void words(Run& r, uint32_t bits, int n, Write wr, Read rd)
{
    explore_case(
        r, 0,
        [&] {
            Q q;
            int in = 0, out = 0;
            for (int i = 0; i < n; ++i)
                if (bits >> i & 1)
                    wr(q, payload(in, in), in & 1), ++in;
                else if (out < in)
                {
                    auto m = rd(q);
                    if (!m || *m != payload(out, out))
                        mc::Sched::instance()->violate("read " + std::to_string(out) + " returns the wrong message");
                    ++out;
                }
            while (out < in)
            {
                auto m = rd(q);
                if (!m || *m != payload(out, out))
                    mc::Sched::instance()->violate("read " + std::to_string(out) + " returns the wrong message");
                ++out;
            }
        },
        [] {});
}

int main(int argc, char** argv)
{
    Run r(argc, argv, 1);
    using Drop = blocking_queue<json>;
    using Drain = blocking_queue<json, blocking_queue_termination_policy::process_elements>;
    auto jw = [](json_queue_channel& q, json m, bool mv) { mv ? q.write(std::move(m)) : q.write(std::as_const(m)); };
    auto jr = [](json_queue_channel& q) { return q.read(); };
    auto jt = [](json_queue_channel& q) { q.terminate(); };
    auto bw = [](auto& q, json m, bool mv) { mv ? q.push(std::move(m)) : q.push(std::as_const(m)); };
    auto br = [](auto& q) { return q.pop(); };
    auto bt = [](auto& q) { q.terminate(); };
    std::vector<std::vector<int>> ws = { { 1 }, { 2 }, { 3 }, { 1, 1 }, { 2, 1 }, { 2, 2 }, { 1, 1, 1 }, { 4 } };
    if (r.thorough())
        ws.insert(ws.end(), { { 3, 2 }, { 2, 1, 1 }, { 6 }, { 3, 3 } });
#ifdef VERIF_RACE
    if (!r.thorough())
        ws = { { 1 }, { 2 }, { 1, 1 } };
#endif
    for (int kind = 0; kind < 3; ++kind)
        for (auto& w : ws)
            for (int term = 0; term < 4; ++term)
                for (bool mv : { false, true })
                {
                    Scn s { w, term, mv, kind };
                    int bound = (w.size() > 2 ? 1 : 2) + (r.thorough() ? 1 : 0);
#ifdef VERIF_RACE
                    bound = 1;
#endif
                    r.check(name(s), [&] {
                        r.interesting();
                        if (kind == 0)
                            run<json_queue_channel>(r, s, bound, jw, jr, jt);
                        else if (kind == 1)
                            run<Drop>(r, s, bound, bw, br, bt);
                        else
                            run<Drain>(r, s, bound, bw, br, bt);
                    });
                }
#ifdef VERIF_RACE
    return r.finish();
#endif
    int n = r.thorough() ? 14 : 11;
    for (uint32_t b = 0; b < 1u << n; b += 64)
        r.check("words " + std::to_string(b), [&] {
            for (uint32_t k = 0; k < 64; ++k)
            {
                words<json_queue_channel>(r, b + k, n, jw, jr);
                words<Drop>(r, b + k, n, bw, br);
                words<Drain>(r, b + k, n, bw, br);
            }
        });
    // fill levels
    for (int n : { 50, 500, 1025, 5000 })
        r.check("fill " + std::to_string(n), [&] {
            explore_case(
                r, 0,
                [&] {
                    json_queue_channel q;
                    for (int k = 0; k < 2; ++k)
                    {
                        for (int i = 0; i < n; ++i)
                            jw(q, payload(i, k), i & 1);
                        for (int i = 0; i < n; ++i)
                            if (q.read() != payload(i, k))
                                mc::Sched::instance()->violate("wrong message " + std::to_string(i));
                    }
                },
                [] {});
        });
    return r.finish();
}
