// C04: base protocol framing, byte level and concurrent writers.
#include "mc_util.h"

#include <istream>
#include <ostream>
#include <streambuf>
#include <sstream>

#include "base_protocol_channel.h"
#include "stream_helper.h"
using namespace verif;
using namespace hlasm_plugin::language_server;
using json = nlohmann::json;

// delivers its text in the given chunks, one per underflow
struct chunked : std::streambuf
{
    std::string text;
    std::vector<size_t> ends;
    size_t k = 0, pos = 0;
    chunked(std::string t, std::vector<size_t> cuts)
        : text(std::move(t))
        , ends(std::move(cuts))
    {
        ends.push_back(text.size());
    }
    int_type underflow() override
    {
        while (k < ends.size())
        {
            size_t b = pos, e = ends[k++];
            pos = e;
            if (e > b)
            {
                setg(text.data() + b, text.data() + b, text.data() + e);
                return traits_type::to_int_type(text[b]);
            }
        }
        return traits_type::eof();
    }
};
static std::string utf8(uint32_t c)
{
    std::string s;
    if (c < 0x80)
        s += (char)c;
    else if (c < 0x800)
        s += (char)(0xc0 | c >> 6), s += (char)(0x80 | (c & 63));
    else if (c < 0x10000)
        s += (char)(0xe0 | c >> 12), s += (char)(0x80 | (c >> 6 & 63)), s += (char)(0x80 | (c & 63));
    else
        s += (char)(0xf0 | c >> 18), s += (char)(0x80 | (c >> 12 & 63)), s += (char)(0x80 | (c >> 6 & 63)), s += (char)(0x80 | (c & 63));
    return s;
}
static const std::vector<json>& pool()
{
    static const std::vector<json> p = {
        json::object(),
        json("a"),
        json { { "jsonrpc", "2.0" }, { "id", 1 }, { "method", "x" } },
        json { { "text", "line\r\nContent-Length: 3\r\n\r\n{}\n\n\r\n" } },
        json { { "t", utf8(0xe9) + utf8(0x4e2d) + utf8(0x1f600) + std::string(1, '\0') + "\x7f" } },
        json::array({ 1, -2, 3.5, nullptr, true, "", json::object() }),
        json(0),
    };
    return p;
}
// independent writer: JSON text of the harness' own serialisation is the library's, the frame is written here
static std::string frame(const std::string& body) { return "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body; }
// independent reader of a well formed wire
static std::vector<std::string> unframe(const std::string& w)
{
    std::vector<std::string> v;
    size_t p = 0;
    while (p < w.size())
    {
        static const std::string h = "Content-Length: ";
        require(w.compare(p, h.size(), h) == 0, "no frame header at byte " + std::to_string(p));
        p += h.size();
        size_t n = 0, d = 0;
        while (p < w.size() && isdigit((unsigned char)w[p]))
            n = n * 10 + (w[p++] - '0'), ++d;
        require(d > 0 && w.compare(p, 4, "\r\n\r\n") == 0, "bad frame header");
        p += 4;
        require(p + n <= w.size(), "announced length exceeds the data");
        v.push_back(w.substr(p, n));
        p += n;
    }
    return v;
}
static std::vector<json> read_all(const std::string& wire, std::vector<size_t> cuts, size_t limit)
{
    chunked b(wire, std::move(cuts));
    std::istream in(&b);
    newline_is_space::imbue_stream(in);
    std::ostringstream o;
    base_protocol_channel ch(in, o);
    std::vector<json> v;
    for (;;)
    {
        auto m = ch.read();
        if (!m)
            break;
        v.push_back(*m);
        require(v.size() <= limit, "the reader delivers more messages than can have been sent");
    }
    require(!ch.read().has_value(), "a message is delivered after the end");
    return v;
}
static std::string write_all(const std::vector<json>& ms)
{
    std::istringstream in;
    std::ostringstream o;
    base_protocol_channel ch(in, o);
    for (size_t i = 0; i < ms.size(); ++i)
        if (i % 2)
            ch.write(json(ms[i]));
        else
            ch.write((const json&)ms[i]);
    return o.str();
}
static void roundtrip(const std::vector<json>& ms, bool cuts2)
{
    std::string w = write_all(ms);
    auto bodies = unframe(w);
    require_eq(bodies.size(), ms.size(), "messages on the wire");
    for (size_t i = 0; i < ms.size(); ++i)
        require(json::parse(bodies[i]) == ms[i], "message " + std::to_string(i) + " on the wire differs");
    auto same = [&](const std::vector<json>& v, size_t n, const char* what) {
        require_eq(v.size(), n, std::string("messages read ") + what);
        for (size_t i = 0; i < n; ++i)
            require(v[i] == ms[i], std::string("message read ") + what + " differs");
    };
    same(read_all(w, {}, ms.size()), ms.size(), "at once");
    std::vector<size_t> every;
    for (size_t i = 1; i < w.size(); ++i)
        every.push_back(i);
    same(read_all(w, every, ms.size()), ms.size(), "byte by byte");
    for (size_t i = 1; i < w.size(); ++i)
    {
        same(read_all(w, { i }, ms.size()), ms.size(), "in two parts");
        if (cuts2)
            for (size_t j = i + 1; j < w.size(); ++j)
                same(read_all(w, { i, j }, ms.size()), ms.size(), "in three parts");
        // end of the stream at any byte
        size_t n = 0, p = 0;
        for (auto& b : bodies)
        {
            p += frame(b).size();
            n += p <= i;
        }
        same(read_all(w.substr(0, i), {}, ms.size()), n, "before the end of the stream");
    }
}

// concurrent writers: every write of the channel into the stream is a scheduling point
struct yielding : std::streambuf
{
    std::string text;
    std::atomic<int> gate { 0 };
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        for (std::streamsize i = 0; i < n; ++i)
        {
            if (i == n / 2)
                (void)gate.load();
            text += s[i];
        }
        return n;
    }
    int_type overflow(int_type c) override
    {
        (void)gate.load();
        text += (char)c;
        return c;
    }
    int sync() override
    {
        (void)gate.load();
        return 0;
    }
};
static void writers(Run& r, const std::vector<int>& counts, int bound)
{
    std::string text;
    explore_case(
        r, bound,
        [&] {
            std::istringstream in;
            yielding y;
            std::ostream o(&y);
            base_protocol_channel ch(in, o);
            std::vector<std::thread> t;
            for (size_t w = 0; w < counts.size(); ++w)
                t.emplace_back([&, w] {
                    for (int i = 0; i < counts[w]; ++i)
                    {
                        json m { { "w", w }, { "i", i }, { "p", std::string(w * 7 + i, 'x') } };
                        if (i % 2)
                            ch.write(m);
                        else
                            ch.write(std::move(m));
                    }
                });
            for (auto& x : t)
                x.join();
            mc::Off off;
            text = y.text;
        },
        [&] {
            std::vector<int> next(counts.size());
            size_t total = 0;
            for (auto& b : unframe(text))
            {
                json m;
                try
                {
                    m = json::parse(b);
                }
                catch (const json::exception&)
                {
                    throw Fail("messages of two writers are mixed");
                }
                size_t w = m.at("w");
                require(w < counts.size() && m.at("i") == next[w] && m.at("p") == std::string(w * 7 + next[w], 'x'), "a message is changed or out of order");
                ++next[w];
                ++total;
            }
            size_t n = 0;
            for (int c : counts)
                n += c;
            require_eq(total, n, "messages on the wire");
        });
    r.interesting();
}
// a stream fed by another thread
struct fed : std::streambuf
{
    std::mutex m;
    std::condition_variable cv;
    std::string text, taken;
    bool closed = false;
    int_type underflow() override
    {
        std::unique_lock l(m);
        cv.wait(l, [&] { return !text.empty() || closed; });
        if (text.empty())
            return traits_type::eof();
        taken = std::move(text);
        text.clear();
        setg(taken.data(), taken.data(), taken.data() + taken.size());
        return traits_type::to_int_type(taken[0]);
    }
};
static void feeder(Run& r, size_t part, int bound)
{
    std::vector<json> ms = { pool()[2], pool()[3] };
    std::string w;
    for (auto& m : ms)
        w += frame(m.dump());
    explore_case(
        r, bound,
        [&] {
            fed f;
            std::istream in(&f);
            {
                mc::Off off;
                newline_is_space::imbue_stream(in);
            }
            std::ostringstream o;
            base_protocol_channel ch(in, o);
            std::thread t([&] {
                for (size_t p = 0; p < w.size(); p += part)
                {
                    {
                        std::lock_guard g(f.m);
                        f.text += w.substr(p, part);
                    }
                    f.cv.notify_one();
                }
                {
                    std::lock_guard g(f.m);
                    f.closed = true;
                }
                f.cv.notify_one();
            });
            size_t n = 0;
            while (auto m = ch.read())
            {
                if (n >= ms.size() || *m != ms[n])
                    mc::Sched::instance()->violate("a wrong message is delivered");
                ++n;
            }
            t.join();
            if (n != ms.size())
                mc::Sched::instance()->violate("messages are missing");
        },
        [] {});
    r.interesting();
}

int main(int argc, char** argv)
{
    Run r(argc, argv, 4);
    bool th = r.thorough();
#ifndef VERIF_RACE
    auto& P = pool();
    for (size_t a = 0; a < P.size(); ++a)
    {
        r.check("messages " + std::to_string(a), [&] { roundtrip({ P[a] }, true); r.interesting(); });
        for (size_t b = 0; b < P.size(); ++b)
        {
            r.check("messages " + std::to_string(a) + " " + std::to_string(b), [&] { roundtrip({ P[a], P[b] }, th); r.interesting(); });
            for (size_t c = 0; c < P.size(); ++c)
                r.check("messages " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c), [&] { roundtrip({ P[a], P[b], P[c] }, false); r.interesting(); });
        }
    }
    // every Unicode scalar value
    for (uint32_t base = 0; base < 0x110000; base += 256)
    {
        if (base >= 0xd800 && base < 0xe000)
            continue;
        r.check([&] { return "unicode " + std::to_string(base); }, [&] {
            std::string s;
            for (uint32_t c = base; c < base + 256; ++c)
                s += utf8(c);
            std::vector<json> ms = { json { { s, s } }, json("end") };
            std::string w = write_all(ms);
            auto b = unframe(w);
            require(b.size() == 2 && json::parse(b[0]) == ms[0] && json::parse(b[1]) == ms[1], "wire");
            auto v = read_all(w, { w.size() / 3, w.size() / 2 + 1 }, 2);
            require(v == ms, "messages read");
            r.interesting();
        });
    }
    // sizes around the number of digits and buffer sizes
    std::vector<size_t> sizes;
    for (size_t d = 10; d <= (th ? 100000000u : 10000000u); d *= 10)
        for (int k = -4; k <= 1; ++k)
            sizes.push_back(d + k);
    for (size_t d = 256; d <= (1u << 20); d *= 2)
        for (int k = -3; k <= 1; ++k)
            sizes.push_back(d + k);
    for (size_t n : sizes)
        r.check("size " + std::to_string(n), [&] {
            std::vector<json> ms = { json(std::string(n, 'y')), json("end") };
            std::string w = write_all(ms);
            auto b = unframe(w);
            require(b.size() == 2 && b[0].size() == n + 2, "wire");
            require(read_all(w, { 7, w.size() / 2, w.size() - 3 }, 2) == ms, "messages read");
            r.interesting();
        });
    // other headers around the mandatory one are allowed
    {
        std::vector<std::string> hs = { "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n", "X: Content-Length: 3\r\n", "content-length 7\r\n", ":\r\n", "Content-Length-X: 2\r\n" };
        std::string body = "{\"a\":[1,2]}";
        for (size_t m = 0; m < 3 * 25; ++m)
            r.check("headers " + std::to_string(m), [&] {
                std::string h1 = hs[m % 5], h2 = hs[m / 5 % 5], cl = "Content-Length: " + std::to_string(body.size()) + "\r\n";
                std::string w = m / 25 == 0 ? cl + h1 + h2 : m / 25 == 1 ? h1 + cl + h2 : h1 + h2 + cl;
                w += "\r\n" + body;
                w += frame("\"end\"");
                auto v = read_all(w, { w.size() / 2 }, 2);
                require(v.size() == 2 && v[0] == json::parse(body) && v[1] == "end", "messages read");
                r.interesting();
            });
    }
    // a payload that is no JSON, of every kind, does not lose the messages around it
    for (std::string bad : { "x", "{", "}", "[1,", "\"", "\xff\xfe", "{\"a\":}", "nul", "\n\n", "\r\n\r\n", "Content-Length: 2\r\n\r\n{}", "   ", "{}{}", "\"\xc3\"", std::string(1, '\0').c_str() })
        for (size_t at = 0; at < 3; ++at)
        {
            if (bad.empty())
                continue;
            r.check("payload " + esc(bad) + " at " + std::to_string(at), [&] {
                std::string w;
                std::vector<json> ms;
                for (size_t i = 0; i < 3; ++i)
                {
                    if (i == at)
                        w += frame(bad);
                    w += frame(json(i).dump());
                    ms.push_back(json(i));
                }
                for (size_t c = 1; c < w.size(); ++c)
                    require(read_all(w, { c }, 3) == ms, "messages around the malformed one");
                r.interesting();
            });
        }
    // token sequences as header section
    static const std::vector<std::string> T = { "Content-Length: ", "Content-Length:", "7", "0", "99999999999999999999", "-1", "2000000000", "7x", "\r\n", "\n", "\r", " ", "[1,2,3]", "\"q\"" };
    size_t L = th ? 5 : 4;
    std::vector<size_t> w;
    std::function<void()> rec = [&] {
        if (!w.empty())
            r.check(
                [&] {
                    std::string d = "tokens";
                    for (auto x : w)
                        d += " " + std::to_string(x);
                    return d;
                },
                [&] {
                    std::string s;
                    for (auto x : w)
                        s += T[x];
                    // what may be delivered: JSON at a place after an empty line with an announced length
                    std::vector<json> can;
                    std::vector<size_t> lens = { 7, 3 };
                    for (size_t p = 0; p <= s.size(); ++p)
                        for (size_t n : lens)
                            if (p >= 2 && s.compare(p - 2, 2, "\r\n") == 0 && p + n <= s.size())
                            {
                                auto j = json::parse(s.substr(p, n), nullptr, false);
                                if (!j.is_discarded())
                                    can.push_back(j);
                            }
                    for (auto& m : read_all(s, {}, 8))
                        require(std::find(can.begin(), can.end(), m) != can.end(), "delivers " + m.dump() + " which was not sent");
                    r.state(s);
                    r.interesting();
                });
        if (w.size() < L)
            for (size_t i = 0; i < T.size(); ++i)
            {
                w.push_back(i);
                rec();
                w.pop_back();
            }
    };
    rec();
#endif
    std::vector<std::vector<int>> cs = { { 1, 1 }, { 2, 1 }, { 2, 2 }, { 1, 1, 1 }, { 3, 1 } };
    for (auto& c : cs)
    {
        std::string d = "writers";
        for (int x : c)
            d += " " + std::to_string(x);
#ifdef VERIF_RACE
        r.check(d, [&] { writers(r, c, th ? 3 : c.size() > 2 ? 1 : 2); });
#else
        r.check(d, [&] { writers(r, c, th ? 4 : 3); });
#endif
    }
    for (size_t part : { 1, 5, 16, 21, 22, 40, 1000 })
        r.check("feeder " + std::to_string(part), [&] { feeder(r, part, part < 16 ? 1 : th ? 4 : 2); });
    return r.finish();
}
