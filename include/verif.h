// Exhaustive enumeration runner. A harness enumerates its whole space deterministically; the processes of one run
// (shards) claim blocks of case indices from a shared counter, so that together they execute every case exactly once.
// Every case has a textual description from which it alone can be replayed (--only).
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <string>
#include <string_view>
#include <unordered_set>
#include <utility>
#include <vector>

namespace verif {

inline uint64_t fnv(std::string_view s, uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : s)
    {
        h ^= c;
        h *= 1099511628211ull;
    }
    // finaliser, fnv alone is weak in the high bits
    h ^= h >> 33;
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}

inline std::string jstr(std::string_view s)
{
    std::string o = "\"";
    for (size_t i = 0; i < s.size(); ++i)
    {
        unsigned char c = s[i];
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += c;
        }
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += c;
    }
    return o + "\"";
}

// printable, injective form of a byte string (no blanks or control characters)
inline std::string esc(std::string_view s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '\n')
            o += "\\n";
        else if (c == '\r')
            o += "\\r";
        else if (c == '\t')
            o += "\\t";
        else if (c == '\\')
            o += "\\\\";
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        }
        else
            o += c;
    }
    return o;
}

struct Fail : std::exception
{
    std::string m;
    explicit Fail(std::string m)
        : m(std::move(m))
    {}
    const char* what() const noexcept override { return m.c_str(); }
};

class Run
{
    struct Cur
    {
        uint64_t seq;
        uint32_t len;
        char text[1 << 16];
    };
    struct Shared
    {
        uint64_t next;
    };
    std::string out_, only_;
    bool has_only_ = false, thorough_ = false, list_ = false;
    Cur* cur_ = nullptr;
    Shared* shared_ = nullptr;
    uint64_t idx_ = 0, lo_ = 0, hi_ = 0, block_ = 16;
    std::unordered_set<uint64_t> states_;
    std::map<std::string, uint64_t> counters_;
    std::vector<std::string> samples_;
    std::vector<std::pair<std::string, std::string>> fails_;
    uint64_t nfails_ = 0;
    std::string desc_;

public:
    uint64_t cases = 0, transitions = 0, validated = 0, nontrivial = 0;
    std::unordered_set<uint64_t> nontrivial_set;

    Run(int argc, char** argv, uint64_t block = 16)
        : block_(block)
    {
        std::string cur, shared;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--tier")
                thorough_ = next() == "thorough";
            else if (a == "--out")
                out_ = next();
            else if (a == "--cur")
                cur = next();
            else if (a == "--shared")
                shared = next();
            else if (a == "--only")
            {
                only_ = next();
                has_only_ = true;
            }
            else if (a == "--only-file")
            {
                FILE* f = fopen(next().c_str(), "rb");
                char b[4096];
                size_t n;
                while (f && (n = fread(b, 1, sizeof b, f)) > 0)
                    only_.append(b, n);
                if (f)
                    fclose(f);
                has_only_ = true;
            }
            else if (a == "--list")
                list_ = true;
        }
        auto map = [](const std::string& p, size_t n) -> void* {
            if (p.empty())
                return calloc(1, n);
            int fd = open(p.c_str(), O_RDWR | O_CREAT, 0600);
            if (fd < 0 || ftruncate(fd, n))
            {
                perror(p.c_str());
                _exit(3);
            }
            return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        };
        cur_ = (Cur*)map(cur, sizeof(Cur));
        shared_ = (Shared*)map(shared, sizeof(Shared));
        current() = this;
    }
    static Run*& current()
    {
        static Run* r = nullptr;
        return r;
    }
    bool thorough() const { return thorough_; }
    bool replaying() const { return has_only_; }

    // true if this process is to execute the next case; the description is only needed then (see want())
    bool claim()
    {
        uint64_t i = idx_++;
        if (has_only_ || list_)
            return true;
        while (i >= hi_)
        {
            lo_ = __atomic_fetch_add(&shared_->next, block_, __ATOMIC_SEQ_CST);
            hi_ = lo_ + block_;
        }
        return i >= lo_;
    }
    template<typename D, typename F>
    void check(D&& desc, F&& body)
    {
        if (!claim())
            return;
        if constexpr (std::is_invocable_v<D>)
            desc_ = desc();
        else
            desc_ = std::string(desc);
        if (list_)
        {
            puts(esc(desc_).c_str());
            return;
        }
        if (has_only_ && desc_ != only_)
            return;
        cur_->len = (uint32_t)std::min(desc_.size(), sizeof cur_->text);
        memcpy(cur_->text, desc_.data(), cur_->len);
        __atomic_fetch_add(&cur_->seq, 1, __ATOMIC_SEQ_CST);
        ++cases;
        if (samples_.size() < 3 && (cases == 1 || (cases & (cases - 1)) == 0))
            samples_.push_back(desc_);
        try
        {
            body();
        }
        catch (const Fail& f)
        {
            fail(f.m);
        }
        catch (const std::exception& e)
        {
            fail(std::string("exception escaped: ") + e.what());
        }
        if (cases > 64 && (cases & (cases - 1)) == 0)
        {
            if (samples_.size() > 6)
                samples_.erase(samples_.begin() + 1);
            samples_.push_back(desc_);
        }
    }
    // keeps the watchdog quiet inside a long case
    void tick() { __atomic_fetch_add(&cur_->seq, 1, __ATOMIC_SEQ_CST); }
    void fail(const std::string& msg)
    {
        ++nfails_;
        if (has_only_)
            printf("FAIL %s\n  %s\n", esc(desc_).c_str(), msg.c_str());
        if (fails_.size() < 40)
            fails_.emplace_back(desc_, msg);
    }
    bool state(uint64_t h) { return states_.size() < 4000000 ? states_.insert(h).second : false; }
    bool state(std::string_view s) { return state(fnv(s)); }
    void count(const std::string& k, uint64_t n = 1) { counters_[k] += n; }
    const std::string& desc() const { return desc_; }
    void interesting() { ++nontrivial; }

    int finish()
    {
        if (has_only_)
        {
            printf("replayed %llu case(s), %llu failure(s)\n", (unsigned long long)cases, (unsigned long long)nfails_);
            return cases == 0 ? 4 : nfails_ ? 1 : 0;
        }
        if (list_)
            return 0;
        if (!out_.empty())
        {
            FILE* f = fopen((out_ + ".tmp").c_str(), "w");
            fprintf(f, "{\"enumerated\":%llu,\"cases\":%llu,\"transitions\":%llu,\"validated\":%llu,\"nontrivial\":%llu,"
                       "\"nfails\":%llu,\"states\":%llu,\n\"counters\":{",
                (unsigned long long)idx_, (unsigned long long)cases, (unsigned long long)transitions,
                (unsigned long long)validated, (unsigned long long)nontrivial, (unsigned long long)nfails_,
                (unsigned long long)states_.size());
            bool first = true;
            for (auto& [k, v] : counters_)
            {
                fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(k).c_str(), (unsigned long long)v);
                first = false;
            }
            fprintf(f, "},\n\"samples\":[");
            for (size_t i = 0; i < samples_.size(); ++i)
                fprintf(f, "%s%s", i ? "," : "", jstr(samples_[i]).c_str());
            fprintf(f, "],\n\"fails\":[");
            for (size_t i = 0; i < fails_.size(); ++i)
                fprintf(f, "%s[%s,%s]", i ? ",\n" : "", jstr(fails_[i].first).c_str(), jstr(fails_[i].second).c_str());
            fprintf(f, "]}\n");
            fclose(f);
            FILE* g = fopen((out_ + ".states").c_str(), "wb");
            std::vector<uint64_t> v(states_.begin(), states_.end());
            fwrite(v.data(), 8, v.size(), g);
            fclose(g);
            rename((out_ + ".tmp").c_str(), out_.c_str());
        }
        fflush(stdout);
        return 0;
    }
};

inline void require(bool c, const std::string& msg)
{
    if (!c)
        throw Fail(msg);
}
template<typename A, typename B>
inline void require_eq(const A& a, const B& b, const std::string& what)
{
    if (!(a == b))
    {
        if constexpr (std::is_convertible_v<A, std::string_view> && std::is_convertible_v<B, std::string_view>)
            throw Fail(what + ": got '" + esc(std::string_view(a)) + "', expected '" + esc(std::string_view(b)) + "'");
        else if constexpr (std::is_arithmetic_v<A> && std::is_arithmetic_v<B>)
            throw Fail(what + ": got " + std::to_string(a) + ", expected " + std::to_string(b));
        else
            throw Fail(what + ": values differ");
    }
}
} // namespace verif
