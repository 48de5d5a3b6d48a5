// A workspace on a scratch disk, an editor and a server, for the checks of histories.
#pragma once
#include "verif.h"

#include <algorithm>
#include <atomic>
#include <filesystem>
#include <fstream>
#include <memory>
#include <set>

#include "lib_config.h"
#include "workspace_manager.h"

#undef text
namespace ws {
namespace fs = std::filesystem;
using namespace hlasm_plugin::parser_library;

// the scratch directory of this process, removed at the end
struct Disk
{
    std::string root;
    bool own = false;
    Disk()
    {
        if (const char* w = getenv("VERIF_WORK"))
            root = w;
        else
        {
            root = "/tmp/verif-ws." + std::to_string(getpid());
            own = true;
        }
        root += "/d";
        fs::create_directories(root);
    }
    ~Disk()
    {
        std::error_code ec;
        fs::remove_all(own ? root.substr(0, root.size() - 2) : root, ec);
    }
    std::map<std::string, std::string> now; // what is there
    void put(const std::string& rel, const std::string& text)
    {
        auto it = now.find(rel);
        if (it != now.end() && it->second == text)
            return;
        auto p = root + "/" + rel;
        auto dir = p.substr(0, p.rfind('/'));
        if (!fs::exists(dir))
            fs::create_directories(dir);
        std::ofstream f(p, std::ios::binary | std::ios::trunc);
        f << text;
        now[rel] = text;
    }
    void del(const std::string& rel)
    {
        if (!now.erase(rel))
            return;
        std::error_code ec;
        fs::remove(root + "/" + rel, ec);
    }
    void set(const std::map<std::string, std::string>& want)
    {
        std::vector<std::string> gone;
        for (auto& [k, v] : now)
            if (!want.count(k))
                gone.push_back(k);
        for (auto& k : gone)
            del(k);
        for (auto& [k, v] : want)
            put(k, v);
    }
    std::string uri(const std::string& rel) const { return root + "/" + rel; }
};

struct Server : diagnostics_consumer, message_consumer
{
    std::atomic<bool> cancel { false };
    std::unique_ptr<workspace_manager> m;
    Disk& d;
    std::multiset<std::string> published; // the last complete list
    std::vector<std::string> messages;
    uint64_t lists = 0;
    bool callers = true; // of members, unless several programs use them

    explicit Server(Disk& d, bool add = true)
        : d(d)
    {
        m = std::make_unique<workspace_manager>(&cancel);
        m->register_diagnostics_consumer(this);
        m->set_message_consumer(this);
        if (add)
            m->add_workspace("ws", d.root.c_str());
    }
    std::string rel(std::string f) const
    {
        if (f.compare(0, d.root.size() + 1, d.root + "/") == 0)
            return f.substr(d.root.size() + 1);
        return f;
    }
    std::string clean(std::string s) const
    {
        for (size_t p; (p = s.find(d.root)) != std::string::npos;)
            s.replace(p, d.root.size(), "~");
        return s;
    }
    void consume_diagnostics(diagnostic_list l) override
    {
        ++lists;
        published.clear();
        for (size_t i = 0; i < l.diagnostics_size(); ++i)
        {
            auto x = l.diagnostics(i);
            auto g = x.get_range();
            std::string s = rel(x.file_name()) + ":" + std::to_string(g.start.line) + ":" + std::to_string(g.start.column)
                + "-" + std::to_string(g.end.line) + ":" + std::to_string(g.end.column) + " " + x.code() + " "
                + clean(x.message());
            for (size_t k = 0; k < x.related_info_size() && callers; ++k)
                s += " <" + rel(x.related_info(k).location().uri()) + ":"
                    + std::to_string(x.related_info(k).location().get_range().start.line) + ">";
            published.insert(s);
        }
    }
    void show_message(const std::string& msg, message_type) override { messages.push_back(clean(msg)); }

    int64_t version = 0;
    void open(const std::string& rel, const std::string& text)
    {
        m->did_open_file(d.uri(rel).c_str(), ++version, text.data(), text.size());
    }
    void change(const std::string& rel, const std::string& text)
    {
        std::vector<document_change> c;
        c.emplace_back(text.data(), text.size());
        m->did_change_file(d.uri(rel).c_str(), ++version, c.data(), c.size());
    }
    void close(const std::string& rel) { m->did_close_file(d.uri(rel).c_str()); }
    void watched(const std::vector<std::string>& rels)
    {
        std::vector<std::string> u;
        for (auto& r : rels)
            u.push_back(d.uri(r));
        std::vector<const char*> p;
        for (auto& s : u)
            p.push_back(s.c_str());
        m->did_change_watched_files(p.data(), p.size());
    }
    std::string diags() const
    {
        std::string s;
        for (auto& x : published)
            s += x + "\n";
        return s;
    }
    // everything a client can ask about an open file
    std::string features(const std::string& rel_, const std::string& text)
    {
        auto u = d.uri(rel_);
        std::string s = "tokens " + rel_ + ":";
        for (auto& t : m->semantic_tokens(u.c_str()))
            s += " " + std::to_string(t.token_range.start.line) + "," + std::to_string(t.token_range.start.column) + "-"
                + std::to_string(t.token_range.end.column) + ":" + std::to_string((int)t.scope);
        s += "\n";
        size_t line = 0, col = 0;
        char prev = '\n';
        for (size_t i = 0; i < text.size(); ++i)
        {
            char c = text[i];
            if (c == '\n')
            {
                ++line;
                col = 0;
                prev = c;
                continue;
            }
            if (c != ' ' && (prev == ' ' || prev == '\n' || c == '&'))
            {
                position p(line, col + (c == '&' || c == '.' ? 1 : 0));
                auto df = m->definition(u.c_str(), p);
                s += "at " + rel_ + ":" + std::to_string(p.line) + ":" + std::to_string(p.column) + " def "
                    + rel(std::string(df.file())) + ":" + std::to_string(df.pos().line) + ":" + std::to_string(df.pos().column);
                auto rf = m->references(u.c_str(), p);
                std::multiset<std::string> rs;
                for (size_t k = 0; k < rf.size(); ++k)
                {
                    auto x = rf.item(k);
                    rs.insert(rel(std::string(x.file())) + ":" + std::to_string(x.pos().line) + ":" + std::to_string(x.pos().column));
                }
                s += " refs";
                for (auto& x : rs)
                    s += " " + x;
                s += " hover " + verif::esc(clean(std::string(m->hover(u.c_str(), p)))) + "\n";
            }
            prev = c;
            ++col;
        }
        for (auto trig : { '&', '.', ' ' })
        {
            auto cl = m->completion(u.c_str(), position(line ? line - 1 : 0, 0), trig, completion_trigger_kind::trigger_character);
            std::multiset<std::string> cs;
            if (cl.size() < 500)
                for (size_t k = 0; k < cl.size(); ++k)
                    cs.insert(std::string(cl.item(k).label()) + "/" + verif::esc(clean(std::string(cl.item(k).documentation()))));
            else
            {
                uint64_t h = 0;
                for (size_t k = 0; k < cl.size(); ++k)
                    h += verif::fnv(cl.item(k).label());
                cs.insert(std::to_string(cl.size()) + "#" + std::to_string(h));
            }
            s += std::string("completion '") + trig + "'";
            for (auto& x : cs)
                s += " " + x;
            s += "\n";
        }
        return s;
    }
};

// the first line in which two snapshots differ
inline std::string first_diff(const std::string& got, const std::string& want)
{
    std::multiset<std::string> a, b;
    auto cut = [](const std::string& s, std::multiset<std::string>& o) {
        size_t i = 0;
        while (i < s.size())
        {
            auto e = s.find('\n', i);
            o.insert(s.substr(i, e - i));
            i = e + 1;
        }
    };
    cut(got, a);
    cut(want, b);
    std::string r;
    for (auto& x : a)
        if (a.count(x) > b.count(x))
        {
            r += "[only after the history] " + x.substr(0, 300) + " ";
            break;
        }
    for (auto& x : b)
        if (b.count(x) > a.count(x))
        {
            r += "[only on a fresh server] " + x.substr(0, 300);
            break;
        }
    return r;
}
} // namespace ws
