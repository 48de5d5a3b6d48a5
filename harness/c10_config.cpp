// C10: each program is analysed with exactly its configured libraries and options.
//
// Every configuration of several finite families is written to a scratch disk, a workspace manager is created on it, a
// program is opened, and what is in force is observed from outside: the file in which a macro is defined, the value of
// &SYSPARM, the profile member, the diagnostics of the configuration, of libraries and of the program, the messages.
// The reference below computes the same from the text of the two configuration files.
#include <nlohmann/json.hpp>

#include "ws_util.h"

using namespace ws;
using namespace verif;
using json = nlohmann::json;

static const std::string GRPS = ".hlasmplugin/proc_grps.json", PGMS = ".hlasmplugin/pgm_conf.json";
static const std::string PROGRAM = " MAC\n&S SETC '&SYSPARM'\n&S SETC 'ZZ&S'\n &S\n";

// ---------------------------------------------------------------- reference
namespace ref {
struct Lib
{
    std::string path;
    bool optional = false;
    std::vector<std::string> ext;
};
struct Group
{
    std::string name;
    std::vector<Lib> libs;
    std::string sysparm, profile;
};
struct Conf
{
    bool grps_there = false, pgms_there = false, grps_ok = false, pgms_ok = false;
    std::vector<Group> groups;
    std::vector<std::string> ext;
    std::vector<std::pair<std::string, std::string>> pgms;
    std::vector<std::string> always;
    bool limit_set = false, limit_open = false;
    uint64_t limit = 0;
    bool loaded() const { return grps_ok && pgms_ok; }
};

struct bad
{};
static std::string str(const json& j)
{
    if (!j.is_string())
        throw bad();
    return j.get<std::string>();
}
static std::vector<std::string> strs(const json& j)
{
    if (!j.is_array())
        throw bad();
    std::vector<std::string> r;
    for (auto& x : j)
        r.push_back(str(x));
    return r;
}
static const json& need(const json& j, const char* k)
{
    if (!j.is_object() || !j.contains(k))
        throw bad();
    return j[k];
}
static void read_groups(Conf& c, const std::string& text)
{
    c.grps_there = true;
    auto j = json::parse(text, nullptr, false);
    if (j.is_discarded())
        return;
    try
    {
        auto& gs = need(j, "pgroups");
        if (!gs.is_array())
            throw bad();
        std::vector<Group> groups;
        for (auto& g : gs)
        {
            Group o;
            o.name = str(need(g, "name"));
            auto& ls = need(g, "libs");
            if (!ls.is_array())
                throw bad();
            for (auto& l : ls)
            {
                Lib x;
                if (l.is_string())
                    x.path = l.get<std::string>();
                else
                {
                    x.path = str(need(l, "path"));
                    if (l.contains("optional"))
                    {
                        if (!l["optional"].is_boolean())
                            throw bad();
                        x.optional = l["optional"].get<bool>();
                    }
                    if (l.contains("macro_extensions"))
                        x.ext = strs(l["macro_extensions"]);
                }
                o.libs.push_back(x);
            }
            if (g.contains("asm_options"))
            {
                auto& a = g["asm_options"];
                if (!a.is_object())
                    throw bad();
                if (a.contains("SYSPARM"))
                    o.sysparm = str(a["SYSPARM"]);
                if (a.contains("PROFILE"))
                    o.profile = str(a["PROFILE"]);
            }
            groups.push_back(o);
        }
        if (j.contains("macro_extensions"))
            c.ext = strs(j["macro_extensions"]);
        c.groups = groups;
        c.grps_ok = true;
    }
    catch (bad)
    {}
}
static void read_pgms(Conf& c, const std::string& text)
{
    c.pgms_there = true;
    auto j = json::parse(text, nullptr, false);
    if (j.is_discarded())
        return;
    try
    {
        auto& ps = need(j, "pgms");
        if (!ps.is_array())
            throw bad();
        for (auto& p : ps)
            c.pgms.emplace_back(str(need(p, "program")), str(need(p, "pgroup")));
        if (j.contains("alwaysRecognize"))
            c.always = strs(j["alwaysRecognize"]);
        if (j.contains("diagnosticsSuppressLimit"))
        {
            auto& l = j["diagnosticsSuppressLimit"];
            if (l.is_number_unsigned())
            {
                c.limit_set = true;
                c.limit = l.get<uint64_t>();
            }
            else if (l.is_number() || l.is_boolean())
                c.limit_open = true; // a value that is no count: left open
            else
                throw bad();
        }
        c.pgms_ok = true;
    }
    catch (bad)
    {
        c.pgms.clear();
    }
}

// does the pattern match the whole of the name?
static bool match(const std::string& p, const std::string& n)
{
    std::vector<std::vector<char>> t(p.size() + 1, std::vector<char>(n.size() + 1, 0));
    t[0][0] = 1;
    for (size_t i = 1; i <= p.size(); ++i)
        for (size_t k = 0; k <= n.size(); ++k)
        {
            if (p[i - 1] == '*')
                t[i][k] = t[i - 1][k] || (k && t[i][k - 1]);
            else
                t[i][k] = k && t[i - 1][k - 1] && (p[i - 1] == '?' || p[i - 1] == n[k - 1]);
        }
    return t[p.size()][n.size()];
}
static bool wild(const std::string& p) { return p.find_first_of("*?") != std::string::npos; }

static const Group* group(const Conf& c, const std::string& name)
{
    for (auto& g : c.groups)
        if (g.name == name)
            return &g;
    return nullptr;
}
static const Group* group_of(const Conf& c, const std::string& file)
{
    if (!c.loaded())
        return nullptr;
    for (auto& [p, g] : c.pgms)
        if (!wild(p) && p == file && group(c, g))
            return group(c, g);
    for (auto& [p, g] : c.pgms)
        if (wild(p) && match(p, file) && group(c, g))
            return group(c, g);
    return nullptr;
}

// the directory of a library relative to the workspace: "" is the workspace, ending in "/" otherwise
static std::string dir(std::string p, const std::string& root)
{
    if (p.compare(0, root.size(), root) == 0 && (p.size() == root.size() || p[root.size()] == '/'))
        p = p.substr(root.size());
    std::vector<std::string> parts;
    std::string w;
    p += "/";
    for (char ch : p)
    {
        if (ch != '/')
        {
            w += ch;
            continue;
        }
        if (w == ".." && !parts.empty() && parts.back() != "..")
            parts.pop_back();
        else if (!w.empty() && w != ".")
            parts.push_back(w);
        w.clear();
    }
    std::string r;
    for (auto& x : parts)
        r += x + "/";
    return r;
}
struct Members
{
    std::map<std::string, std::vector<std::string>> files; // upper-case member -> files
    bool stripped = false, from_always = false;
    int duplicates = 0;
};
static std::string upper(std::string s)
{
    for (auto& c : s)
        if (c >= 'a' && c <= 'z')
            c -= 32;
    return s;
}
static Members members(const Conf& c, const Lib& l, const std::set<std::string>& disk, const std::string& root)
{
    Members m;
    std::vector<std::string> ext = l.ext;
    if (ext.empty())
        ext = c.ext;
    if (ext.empty())
    {
        for (auto& a : c.always)
            if (auto p = a.rfind("*."); p != std::string::npos)
            {
                ext.push_back(a.substr(p + 1));
                m.from_always = true;
            }
        if (m.from_always)
            ext.push_back("");
    }
    for (auto& e : ext)
        if (!e.empty() && e[0] != '.')
            e = "." + e;
    auto d = dir(l.path, root);
    for (auto& f : disk)
    {
        if (f.compare(0, d.size(), d) || f.find('/', d.size()) != std::string::npos)
            continue;
        auto n = f.substr(d.size());
        if (ext.empty())
        {
            m.files[upper(n)].push_back(f);
            continue;
        }
        int best = -1;
        for (auto& e : ext)
            if (n.size() > e.size() && n.compare(n.size() - e.size(), e.size(), e) == 0)
                best = std::max<int>(best, (int)e.size());
        if (best < 0)
            continue;
        if (best > 0)
            m.stripped = true;
        auto& v = m.files[upper(n.substr(0, n.size() - best))];
        if (!v.empty())
            ++m.duplicates;
        v.push_back(f);
    }
    return m;
}
} // namespace ref

// ---------------------------------------------------------------- checking
static Disk* D;

struct Obs
{
    std::map<std::string, int> config; // codes of the configuration and the libraries
    std::string def; // of MAC
    std::string sysparm = "?";
    bool mac_unknown = false;
};

static Obs observe(Server& s, const std::string& file)
{
    Obs o;
    for (auto& x : s.published)
    {
        auto sp = x.find(' ');
        auto code = x.substr(sp + 1, x.find(' ', sp + 1) - sp - 1);
        if (code[0] == 'L' || code[0] == 'W')
            ++o.config[code];
        if (x.compare(0, file.size() + 1, file + ":") == 0 && code == "E049")
        {
            auto a = x.find(file + ":3:") == 0;
            auto b = x.find('[', sp);
            auto e = x.find(']', b);
            std::string n = b == std::string::npos ? x.substr(x.rfind(' ') + 1) : x.substr(b + 1, e - b - 1);
            if (a)
                o.sysparm = n;
            else
                o.mac_unknown = true;
        }
    }
    auto df = s.m->definition(D->uri(file).c_str(), position(0, 1));
    o.def = s.rel(std::string(df.file()));
    return o;
}

static std::string show(const std::map<std::string, int>& m)
{
    std::string s;
    for (auto& [k, v] : m)
        s += " " + k + "x" + std::to_string(v);
    return s.empty() ? " none" : s;
}

// checks what is in force for an opened program
static void judge(Server& s, const ref::Conf& c, const std::string& file, bool config_diags = true)
{
    auto o = observe(s, file);
    auto* g = ref::group_of(c, file);
    std::set<std::string> disk;
    for (auto& [f, t] : D->now)
        disk.insert(f);
    std::map<std::string, int> want;
    if (c.grps_there && !c.grps_ok)
        ++want["W0002"];
    else if (c.grps_ok && c.pgms_there && !c.pgms_ok)
        ++want["W0003"];
    for (auto& x : c.groups)
        if (x.sysparm.size() > 255)
            ++want["W0005"];
    if (c.loaded())
        for (auto& [p, n] : c.pgms)
            if (!ref::group(c, n))
                ++want["W0004"];
    std::set<std::string> from;
    bool searched = false;
    if (g)
        for (auto& l : g->libs)
        {
            searched = true;
            auto d = ref::dir(l.path, D->root);
            auto on = D->root + "/" + d;
            if (!on.empty() && on.back() == '/')
                on.pop_back();
            if (!fs::exists(on))
            {
                if (!l.optional)
                    ++want["L0002"];
                continue;
            }
            if (!fs::is_directory(on))
            {
                ++want["L0002"];
                continue;
            }
            auto m = ref::members(c, l, disk, D->root);
            if (m.stripped && m.from_always)
                ++want["L0003"];
            if (m.duplicates)
                want["L0004"] += m.duplicates;
            if (from.empty())
                if (auto it = m.files.find("MAC"); it != m.files.end())
                    from.insert(it->second.begin(), it->second.end());
        }
    (void)searched;
    if (config_diags)
        require(o.config == want, "configuration and library diagnostics:" + show(o.config) + ", expected" + show(want));
    if (from.empty())
    {
        require(o.mac_unknown, "a macro that no configured library has is not reported as unknown");
        require_eq(o.def, file, "definition of a macro that no configured library has");
    }
    else
    {
        std::string a;
        for (auto& f : from)
            a += " " + f;
        require(!o.mac_unknown, "a macro of a configured library is unknown, expected from" + a);
        require(from.count(o.def), "the macro comes from " + o.def + ", expected from" + a);
    }
    if (!g || g->sysparm.size() <= 20)
        require_eq(o.sysparm, "ZZ" + ref::upper(g ? g->sysparm : ""), "operation made of &SYSPARM");
}

static ref::Conf read(const std::map<std::string, std::string>& files)
{
    ref::Conf c;
    if (auto it = files.find(GRPS); it != files.end())
        ref::read_groups(c, it->second);
    if (auto it = files.find(PGMS); it != files.end())
        ref::read_pgms(c, it->second);
    return c;
}

static std::string macro() { return " MACRO\n MAC\n MEND\n"; }

int main(int argc, char** argv)
{
    Run r(argc, argv, 16);
    Disk d;
    D = &d;
    const bool deep = r.thorough();

    auto one = [&](const std::map<std::string, std::string>& files, const std::vector<std::string>& programs) {
        d.set(files);
        auto c = read(files);
        Server s(d);
        for (auto& p : programs)
        {
            s.open(p, files.at(p));
            ++r.transitions;
            judge(s, c, p);
            ++r.validated;
            s.close(p);
        }
    };

    // -------------------------------------------------- 1: which group
    {
        const std::vector<std::string> names = { "P", "PQ", "s/P", "s/t/P", "P.asm", "a+b", "aab", "s.P", "[P]" };
        std::vector<std::string> pats = { "P", "s/P", "*", "?", "s/*", "*P", "P*", "?P", "P?", "*.asm", "s?P", "a+b", "a+*", "*a*b*", "[P]", "[P]*",
            "s/*/P", "*/*", "??*", "P.*", "(*", "**", "S/*", "./P", "*\\*", "p*", "?*?" };
        if (deep)
            for (auto x : { "{1}*", "^*$", "s/t/?", "*/", "*.", "|*", "P|*", "*Q*", "???" })
                pats.push_back(x);
        std::map<std::string, std::string> base;
        for (auto& n : names)
            base[n] = PROGRAM;
        base["l1/MAC"] = base["l2/MAC"] = macro();
        base[GRPS] = R"({"pgroups":[{"name":"G1","libs":["l1"],"asm_options":{"SYSPARM":"ONE"}},{"name":"G2","libs":["l2"],"asm_options":{"SYSPARM":"TWO"}}]})";
        const std::vector<std::string> grp = { "G1", "G2", "NO" };
        auto run = [&](const std::vector<std::pair<std::string, std::string>>& ps) {
            r.check(
                [&] {
                    std::string s = "program";
                    for (auto& [p, g] : ps)
                        s += " " + p + "=" + g;
                    return s;
                },
                [&] {
                    json j;
                    j["pgms"] = json::array();
                    for (auto& [p, g] : ps)
                        j["pgms"].push_back({ { "program", p }, { "pgroup", g } });
                    auto f = base;
                    f[PGMS] = j.dump();
                    one(f, names);
                });
        };
        run({});
        for (auto& p1 : pats)
            for (auto& g1 : grp)
            {
                run({ { p1, g1 } });
                for (auto& p2 : pats)
                    for (auto& g2 : grp)
                        if (g1 != g2)
                            run({ { p1, g1 }, { p2, g2 } });
            }
        if (deep)
            for (auto& p1 : pats)
                for (auto& p2 : pats)
                    for (auto& p3 : pats)
                        if (p1 < p3)
                            run({ { p1, "G1" }, { p2, "NO" }, { p3, "G2" } });
        // every short pattern over a small alphabet
        std::vector<std::string> all { "" };
        for (size_t n = 1, from = 0; n <= (deep ? 4u : 3u); ++n)
        {
            size_t to = all.size();
            for (size_t i = from; i < to; ++i)
                for (char ch : std::string("P/s*?.+"))
                    all.push_back(all[i] + ch);
            from = to;
        }
        for (auto& p : all)
            if (!p.empty() && ref::wild(p))
                run({ { p, "G1" } });
    }

    // -------------------------------------------------- 2: which libraries and members
    {
        struct L
        {
            std::string key;
            json j;
        };
        std::vector<L> libs;
        auto lib = [&](std::string key, json j) { libs.push_back({ key, j }); };
        lib("l1", "l1");
        lib("l2", "l2");
        lib("none", "none");
        lib("optnone", { { "path", "none" }, { "optional", true } });
        lib("optfalse", { { "path", "none" }, { "optional", false } });
        lib("file", "FILE");
        lib("./l2/", "./l2/");
        lib("l1/../l2", "l1/../l2");
        lib("root", "");
        lib("l1.mac", { { "path", "l1" }, { "macro_extensions", { ".mac" } } });
        lib("l1mac", { { "path", "l1" }, { "macro_extensions", { "mac" } } });
        lib("l1mac+", { { "path", "l1" }, { "macro_extensions", { "mac", "" } } });
        lib("l1xmac", { { "path", "l1" }, { "macro_extensions", { ".mac", ".x.mac" } } });
        lib("l1empty", { { "path", "l1" }, { "macro_extensions", json::array() }, { "optional", true } });
        lib("l2asm", { { "path", "l2" }, { "macro_extensions", { ".asm" } } });
        lib("sub", "l1/sub");
        std::vector<std::pair<std::string, json>> globals = { { "-", json() }, { "asm", { ".asm" } }, { "mac", { "mac" } }, { "mac,", { ".mac", "" } } };
        std::vector<std::pair<std::string, json>> always = { { "-", json() }, { "*.mac", { "*.mac" } }, { "l1/*.mac", { "l1/*.mac", "l2/*" } }, { "l1/*", { "l1/*" } }, { "2", { "*.asm", "*.x.mac" } } };
        // what is on the disk
        std::vector<std::vector<std::string>> disks = { {}, { "l1/MAC" }, { "l2/MAC" }, { "l1/MAC", "l2/MAC" }, { "l1/MAC.mac" }, { "l1/mac", "l2/MAC.asm" }, { "l1/MAC.x.mac" },
            { "l1/MAC", "l1/MAC.mac" }, { "l1/Mac.asm", "l2/MAC.mac" }, { "l1/sub/MAC", "l2/mac.asm" }, { "MAC", "l1/MAC.MAC" }, { "l1/.mac", "l1/MAC.mac.asm", "l2/MAC" },
            { "l1/MAC.mac", "l1/mac.x.mac", "l2/MAC" } };
        auto run = [&](const std::vector<size_t>& ls, size_t gi, size_t ai, size_t di) {
            r.check(
                [&] {
                    std::string s = "libs";
                    for (auto l : ls)
                        s += " " + libs[l].key;
                    s += " global=" + globals[gi].first + " always=" + always[ai].first + " disk=";
                    for (auto& f : disks[di])
                        s += f + ";";
                    return s;
                },
                [&] {
                    json g, p;
                    g["pgroups"] = json::array();
                    json one_group = { { "name", "G" }, { "libs", json::array() } };
                    for (auto l : ls)
                        one_group["libs"].push_back(libs[l].j);
                    g["pgroups"].push_back(one_group);
                    if (!globals[gi].second.is_null())
                        g["macro_extensions"] = globals[gi].second;
                    p["pgms"] = json::array({ { { "program", "P" }, { "pgroup", "G" } } });
                    if (!always[ai].second.is_null())
                        p["alwaysRecognize"] = always[ai].second;
                    std::map<std::string, std::string> f { { GRPS, g.dump() }, { PGMS, p.dump() }, { "P", PROGRAM }, { "FILE", "* no directory\n" },
                        { "l1/OTHER", "*\n" }, { "l2/OTHER", "*\n" }, { "l1/sub/OTHER", "*\n" } };
                    for (auto& x : disks[di])
                        f[x] = macro();
                    one(f, { "P" });
                });
        };
        for (size_t di = 0; di < disks.size(); ++di)
            for (size_t gi = 0; gi < globals.size(); ++gi)
                for (size_t ai = 0; ai < always.size(); ++ai)
                {
                    run({}, gi, ai, di);
                    for (size_t a = 0; a < libs.size(); ++a)
                    {
                        run({ a }, gi, ai, di);
                        for (size_t b = 0; b < libs.size(); ++b)
                        {
                            if (!deep && gi && ai)
                                continue;
                            run({ a, b }, gi, ai, di);
                            if (deep && !(gi && ai))
                                for (size_t e : { 0u, 1u, 3u, 9u, 11u })
                                    run({ a, b, e }, gi, ai, di);
                        }
                    }
                }
    }

    // -------------------------------------------------- 3: assembler options
    {
        std::vector<json> sys = { json(), "", "A", "SEVEN", "A B", std::string(254, 'A'), std::string(255, 'A'), std::string(256, 'A'), std::string(300, 'A') };
        std::vector<json> prof = { json(), "", "PRF", "NOPE" };
        for (size_t a = 0; a < sys.size(); ++a)
            for (size_t b = 0; b < prof.size(); ++b)
                for (size_t a2 : { 0u, 2u, 7u })
                    for (size_t b2 : { 0u, 2u })
                        for (bool wildp : { false, true })
                            r.check(
                                [&] {
                                    return "options sysparm" + std::to_string(a) + " profile" + std::to_string(b) + " other " + std::to_string(a2)
                                        + std::to_string(b2) + (wildp ? " wildcard" : "");
                                },
                                [&] {
                                    auto grp = [&](const char* name, const json& s, const json& p) {
                                        json g = { { "name", name }, { "libs", { "l1" } } };
                                        if (!s.is_null() || !p.is_null())
                                            g["asm_options"] = json::object();
                                        if (!s.is_null())
                                            g["asm_options"]["SYSPARM"] = s;
                                        if (!p.is_null())
                                            g["asm_options"]["PROFILE"] = p;
                                        return g;
                                    };
                                    json g;
                                    g["pgroups"] = { grp("G1", sys[a], prof[b]), grp("G2", sys[a2], prof[b2]) };
                                    json p;
                                    p["pgms"] = { { { "program", wildp ? "P*" : "P1" }, { "pgroup", "G1" } }, { { "program", "P2" }, { "pgroup", "G2" } } };
                                    // the value is seen through its length and its end
                                    const std::string text = "&L SETC (UPPER '&SYSPARM')\n&N SETA K'&L\n&S SETC 'ZZ'.'&N'\n &S\n";
                                    std::map<std::string, std::string> f { { GRPS, g.dump() }, { PGMS, p.dump() }, { "P1", text }, { "P2", text }, { "l1/PRF", " INPRF\n" } };
                                    d.set(f);
                                    Server s(d);
                                    for (int k = 0; k < 2; ++k)
                                    {
                                        auto file = k ? "P2" : "P1";
                                        s.open(file, text);
                                        ++r.transitions;
                                        ++r.validated;
                                        auto& sp = k ? sys[a2] : sys[a];
                                        int w5 = 0;
                                        for (auto* x : { &sys[a], &sys[a2] })
                                            if (x->is_string() && x->get<std::string>().size() > 255)
                                                ++w5;
                                        auto o = observe(s, file);
                                        require_eq(o.config["W0005"], w5, "W0005 about SYSPARM");
                                        size_t len = sp.is_string() ? sp.get<std::string>().size() : 0;
                                        if (len <= 255)
                                            require_eq(o.sysparm, "ZZ" + std::to_string(len), "length of &SYSPARM");
                                        s.close(file);
                                    }
                                });
    }

    // -------------------------------------------------- 4: malformed configurations
    {
        const json g0 = json::parse(R"({"pgroups":[{"name":"G1","libs":["none",{"path":"l1","optional":true,"macro_extensions":[".mac"]}],"asm_options":{"SYSPARM":"ONE","PROFILE":"PRF"}},
            {"name":"G2","libs":["l2"]}],"macro_extensions":[".asm"]})");
        const json p0 = json::parse(R"({"pgms":[{"program":"P","pgroup":"G1"},{"program":"Q*","pgroup":"G2"}],"alwaysRecognize":["*.x"],"diagnosticsSuppressLimit":5})");
        const std::map<std::string, std::string> base { { "P", PROGRAM }, { "Q", PROGRAM }, { "l1/MAC.mac", macro() }, { "l1/PRF.mac", "* p\n" }, { "l1/MAC.asm", macro() }, { "l2/MAC.asm", macro() },
            { "l2/MAC", macro() }, { GRPS, g0.dump() }, { PGMS, p0.dump() } };
        auto run = [&](std::string name, const std::string& which, const std::optional<std::string>& text) {
            r.check([&] { return "bad " + which.substr(which.rfind('/') + 1) + " " + name; },
                [&] {
                    auto f = base;
                    if (text)
                        f[which] = *text;
                    else
                        f.erase(which);
                    auto good = read(base), c = read(f);
                    d.set(f);
                    {
                        Server s(d);
                        for (auto p : { "P", "Q" })
                        {
                            s.open(p, PROGRAM);
                            judge(s, c, p, p[0] == 'P');
                            ++r.transitions;
                        }
                        // repaired outside the editor
                        d.set(base);
                        s.watched({ which });
                        for (auto p : { "P", "Q" })
                            judge(s, good, p, false);
                        ++r.transitions;
                    }
                    {
                        // broken in the editor, and repaired there
                        Server s(d);
                        s.open("P", PROGRAM);
                        s.open("Q", PROGRAM);
                        s.open(which, base.at(which));
                        for (auto p : { "P", "Q" })
                            judge(s, good, p, false);
                        if (text)
                        {
                            s.change(which, *text);
                            for (auto p : { "P", "Q" })
                                judge(s, c, p, false);
                            s.change(which, base.at(which));
                        }
                        else
                            s.close(which);
                        for (auto p : { "P", "Q" })
                            judge(s, good, p, false);
                        r.transitions += 5;
                    }
                    r.validated += 2;
                });
        };
        const std::vector<std::string> values = { "null", "true", "false", "-1", "0", "1", "1.5", "4294967296", "\"\"", "\"x\"", "\"G1\"", "\"*\"", "[]", "{}", "[1]", "[null]", "[\"a\"]", "[[]]",
            "{\"path\":1}", "{\"name\":\"G1\"}", "1e999" };
        for (auto& [which, j0] : std::map<std::string, json> { { GRPS, g0 }, { PGMS, p0 } })
        {
            run("missing", which, std::nullopt);
            run("empty", which, "");
            run("as it is", which, base.at(which));
            run("bom", which, "\xEF\xBB\xBF" + base.at(which));
            run("nul", which, std::string("{\0}", 3));
            run("utf8", which, std::string("{\"\xff\":1}"));
            run("deep", which, std::string(20000, '['));
            run("twice", which, base.at(which) + base.at(which));
            auto text = j0.dump();
            for (size_t i = 1; i < text.size(); ++i)
                run("cut at " + std::to_string(i), which, text.substr(0, i));
            if (deep)
                for (size_t i = 0; i < text.size(); ++i)
                    for (char ch : std::string("\"{}[],:x0 "))
                    {
                        auto t = text;
                        t[i] = ch;
                        if (t != text)
                            run("char " + std::to_string(i) + " " + ch, which, t);
                    }
            // every node replaced by every value, removed, or with an unknown brother
            auto flat = j0.flatten();
            std::set<std::string> ptrs { "" };
            for (auto& [k, v] : flat.items())
                for (size_t e = k.find('/', 1);; e = k.find('/', e + 1))
                {
                    ptrs.insert(k.substr(0, e));
                    if (e == std::string::npos)
                        break;
                }
            for (auto& ptr : ptrs)
            {
                for (auto& v : values)
                {
                    auto t = j0;
                    auto text2 = std::string();
                    t[json::json_pointer(ptr)] = "@@";
                    text2 = t.dump();
                    auto at = text2.find("\"@@\"");
                    text2.replace(at, 4, v);
                    run(ptr + "=" + v, which, text2);
                }
                if (!ptr.empty())
                {
                    auto t = j0;
                    auto up = ptr.substr(0, ptr.rfind('/')), key = ptr.substr(ptr.rfind('/') + 1);
                    auto& parent = t[json::json_pointer(up)];
                    if (parent.is_array())
                        parent.erase((size_t)std::stoi(key));
                    else
                        parent.erase(key);
                    run(ptr + " removed", which, t.dump());
                    if (parent.is_object())
                    {
                        auto u = j0;
                        u[json::json_pointer(up)]["comment"] = { 1, 2 };
                        run(up + " with more", which, u.dump());
                    }
                }
            }
        }
    }

    // -------------------------------------------------- 5: the limit of diagnostics of files without a group
    {
        const std::vector<int> limits = { -1, 0, 1, 2, 3 }; // -1: not set
        const size_t depth = deep ? 4 : 3;
        size_t total = 1;
        for (size_t i = 0; i < depth; ++i)
            total *= 6;
        for (int local : limits)
            for (int global : limits)
                for (bool in_group : { false, true })
                    for (size_t code = 0; code < total; ++code)
                        r.check(
                            [&] {
                                std::string s = "limit local=" + std::to_string(local) + " global=" + std::to_string(global) + (in_group ? " group" : "") + " steps";
                                for (size_t i = 0, k = code; i < depth; ++i, k /= 6)
                                    s += k % 6 == 5 ? " reopen" : " " + std::to_string(k % 6 == 4 ? 11 : k % 6);
                                return s;
                            },
                            [&] {
                                auto text = [](size_t n) {
                                    std::string s;
                                    for (size_t i = 0; i < n; ++i)
                                        s += " LR 1\n";
                                    return s + "* end\n";
                                };
                                json p;
                                p["pgms"] = json::array();
                                if (in_group)
                                    p["pgms"].push_back({ { "program", "?" }, { "pgroup", "G" } });
                                if (local >= 0)
                                    p["diagnosticsSuppressLimit"] = local;
                                d.set({ { GRPS, R"({"pgroups":[{"name":"G","libs":[]}]})" }, { PGMS, p.dump() }, { "P", "" } });
                                Server s(d);
                                lib_config gc;
                                if (global >= 0)
                                    gc.diag_supress_limit = global;
                                s.m->configuration_changed(gc);
                                size_t limit = local >= 0 ? local : global >= 0 ? global : 10;
                                bool told = false;
                                size_t now = 1;
                                s.open("P", text(now));
                                size_t messages = 0;
                                auto look = [&] {
                                    bool hide = !in_group && now > limit;
                                    if (hide && !told)
                                        ++messages;
                                    told = hide;
                                    require_eq(s.published.size(), hide ? 0 : now, "diagnostics published");
                                    require_eq(s.messages.size(), messages, "messages about suppressed diagnostics");
                                    ++r.transitions;
                                };
                                look();
                                for (size_t i = 0, k = code; i < depth; ++i, k /= 6)
                                {
                                    if (k % 6 == 5)
                                    {
                                        s.close("P");
                                        require_eq(s.published.size(), 0, "diagnostics after closing");
                                        told = false;
                                        s.open("P", text(now));
                                    }
                                    else
                                        s.change("P", text(now = k % 6 == 4 ? 11 : k % 6));
                                    look();
                                }
                                ++r.validated;
                            });
    }

    // -------------------------------------------------- 6: several workspaces
    {
        const std::vector<std::string> dirs = { "a", "ab", "a/b", "c" };
        const std::vector<std::string> places = { "a/", "ab/", "a/b/", "c/", "", "a/x/", "abc/", "a/bc/" };
        auto run = [&](std::vector<size_t> order, int names, bool slash, int removed) {
            r.check(
                [&] {
                    std::string s = "workspaces";
                    for (auto i : order)
                        s += " " + dirs[i];
                    s += " names" + std::to_string(names) + (slash ? " slash" : "");
                    if (removed >= 0)
                        s += " removed " + dirs[order[removed]];
                    return s;
                },
                [&] {
                    std::map<std::string, std::string> f;
                    for (size_t i = 0; i < dirs.size(); ++i)
                    {
                        f[dirs[i] + "/" + GRPS] = R"({"pgroups":[{"name":"G","libs":[],"asm_options":{"SYSPARM":"W)" + std::to_string(i) + R"("}}]})";
                        f[dirs[i] + "/" + PGMS] = R"({"pgms":[{"program":"*P","pgroup":"G"},{"program":"*","pgroup":"NO"}]})";
                    }
                    for (auto& p : places)
                        f[p + "P"] = PROGRAM;
                    d.set(f);
                    Server s(d, false);
                    auto uri = [&](size_t i) { return d.root + "/" + dirs[i] + (slash ? "/" : ""); };
                    std::vector<size_t> there;
                    for (auto i : order)
                    {
                        std::string name = names == 0 ? dirs[i] : names == 1 ? "n" : std::string(300, 'n') + dirs[i];
                        s.m->add_workspace(name.c_str(), uri(i).c_str());
                        there.push_back(i);
                    }
                    if (removed >= 0)
                    {
                        s.m->remove_workspace(uri(order[removed]).c_str());
                        there.erase(there.begin() + removed);
                    }
                    for (auto& p : places)
                    {
                        s.open(p + "P", PROGRAM);
                        ++r.transitions;
                        int in = -1;
                        for (auto i : there)
                            if (p.compare(0, dirs[i].size() + 1, dirs[i] + "/") == 0 && (in < 0 || dirs[i].size() > dirs[in].size()))
                                in = (int)i;
                        auto o = observe(s, p + "P");
                        require_eq(o.sysparm, in < 0 ? "ZZ" : "ZZW" + std::to_string(in), "operation made of &SYSPARM in " + p + "P");
                        require_eq(o.config["W0004"], (int)there.size(), "configuration diagnostics of the workspaces");
                        ++r.validated;
                        s.close(p + "P");
                    }
                });
        };
        for (int names : { 0, 1, 2 })
            for (bool slash : { false, true })
            {
                run({}, names, slash, -1);
                for (size_t a = 0; a < 4; ++a)
                {
                    for (int rm = -1; rm < 1; ++rm)
                        run({ a }, names, slash, rm);
                    for (size_t b = 0; b < 4; ++b)
                    {
                        if (b == a)
                            continue;
                        for (int rm = -1; rm < 2; ++rm)
                            run({ a, b }, names, slash, rm);
                        for (size_t c = 0; c < 4; ++c)
                            if (c != a && c != b)
                                for (int rm = -1; rm < 3; ++rm)
                                    run({ a, b, c }, names, slash, rm);
                    }
                }
            }
    }
    return r.finish();
}
