// The small workspace of the history checks: its files, their variants, the events and a fresh server.
#pragma once
#include "ws_util.h"

using namespace ws;
using namespace verif;

static std::string L(std::initializer_list<const char*> l)
{
    std::string s;
    for (auto x : l)
        s += std::string(x) + "\n";
    return s;
}

static const std::string GRPS = R"({"pgroups":[{"name":"G","libs":["lib"]}]})";
static const std::string GRPS2 = R"({"pgroups":[{"name":"G","libs":["lib2","lib"],"asm_options":{"SYSPARM":"SEVEN"}}]})";
static const std::string GRPS_BAD = R"({"pgroups":[{"name":"G","libs":)";
static const std::string PGMS = R"({"pgms":[{"program":"P","pgroup":"G"},{"program":"Q","pgroup":"G"}]})";
static const std::string PGMS_NOQ = R"({"pgms":[{"program":"P","pgroup":"G"}]})";
static const std::string PGMS_BAD = R"({"pgms":[{"program":"P",)";
static const std::string F_GRPS = ".hlasmplugin/proc_grps.json", F_PGMS = ".hlasmplugin/pgm_conf.json";

// the variants of every file, the first is what is on the disk at the beginning
static const std::map<std::string, std::vector<std::string>> VAR = {
    { "P", { L({ " MAC", "A EQU 1" }), L({ " COPY CPY", " LR 1" }), L({ " NAC", "&S(1) SETC '&SYSPARM'", " LR" }), L({ " LR 1,B" }) } },
    { "Q", { L({ "Q1 EQU 7", " MAC" }), L({ " LR A,1" }), L({ " COPY CPY", " MAC" }) } },
    { "lib/MAC", { L({ " MACRO", " MAC", "&V SETA 1", " LR 1,&V", " MEND" }), L({ " MACRO", " MAC", " LR 1", " MEND" }),
                   L({ " MACRO", " MAC", " COPY CPY", " MEND" }), L({ " MACRO", " MAC", " NAC", " MEND" }) } },
    { "lib/CPY", { L({ "B EQU 2" }), L({ "&X SETB 5,", " LR 3" }) } },
    { "lib/NAC", { "", L({ " MACRO", " NAC", "* n", " LR 9,9", " MEND" }), L({ " MACRO", " NAC &A,&A", " LR 9", " MEND" }),
                   L({ " MACRO", " OTHER &A,&A", " MEND" }) } }, // not there at the beginning
    { "lib2/X", { "* nothing\n" } },
    { "lib2/MAC", { "", L({ " MACRO", " MAC", " LR 2", " MEND" }) } },
    { F_GRPS, { GRPS, GRPS2, GRPS_BAD } },
    { F_PGMS, { PGMS, PGMS_NOQ, PGMS_BAD } },
};

struct Ev
{
    char kind; // o open, c change, x close, s save, w write outside the editor, d delete
    std::string file;
    int v = 0;
    std::string str() const
    {
        auto b = file.substr(file.rfind('/') + 1);
        if (file == "lib/MAC" || file == "lib/NAC" || file == "lib/CPY")
            b = b.substr(0, 1);
        if (file == "lib2/MAC")
            b = "M2";
        if (file == F_GRPS)
            b = "grps";
        if (file == F_PGMS)
            b = "pgms";
        return std::string(1, kind) + b + (kind == 'c' || kind == 'w' ? std::to_string(v) : "");
    }
};

struct Model
{
    std::map<std::string, int> disk; // file -> variant
    std::map<std::string, int> open;
    Model()
    {
        for (auto& [f, v] : VAR)
            if (!v[0].empty())
                disk[f] = 0;
    }
    bool enabled(const Ev& e) const
    {
        bool op = open.count(e.file), on = disk.count(e.file);
        switch (e.kind)
        {
            case 'o':
                return !op && on;
            case 'c':
                return op && open.at(e.file) != e.v;
            case 'x':
                return op;
            case 's':
                return op && (!on || disk.at(e.file) != open.at(e.file));
            case 'w':
                return !(on && disk.at(e.file) == e.v);
            case 'd':
                return on;
        }
        return false;
    }
    void apply(const Ev& e)
    {
        switch (e.kind)
        {
            case 'o':
                open[e.file] = disk[e.file];
                break;
            case 'c':
                open[e.file] = e.v;
                break;
            case 'x':
                open.erase(e.file);
                break;
            case 's':
                disk[e.file] = open[e.file];
                break;
            case 'w':
                disk[e.file] = e.v;
                break;
            case 'd':
                disk.erase(e.file);
                break;
        }
    }
    std::map<std::string, std::string> files() const
    {
        std::map<std::string, std::string> m;
        for (auto& [f, v] : disk)
            m[f] = VAR.at(f)[v];
        return m;
    }
    std::string str() const
    {
        std::string s;
        for (auto& [f, v] : disk)
            s += f + std::to_string(v) + " ";
        s += "| ";
        for (auto& [f, v] : open)
            s += f + std::to_string(v) + " ";
        return s;
    }
};

static Disk* disk;
static bool feats = true;

static std::string snapshot(Server& s, const Model& m)
{
    std::string r = s.diags();
    if (feats)
        for (auto& [f, v] : m.open)
            if (f[0] != '.')
                r += s.features(f, VAR.at(f)[v]);
    return r;
}
static void drive(Server& s, Model& m, const Ev& e)
{
    m.apply(e);
    switch (e.kind)
    {
        case 'o':
            s.open(e.file, VAR.at(e.file)[m.open[e.file]]);
            break;
        case 'c':
            s.change(e.file, VAR.at(e.file)[e.v]);
            break;
        case 'x':
            s.close(e.file);
            break;
        case 's':
        case 'w':
            disk->put(e.file, VAR.at(e.file)[m.disk[e.file]]);
            s.watched({ e.file });
            break;
        case 'd':
            disk->del(e.file);
            s.watched({ e.file });
            break;
    }
}
static std::map<std::string, std::string> cache;
static const std::string& fresh(const Model& m, bool callers = true)
{
    auto k = (callers ? "+" : "-") + m.str();
    auto it = cache.find(k);
    if (it != cache.end())
        return it->second;
    disk->set(m.files());
    Server s(*disk);
    s.callers = callers;
    for (auto f : { F_GRPS, F_PGMS, std::string("P"), std::string("Q"), std::string("lib/MAC"), std::string("lib/CPY"), std::string("lib/NAC") })
        if (m.open.count(f))
            s.open(f, VAR.at(f)[m.open.at(f)]);
    return cache[k] = snapshot(s, m);
}

static std::vector<Ev> changes(char k, const std::string& f)
{
    std::vector<Ev> r;
    for (int i = 0; i < (int)VAR.at(f).size(); ++i)
        if (!VAR.at(f)[i].empty())
            r.push_back({ k, f, i });
    return r;
}
// which program is named as the user of a member is open when there are several
static bool one_program(const std::vector<Ev>& h)
{
    return std::none_of(h.begin(), h.end(), [](const Ev& e) { return e.kind == 'o' && e.file == "Q"; });
}
static void operator+=(std::vector<Ev>& a, const std::vector<Ev>& b) { a.insert(a.end(), b.begin(), b.end()); }

