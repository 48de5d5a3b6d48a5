// In-memory libraries and small helpers around the analyzer, shared by the language checks.
#pragma once
#include "verif.h"

#include <algorithm>
#include <memory>
#include <set>

#include "analyzer.h"
#include "context/hlasm_context.h"
#include "context/ordinary_assembly/ordinary_assembly_context.h"
#include "context/variables/set_symbol.h"
#include "processing/statement_analyzers/statement_analyzer.h"
#include "workspaces/parse_lib_provider.h"

#undef text // a macro of the generated parser
namespace hl {
using namespace hlasm_plugin::parser_library;

struct Diag
{
    std::string code, file, msg;
    size_t l1, c1, l2, c2;
    int sev;
    std::string str() const
    {
        return code + "@" + file + ":" + std::to_string(l1) + ":" + std::to_string(c1) + "-" + std::to_string(l2) + ":"
            + std::to_string(c2);
    }
    bool operator<(const Diag& o) const
    {
        return std::tie(file, l1, c1, l2, c2, code, msg) < std::tie(o.file, o.l1, o.c1, o.l2, o.c2, o.code, o.msg);
    }
    bool operator==(const Diag& o) const { return !(*this < o) && !(o < *this); }
};
inline std::vector<Diag> diags_of(const diagnosable& d)
{
    std::vector<Diag> v;
    for (auto& x : d.diags())
        v.push_back({ x.code, x.file_name, x.message, x.diag_range.start.line, x.diag_range.start.column,
            x.diag_range.end.line, x.diag_range.end.column, (int)x.severity });
    return v;
}

struct MemLibs : workspaces::parse_lib_provider
{
    std::map<std::string, std::string> files; // member name -> text; the file name is the member name
    asm_option opts;
    std::vector<Diag> diags; // of the members
    std::set<std::string> used;
    std::vector<std::unique_ptr<analyzer>> keep;
    std::atomic<bool>* cancel = nullptr;

    workspaces::parse_result parse_library(
        const std::string& library, analyzing_context ctx, const workspaces::library_data data) override
    {
        auto it = files.find(library);
        if (it == files.end())
            return false;
        used.insert(library);
        auto a = std::make_unique<analyzer>(it->second, library, std::move(ctx), *this, data, false);
        a->analyze(cancel);
        a->collect_diags();
        for (auto& d : diags_of(*a))
            diags.push_back(d);
        return true;
    }
    bool has_library(const std::string& library, const std::string&) const override { return files.count(library) > 0; }
    const asm_option& get_asm_options(const std::string&) override { return opts; }
};

// one complete analysis of a program
struct Program
{
    MemLibs libs;
    std::unique_ptr<analyzer> a;
    std::vector<Diag> diags;

    explicit Program(const std::string& text, std::map<std::string, std::string> files = {},
        processing::statement_analyzer* sa = nullptr, const std::string& name = "PROG", bool hl = false)
    {
        libs.files = std::move(files);
        a = std::make_unique<analyzer>(text, name, libs, hl);
        if (sa)
            a->register_stmt_analyzer(sa);
        a->analyze();
        a->collect_diags();
        diags = diags_of(*a);
        for (auto& d : libs.diags)
            diags.push_back(d);
    }
    context::hlasm_context& ctx() { return a->hlasm_ctx(); }
    std::string codes() const
    {
        std::vector<std::string> c;
        for (auto& d : diags)
            c.push_back(d.code);
        std::sort(c.begin(), c.end());
        std::string s;
        for (auto& x : c)
            s += x + ",";
        return s;
    }
    bool errors() const
    {
        for (auto& d : diags)
            if (d.sev == (int)diagnostic_severity::error)
                return true;
        return false;
    }
    std::string show_diags() const
    {
        auto v = diags;
        std::sort(v.begin(), v.end());
        std::string s;
        for (auto& d : v)
            s += d.str() + " [" + d.msg + "]; ";
        return s.substr(0, 1500);
    }
};

inline std::string lines(std::initializer_list<std::string> l)
{
    std::string s;
    for (auto& x : l)
        s += x + "\n";
    return s;
}
} // namespace hl
