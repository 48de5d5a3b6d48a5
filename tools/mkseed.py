#!/usr/bin/env python3
"""mkseed.py <spec.json>: writes /verif/seeded/<id>/ from {id, property, needs, breaks, file, old, new (or edits: [[file, old, new]]), body}
body: C++ of bool test() using run(text, files) -> Program; the demonstration fails when test() returns false"""
import json, os, subprocess, sys, shutil
UTIL = r'''
#include <atomic>
#include <cstdio>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "analyzer.h"
#include "context/hlasm_context.h"
#include "context/ordinary_assembly/ordinary_assembly_context.h"
#include "context/variables/set_symbol.h"
#include "workspaces/parse_lib_provider.h"
#undef text
using namespace hlasm_plugin::parser_library;
struct Libs : workspaces::parse_lib_provider
{
    std::map<std::string, std::string> files;
    asm_option opts;
    std::vector<diagnostic_s> diags;
    workspaces::parse_result parse_library(const std::string& l, analyzing_context ctx, const workspaces::library_data d) override
    {
        auto it = files.find(l);
        if (it == files.end())
            return false;
        analyzer a(it->second, l, std::move(ctx), *this, d, false);
        a.analyze();
        a.collect_diags();
        for (auto& x : a.diags())
            diags.push_back(x);
        return true;
    }
    bool has_library(const std::string& l, const std::string&) const override { return files.count(l) > 0; }
    const asm_option& get_asm_options(const std::string&) override { return opts; }
};
struct Program
{
    Libs libs;
    std::unique_ptr<analyzer> a;
    std::vector<diagnostic_s> diags;
    Program(std::string t, std::map<std::string, std::string> files = {})
    {
        libs.files = std::move(files);
        a = std::make_unique<analyzer>(t, "PROG", libs);
        a->analyze();
        a->collect_diags();
        for (auto& x : a->diags())
            diags.push_back(x);
        for (auto& x : libs.diags)
            diags.push_back(x);
        for (auto& d : diags)
            std::cout << d.code << " line " << d.diag_range.start.line << " " << d.message << "\n";
    }
    template<typename T>
    T var(std::string n, int i = -1)
    {
        auto v = a->hlasm_ctx().get_var_sym(a->hlasm_ctx().ids().add(n));
        if (!v || !v->access_set_symbol_base())
            return T();
        auto s = v->access_set_symbol_base()->access_set_symbol<T>();
        auto r = i < 0 ? s->get_value() : s->get_value(i);
        std::cout << n << " = " << r << "\n";
        return r;
    }
    int A(std::string n, int i = -1) { return var<int>(n, i); }
    std::string C(std::string n, int i = -1) { return var<std::string>(n, i); }
    const context::symbol* sym(std::string n) { return a->hlasm_ctx().ord_ctx.get_symbol(a->hlasm_ctx().ids().add(n)); }
    bool has(std::string code) { for (auto& d : diags) if (d.code == code) return true; return false; }
};
'''
MAIN = r'''
int main()
{
    bool ok = test();
    std::cout << (ok ? "as it should be" : "WRONG") << std::endl;
    return ok ? 0 : 1;
}
'''
for sp in sys.argv[1:]:
    g = {}
    exec(open(sp).read(), g)
    d = "/verif/seeded/" + g["id"]
    os.makedirs(d, exist_ok=True)
    edits = g.get("edits") or [(g["file"], g["old"], g["new"])]
    w = "/tmp/mkseed"
    shutil.rmtree(w, ignore_errors=True)
    patch = ""
    for f, old, new in edits:
        s = open("/repo/" + f).read()
        assert s.count(old) == 1, (f, s.count(old))
    files = {}
    for f, old, new in edits:
        files[f] = files.get(f, open("/repo/" + f).read()).replace(old, new)
    for f, s in files.items():
        os.makedirs(w + "/a/" + os.path.dirname(f), exist_ok=True); os.makedirs(w + "/b/" + os.path.dirname(f), exist_ok=True)
        shutil.copy("/repo/" + f, w + "/a/" + f); open(w + "/b/" + f, "w").write(s)
        patch += subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=w, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.cpp", "w").write((UTIL if not g.get("raw") else "") + g["body"] + (MAIN if not g.get("raw") else ""))
    shutil.copy("/verif/tools/demo.sh", d + "/demo.sh")
    json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(d)
