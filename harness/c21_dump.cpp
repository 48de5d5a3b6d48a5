// Writes the instruction tables of the tree in the form of harness/c21_table.inc (a tool, not a check).
#include <iostream>
#include "context/instruction.h"
using namespace hlasm_plugin::parser_library;
int main()
{
    for (auto& [n, i] : context::instruction::machine_instructions)
    {
        std::cout << "M " << n << ' ' << context::instruction::mach_format_to_string.at(i.format) << ' ' << i.size_for_alloc / 8 << ' ' << i.no_optional;
        for (auto& o : i.operands)
            std::cout << ' ' << o.to_string();
        std::cout << '\n';
    }
    for (auto& [n, m] : context::instruction::mnemonic_codes)
    {
        std::cout << "X " << n << ' ' << m.instruction->instr_name;
        for (auto& [p, v] : m.replaced)
            std::cout << ' ' << p << '=' << v;
        std::cout << '\n';
    }
}
