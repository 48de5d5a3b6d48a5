id="S01-empty-open"; property="C06"
needs="an open document whose text is empty while the file on disk is not"
breaks="the text on disk replaces the empty text of the open document"
file="parser_library/src/workspaces/file_impl.cpp"
old="""    if (editing_)
        return false;
"""
new="""    if (editing_ && !text_.empty())
        return false;
"""
body=r'''
#include <fstream>
#include "workspaces/file_impl.h"
bool test()
{
    using namespace hlasm_plugin::parser_library::workspaces;
    std::ofstream("demo_file.hlasm") << " LR 1,2\n";
    file_impl f("demo_file.hlasm");
    f.did_open(" LR 1,3\n", 1);
    f.did_change(range(position(0, 0), position(1, 0)), "");
    f.update_and_get_bad();
    std::cout << "text: '" << f.get_text() << "'\n";
    return f.get_text() == "";
}
'''
