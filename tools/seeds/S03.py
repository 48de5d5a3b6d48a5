id="S03-issym64"; property="C11"
needs="ISSYM of a name of exactly 64 characters"
breaks="ISSYM says that a 64 character string is a valid symbol"
file="parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp"
old="param.size() < 64"
new="param.size() <= 64"
body=r'''
bool test()
{
    Program p("&S       SETC  (64)'A'\n&T       SETC  (63)'A'\n&A       SETA  ISSYM('&S')\n&B       SETA  ISSYM('&T')\n");
    return p.A("A") == 0 && p.A("B") == 1;
}
'''
