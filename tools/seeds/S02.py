id="S02-lookahead-nest"; property="C12"
needs="a forward AGO over a macro definition that contains another macro definition, with the same sequence symbol after the inner MEND and later in open code"
breaks="the branch finds the sequence symbol inside the macro definition instead of the one in open code"
file="parser_library/src/processing/statement_processors/lookahead_processor.cpp"
old="void lookahead_processor::process_MEND() { macro_nest_ -= macro_nest_ == 0 ? 0 : 1; }"
new="void lookahead_processor::process_MEND() { macro_nest_ = 0; }"
body=r'''
bool test()
{
    Program p("         AGO   .X\n         MACRO\n         OUTER\n         MACRO\n         INNER\n         MEND\n.X       ANOP\n&BAD     SETA  1\n         MEND\n&SKIP    SETA  5\n.X       ANOP\n&OK      SETA  2\n");
    return p.diags.empty() && p.A("OK") == 2 && p.A("SKIP") == 0 && p.A("BAD") == 0;
}
'''
