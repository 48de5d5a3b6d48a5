#include "hl_util.h"
#include <iostream>
#include <fstream>
#include <sstream>
int main(int c,char**v){ std::ifstream f(v[1]); std::stringstream s; s<<f.rdbuf(); hl::Program p(s.str()); std::cout<<p.show_diags()<<"\n"; 
 for(int i=2;i<c;++i){ auto var=p.ctx().get_var_sym(p.ctx().ids().add(v[i])); if(!var){std::cout<<v[i]<<" none\n";continue;} auto b=var->access_set_symbol_base(); if(!b) continue; 
  if(auto q=b->access_set_symbol<hl::context::A_t>()) std::cout<<v[i]<<"="<<q->get_value()<<"\n"; else if(auto q=b->access_set_symbol<hl::context::C_t>()) std::cout<<v[i]<<"='"<<q->get_value()<<"'\n"; }
 for(auto&[n,sy]:p.ctx().ord_ctx.get_all_symbols()){ std::cout<<*n<<" "; if(sy.kind()==hl::context::symbol_value_kind::ABS) std::cout<<sy.value().get_abs(); else if(sy.kind()==hl::context::symbol_value_kind::RELOC) std::cout<<"reloc "<<sy.value().get_reloc().offset(); else std::cout<<"undef"; std::cout<<" L"<<sy.attributes().length()<<"\n"; }
}
