// the tabulated 8 bit float cannot share a translation unit with the posits
#include "binary8.hpp"
#include "prt.hpp"
int main(int c,char**v) { mon::init(c,v); tab<binary8tab>("binary8tab",8,"binary8tab"); return mon::finish(); }
