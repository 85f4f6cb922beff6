// The program, with its entry point under another name.
#define main gbdt_main
#include "src/main.cc"
