#include "common.h"
#include <rpp/stack.h>
#include <rpp/heap.h>
#include <rpp/variant.h>
#include <rpp/rc.h>
// the drivers of the containers, with only the checks of lifetimes and storage
#undef CHECK
#define CHECK(c) do { if(!(c) && (strstr(#c, "alive") || strstr(#c, "bl0") || strstr(#c, "blocks"))) { char b_[512]; snprintf(b_, sizeof b_, "%s (line %d)", #c, __LINE__); fail(b_); } } while(0)
#define main main1
namespace d1 {
#include "C01.cpp"
}
#undef main
#define main main2
namespace d2 {
#include "C02.cpp"
}
#undef main
#define main main3
namespace d3 {
#include "C03.cpp"
}
#undef main
#define main main4
namespace d4 {
#include "C04.cpp"
}
#undef main
#include <rpp/heap.h>
#define main main5
namespace d5 {
#include "C05.cpp"
}
#undef main
#define main main8
namespace d8 {
#include "C08.cpp"
}
#undef main
#include <rpp/variant.h>
#define main main9
namespace d9 {
#include "C09.cpp"
}
#undef main
#include <rpp/rc.h>
#define main main10
namespace d10 {
#include "C10.cpp"
}
#undef main
int main(int argc, char** argv) {
    pid_t p[8]; int (*f[8])(int, char**) = {d1::main1, d2::main2, d3::main3, d4::main4, d5::main5, d8::main8, d9::main9, d10::main10};
    for(int i = 0; i < 8; i++) if(!(p[i] = fork())) { int r = f[i](argc, argv); fflush(stdout); _exit(r); }
    int bad = 0;
    for(int i = 0; i < 8; i++) { int s = 0; waitpid(p[i], &s, 0); if(s) bad = 1; }
    return bad;
}
