// Strings: what the reader gets is what the caller passed (C02), and exactly the valid strings are accepted (C03).
#include "channels.hpp"
#ifndef NB
#define NB 2
#endif
static std::string subject(int k, int n) {
    std::string s;
    symbytes(s, n, "text");
    for(char c : s) capysym_assume(c != 0);
    char kind = CHANS[k].kind;
    if(kind == 'U') capysym_assume(utf8_ok(s));
    if(kind == 'A' || k == 21 || k == 25 || (k >= 30 && k <= 32) || k == 26) for(char c : s) capysym_assume((unsigned char)c < 128);
    if(kind == 'N') capysym_assume(s[0] != '/');
    if(k == 18) capysym_assume(s != "Off");
    return s;
}
extern "C" void harness(void) {
#ifdef NONBMP
    static const int some[] = {0, 6, 7, 14, 19, 20, 23, 29};
    int k = some[capysym_choice("channel", sizeof some / sizeof *some)];
    int n = 4;
#else
    int k = capysym_choice("channel", NCHAN);
    int n = 1 + capysym_choice("length", NB);
#endif
#ifdef DEBUGOUT
    bool dbg = capysym_choice("debug", 2);
#else
    bool dbg = false;
#endif
    std::string s = subject(k, n);
#ifdef NONBMP
    capysym_assume((unsigned char)s[0] >= 0xF0);
#endif
    ChanDoc c(k);
    if(dbg) c.d.debug();
    c.prepare();
    int rc = c.set(s.c_str(), n);
    C(rc == 0, "accepted:string");
    c.write();
    std::string v = c.value();
    C(v.size() == s.size(), CHANS[k].label);
    C(memcmp(v.data(), s.data(), s.size()) == 0, CHANS[k].label);
    capysym_reach(CHANS[k].label);
}
