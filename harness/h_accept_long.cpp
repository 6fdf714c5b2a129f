// Longer UTF-8 strings through one entry point (C03).
#include "channels.hpp"
#ifndef NB
#define NB 5
#endif
extern "C" void harness(void) {
    CapyPDF_Outline *o;
    env::init();
    OK(capy_outline_new, &o);
    std::string s;
    symbytes(s, NB, "text");
    bool nul = false;
    for(char c : s) nul |= c == 0;
    capysym_assume(!nul);
    char *buf = (char *)malloc(NB);
    memcpy(buf, s.data(), NB);
    bool want = utf8_ok(s);
    int rc = capy_outline_set_title(o, buf, NB);
    C((rc == 0) == want, want ? "accepted:valid-string" : "rejected:invalid-string");
    free(buf);
    capysym_reach(want ? "valid" : "invalid");
}
