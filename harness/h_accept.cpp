// Exactly the valid strings are accepted (C03): every string-taking entry point, every byte value.
#include "channels.hpp"
#ifndef NB
#define NB 3
#endif
// what the entry point promises to take
static char klass(int k) {
    char c = CHANS[k].kind;
    if(k == 28) return 'Z';                                     // any bytes but NUL
    if(k == 21 || k == 25 || k == 26) return 'a';               // names restricted to ASCII
    if(k == 30 || k == 31 || k == 32) return 'a';
    return c;
}
static bool ascii(const std::string &s) { bool ok = true; for(char c : s) ok = ok & ((unsigned char)c < 128); return ok; }
static bool nonul(const std::string &s) { bool ok = true; for(char c : s) ok = ok & (c != 0); return ok; }
static bool expected(int k, const std::string &s) {
    char c = klass(k);
    if(c == 'B') return true;
    if(!nonul(s)) return false;
    if(c == 'U') return utf8_ok(s);
    if(c == 'A' || c == 'a') return ascii(s);
    return true;
}
extern "C" void harness(void) {
    int k = capysym_choice("channel", NCHAN);
    int mode = 1 + capysym_choice("mode", 3);
    ChanDoc c(k);
    c.prepare();
    bool cstr = k == 23 || k == 33;              // these take a NUL terminated string only
    if(mode == 1) {                              // nonsensical size
        if(cstr) return;
        int n = (int)capysym_range("size", -100, -2);
        C(c.set("abc", n) != 0, "negative-size-rejected");
        capysym_reach("negative");
        return;
    }
    int n = 1 + capysym_choice("length", NB);
    std::string s;
    symbytes(s, n, "text");
    bool terminated = mode == 2 || cstr;
    if(cstr && mode == 3) return;
    if(terminated) for(char ch : s) capysym_assume(ch != 0);
    if(CHANS[k].kind == 'N') capysym_assume(s[0] != '/');
    if(k == 18) capysym_assume(s != "Off");
    if(terminated && CHANS[k].kind == 'B') return;   // raw bytes always come with a size
    char *buf = (char *)malloc(n + (terminated ? 1 : 0));   // exactly as many bytes as promised: an overread is caught
    memcpy(buf, s.data(), n);
    if(terminated) buf[n] = 0;
    bool want = expected(k, s);
    int rc = c.set(buf, terminated ? -1 : n);
    if(k == 15 || k == 17) {                     // a field's value is a string or a name depending on its type: judged when the file is written
        C(rc == 0, "accepted:field-value");
        c.d.add(c.dc);
        rc = capy_generator_write(c.d.g);
    }
    C((rc == 0) == want, want ? "accepted:valid-string" : "rejected:invalid-string");
    free(buf);
    capysym_reach(CHANS[k].label);
    if(!want) capysym_reach("rejected");
}
