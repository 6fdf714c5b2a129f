#include "capysym.h"
#include <utils.hpp>
using namespace capypdf::internal;
static bool oracle(const unsigned char *p, size_t n) {
    size_t i = 0;
    while(i < n) {
        unsigned c = p[i];
        if(c < 0x80) { i++; continue; }
        size_t len = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : 2;
        if(c < 0xC2 || c > 0xF4 || i + len > n) return false;
        unsigned v = len == 2 ? c & 0x1F : len == 3 ? c & 0xF : c & 7;
        for(size_t k = 1; k < len; k++) { if((p[i + k] & 0xC0) != 0x80) return false; v = v << 6 | (p[i + k] & 0x3F); }
        if(len == 3 && v < 0x800) return false;
        if(len == 4 && (v < 0x10000 || v > 0x10FFFF)) return false;
        if(v >= 0xD800 && v < 0xE000) return false;
        i += len;
    }
    return true;
}
extern "C" void harness(void) {
    char buf[5];
    size_t n = capysym_choice("len", 5);
    capysym_bytes(buf, n, "text");
    for(size_t i = 0; i < n; i++) capysym_assume(buf[i] != 0);
    bool v = is_valid_utf8(std::string_view(buf, n));
    bool o = oracle((unsigned char *)buf, n);
    capysym_check(v == o, "utf8-validator");
    if(v) capysym_reach("valid"); else capysym_reach("invalid");
}
