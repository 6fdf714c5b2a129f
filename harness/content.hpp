// Oracle for content streams: operator grammar, nesting, resources.
#pragma once
#include "doc.hpp"
#include <math.h>
namespace content {
struct Op { std::string op; std::vector<pdf::Obj> args; };
struct Spec { const char *op, *sig; };   // n number, i integer, N name, S string, D dictionary, P dictionary or name, A array of numbers, T array of strings and numbers, * numbers then optionally a name
static const Spec OPS[] = {
    {"b", ""}, {"B", ""}, {"b*", ""}, {"B*", ""}, {"BDC", "NP"}, {"BMC", "N"}, {"BT", ""}, {"c", "nnnnnn"}, {"cm", "nnnnnn"}, {"CS", "N"}, {"cs", "N"}, {"d", "An"}, {"Do", "N"}, {"EMC", ""}, {"ET", ""},
    {"f", ""}, {"f*", ""}, {"G", "n"}, {"g", "n"}, {"gs", "N"}, {"h", ""}, {"i", "n"}, {"j", "i"}, {"J", "i"}, {"K", "nnnn"}, {"k", "nnnn"}, {"l", "nn"}, {"m", "nn"}, {"M", "n"}, {"n", ""}, {"q", ""}, {"Q", ""}, {"re", "nnnn"},
    {"RG", "nnn"}, {"rg", "nnn"}, {"ri", "N"}, {"s", ""}, {"S", ""}, {"SCN", "*"}, {"scn", "*"}, {"sh", "N"}, {"T*", ""}, {"Tc", "n"}, {"Td", "nn"}, {"TD", "nn"}, {"Tf", "Nn"}, {"Tj", "S"}, {"TJ", "T"}, {"TL", "n"}, {"Tm", "nnnnnn"}, {"Tr", "i"}, {"Ts", "n"}, {"Tw", "n"}, {"Tz", "n"},
    {"v", "nnnn"}, {"w", "n"}, {"W", ""}, {"W*", ""}, {"y", "nnnn"},
};
inline bool sig_ok(const char *sig, const std::vector<pdf::Obj> &a) {
    if(*sig == '*') {
        if(a.empty()) return false;
        for(size_t i = 0; i < a.size(); i++) if(!a[i].num() && !(i + 1 == a.size() && a[i].k == pdf::Name)) return false;
        return true;
    }
    if(strlen(sig) != a.size()) return false;
    for(size_t i = 0; i < a.size(); i++) switch(sig[i]) {
        case 'n': if(!a[i].num()) return false; break;
        case 'i': if(a[i].k != pdf::Int) return false; break;
        case 'N': if(a[i].k != pdf::Name) return false; break;
        case 'S': if(a[i].k != pdf::Str) return false; break;
        case 'P': if(a[i].k != pdf::Name && a[i].k != pdf::Dict) return false; break;
        case 'A': if(a[i].k != pdf::Array) return false; for(auto &x : a[i].a) if(!x.num()) return false; break;
        case 'T': if(a[i].k != pdf::Array) return false; for(auto &x : a[i].a) if(!x.num() && x.k != pdf::Str) return false; break;
    }
    return true;
}
// Parses and checks grammar and nesting.
inline std::vector<Op> parse(const std::string &s) {
    std::vector<Op> r;
    pdf::Lexer L(s);
    std::vector<pdf::Obj> args;
    std::string stack;      // q t m
    while(!L.at_end()) {
        pdf::Obj o;
        C(L.value(o), L.err ? L.err : "content-token");
        if(o.k != pdf::Kw) { C(o.k != pdf::Ref, "content-reference"); args.push_back(std::move(o)); continue; }
        const Spec *sp = nullptr;
        for(auto &x : OPS) if(o.s == x.op) sp = &x;
        C(sp, "content-unknown-operator");
        C(sig_ok(sp->sig, args), "content-operands");
        bool text = stack.find('t') != std::string::npos;
        if(o.s == "q") { C(!text, "q-inside-text"); stack += 'q'; }
        else if(o.s == "Q") { C(!stack.empty() && stack.back() == 'q', "Q-unbalanced"); stack.pop_back(); }
        else if(o.s == "BT") { C(!text, "nested-text"); stack += 't'; }
        else if(o.s == "ET") { C(!stack.empty() && stack.back() == 't', "ET-unbalanced"); stack.pop_back(); }
        else if(o.s == "BMC" || o.s == "BDC") stack += 'm';
        else if(o.s == "EMC") { C(!stack.empty() && stack.back() == 'm', "EMC-unbalanced"); stack.pop_back(); }
        else if(o.s[0] == 'T' || o.s == "Tr") { bool state = o.s == "Tc" || o.s == "TL" || o.s == "Tr" || o.s == "Ts" || o.s == "Tw" || o.s == "Tz" || o.s == "Tf"; C(text || state, "text-operator-outside-text"); }
        else if(o.s == "m" || o.s == "l" || o.s == "c" || o.s == "v" || o.s == "y" || o.s == "h" || o.s == "re" || o.s == "cm" || o.s == "Do" || o.s == "sh" || o.s == "f" || o.s == "S") C(!text, "graphics-operator-inside-text");
        r.push_back({std::move(o.s), std::move(args)});
        args.clear();
    }
    C(args.empty(), "content-trailing-operands");
    C(stack.empty(), "content-unbalanced");
    return r;
}
inline bool biteq(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
// is this operand the number v?
inline bool is_num(const pdf::Obj &o, double v) {
    if(!o.num()) return false;
    if(o.tok) return biteq(o.r, v);
    double r = o.r, d = r > v ? r - v : v - r, m = v < 0 ? -v : v;
    return d <= 1e-6 + m * 1e-12;
}
inline bool nums(const Op &o, std::initializer_list<double> v) {
    if(o.args.size() != v.size()) return false;
    bool ok = true;
    size_t i = 0;
    for(double x : v) ok = is_num(o.args[i++], x) & ok;
    return ok;
}
}
// A symbolic number whose decimal text with six places determines it: +-m * 2^e with 8 mantissa bits, 2^-6 <= |x| < 2^10
inline double symnum(const char *name, bool neg = true) {
    uint64_t b = capysym_sym(name, 13);
    uint64_t sign = neg ? b >> 12 & 1 : 0, e = b >> 8 & 15, m = b & 255;
    uint64_t x = sign << 63 | (1023 - 6 + e) << 52 | m << 44;
    double d;
    memcpy(&d, &x, 8);
    return d;
}
// the same with an alternating fixed sign: a symbolic sign doubles the paths when the number is formatted
inline double symnum_a(const char *name) { static int n; double d = symnum(name, false); return ++n & 1 ? -d : d; }
inline double clamp01(double v) { return v < 0 ? 0 : v > 1 ? 1 : v; }
