// Independent, strict reader for the PDF files the library writes (ISO 32000 syntax and file structure).
// It is the oracle: it shares nothing with the code under test.
#pragma once
#include "capysym.h"
#include <string>
#include <string_view>
#include <vector>
#include <utility>
#include <string.h>
#include <zlib.h>
namespace pdf {
struct Obj;
typedef std::vector<Obj> Arr;
enum K { Bad, Null, Bool, Int, Real, Str, Name, Array, Dict, Ref, Kw };
struct Obj {
    K k = Bad;
    long i = 0;            // Int, Bool, Ref (object number)
    double r = 0;          // Real / Int
    bool tok = false;      // r holds the exact bits of the value that was formatted
    std::string s;         // Str (decoded bytes), Name (decoded, no slash), Kw
    bool hex = false;      // Str written as hex
    Arr a;                 // Array elements, Dict values
    std::vector<std::string> keys;
    const Obj *get(const char *key) const {
        if(k != Dict) return nullptr;
        for(size_t n = 0; n < keys.size(); n++) if(keys[n] == key) return &a[n];
        return nullptr;
    }
    bool is(const char *name) const { return k == Name && s == name; }
    bool has(const char *key) const { return get(key) != nullptr; }
    bool name_is(const char *key, const char *val) const { auto *o = get(key); return o && o->is(val); }
    bool num() const { return k == Int || k == Real; }
};
inline bool ws(unsigned char c) { return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32; }
inline bool delim(unsigned char c) { return c == '(' || c == ')' || c == '<' || c == '>' || c == '[' || c == ']' || c == '{' || c == '}' || c == '/' || c == '%'; }
inline bool regular(unsigned char c) { return !ws(c) && !delim(c); }
// branch-free, so that a symbolic digit does not split the path
inline int hexv(unsigned char c) {
    unsigned d = (unsigned)c - '0', l = ((unsigned)c | 32) - 'a';
    int isd = d < 10, isl = l < 6;
    return (isd * (int)(d & 15)) + (isl * ((int)(l & 15) + 10)) - (1 - (isd | isl));
}

struct Lexer {
    const char *p, *e, *b;
    const char *err = nullptr;
    Lexer(std::string_view v) : p(v.data()), e(v.data() + v.size()), b(v.data()) {}
    bool fail(const char *m) { if(!err) err = m; return false; }
    size_t pos() const { return p - b; }
    void skip() {
        while(p < e) {
            unsigned char c = *p;
            if(ws(c)) p++;
            else if(c == '%') { while(p < e && *p != '\n' && *p != '\r') p++; }
            else break;
        }
    }
    bool at_end() { skip(); return p >= e; }
    bool lit(const char *s) { size_t n = strlen(s); if((size_t)(e - p) >= n && memcmp(p, s, n) == 0) { p += n; return true; } return false; }
    bool number(Obj &o) {
        const char *q = p;
        if(q < e && *q == '@') {            // the executor's token for a symbolic double
            if(e - q < 18 || q[17] != '$' || (e - q > 18 && regular(q[18]))) return false;
            uint64_t x = 0;
            for(int i = 1; i < 17; i++) x = x << 4 | (uint64_t)((q[i] - 'a') & 15);
            o.k = Real; o.i = 0; memcpy(&o.r, &x, 8); o.tok = true;
            p = q + 18;
            return true;
        }
        bool neg = false, dot = false; int digits = 0;
        if(q < e && (*q == '+' || *q == '-')) { neg = *q == '-'; q++; }
        long v = 0; double d = 0, scale = 1;
        while(q < e) {
            unsigned char c = *q;
            if(c >= '0' && c <= '9') { digits++; if(!dot) { if(digits < 19) v = v * 10 + (c - '0'); d = d * 10 + (c - '0'); } else { scale /= 10; d += (c - '0') * scale; } q++; }
            else if(c == '.') { if(dot) break; dot = true; q++; }
            else break;
        }
        if(!digits) return false;
        if(q < e && regular(*q)) return false;
        o.k = dot ? Real : Int; o.i = neg ? -v : v; o.r = neg ? -d : d;
        p = q;
        return true;
    }
    bool name(Obj &o) {          // at '/'
        p++;
        o.k = Name; o.s.clear();
        while(p < e) {
            unsigned char c = *p;
            if(!regular(c)) break;
            if(c < 33 || c > 126) return fail("name-byte-not-escaped");
            if(c == '#') {
                if(e - p < 3) return fail("name-bad-hex");
                int h = hexv(p[1]), l = hexv(p[2]);
                if(h < 0 || l < 0) return fail("name-bad-hex");
                if(h * 16 + l == 0) return fail("name-nul");
                o.s += (char)(h * 16 + l); p += 3;
            } else { o.s += (char)c; p++; }
        }
        if(o.s.empty()) return fail("empty-name");
        return true;
    }
    bool str(Obj &o) {           // at '('
        p++;
        o.k = Str; o.s.clear();
        int depth = 1;
        while(p < e) {
            unsigned char c = *p++;
            if(c == '\\') {
                if(p >= e) break;
                unsigned char x = *p++;
                if(x == 'n') o.s += '\n'; else if(x == 'r') o.s += '\r'; else if(x == 't') o.s += '\t';
                else if(x == 'b') o.s += '\b'; else if(x == 'f') o.s += '\f';
                else if(x >= '0' && x <= '7') {
                    int v = x - '0';
                    for(int n = 0; n < 2 && p < e && *p >= '0' && *p <= '7'; n++) v = v * 8 + (*p++ - '0');
                    o.s += (char)v;
                } else if(x == '\n') {}
                else if(x == '\r') { if(p < e && *p == '\n') p++; }
                else o.s += (char)x;
            } else if(c == '(') { depth++; o.s += '('; }
            else if(c == ')') { if(--depth == 0) return true; o.s += ')'; }
            else if(c == '\r') { o.s += '\n'; if(p < e && *p == '\n') p++; }
            else o.s += (char)c;
        }
        return fail("unterminated-string");
    }
    bool hexstr(Obj &o) {        // at '<'
        p++;
        o.k = Str; o.hex = true; o.s.clear();
        int hi = -1;
        while(p < e) {
            unsigned char c = *p++;
            if(c == '>') { if(hi >= 0) o.s += (char)(hi << 4); return true; }
            if(ws(c)) continue;
            int v = hexv(c);
            if(v < 0) return fail("bad-hex-string");
            if(hi < 0) hi = v; else { o.s += (char)(hi * 16 + v); hi = -1; }
        }
        return fail("unterminated-hex-string");
    }
    // Operand-level value; keywords come back as Kw.
    bool value(Obj &o, int depth = 0) {
        if(err) return false;
        if(depth > 20) return fail("nesting");
        skip();
        if(p >= e) return fail("unexpected-end");
        unsigned char c = *p;
        if(c == '/') return name(o);
        if(c == '(') return str(o);
        if(c == '<') {
            if(e - p > 1 && p[1] == '<') {
                p += 2;
                o.k = Dict;
                for(;;) {
                    skip();
                    if(p >= e) return fail("unterminated-dict");
                    if(*p == '>') { if(e - p < 2 || p[1] != '>') return fail("bad-dict-end"); p += 2; return true; }
                    Obj key;
                    if(*p != '/') return fail("dict-key-not-name");
                    if(!name(key)) return false;
                    for(auto &x : o.keys) if(x == key.s) return fail("duplicate-dict-key");
                    Obj v;
                    if(!valref(v, depth + 1)) return false;
                    if(v.k == Kw) return fail("keyword-in-dict");
                    o.keys.push_back(std::move(key.s));
                    o.a.push_back(std::move(v));
                }
            }
            return hexstr(o);
        }
        if(c == '[') {
            p++;
            o.k = Array;
            for(;;) {
                skip();
                if(p >= e) return fail("unterminated-array");
                if(*p == ']') { p++; return true; }
                Obj v;
                if(!valref(v, depth + 1)) return false;
                if(v.k == Kw) return fail("keyword-in-array");
                o.a.push_back(std::move(v));
            }
        }
        if((c >= '0' && c <= '9') || c == '+' || c == '-' || c == '.' || c == '@') { if(number(o)) return true; return fail("bad-number"); }
        if(delim(c)) return fail("stray-delimiter");
        o.k = Kw; o.s.clear();
        while(p < e && regular(*p)) o.s += *p++;
        if(o.s == "true" || o.s == "false") { o.k = Bool; o.i = o.s == "true"; }
        else if(o.s == "null") o.k = Null;
        return true;
    }
    bool valref(Obj &o, int depth) {
        if(!value(o, depth)) return false;
        if(o.k == Int && o.i >= 0 && p < e && *p != '.') {
            const char *save = p;
            skip();
            Obj g;
            if(p < e && *p >= '0' && *p <= '9' && number(g) && g.k == Int) {
                skip();
                if(p < e && *p == 'R' && (p + 1 == e || !regular(p[1]))) {
                    p++;
                    if(g.i != 0) return fail("nonzero-generation");
                    o.k = Ref;
                    return true;
                }
            }
            p = save;
        }
        return true;
    }
};

struct Entry { int type = 0; size_t off = 0; int stm = 0, idx = 0; Obj o; bool stream = false; std::string_view data; bool loaded = false; };
struct Doc {
    std::string_view file;
    const char *err = nullptr;
    long errinfo = 0;
    std::vector<Entry> x;
    Obj trailer;
    int version = 0;       // 14 for 1.4, 20 for 2.0
    bool xref_stream = false;
    bool strict_objstm = true;
    std::vector<std::string> inflated;
    bool fail(const char *m, long info = 0) { if(!err) { err = m; errinfo = info; } return false; }
    // Stored blocks with an all-zero checksum are what the model compressor emits; anything else goes to zlib.
    static bool stored(std::string_view in, std::string &out) {
        out.clear();
        if(in.size() < 11 || in[0] != 0x78 || in[1] != 1) return false;
        for(size_t i = in.size() - 4; i < in.size(); i++) if(in[i]) return false;
        size_t p = 2;
        for(;;) {
            if(in.size() - p < 9) return false;
            const unsigned char *q = (const unsigned char *)in.data() + p;
            unsigned len = q[1] | q[2] << 8, nlen = q[3] | q[4] << 8;
            if(q[0] > 1 || (len ^ nlen) != 65535 || in.size() - p - 9 < len) return false;
            out.append((const char *)q + 5, len);
            p += 5 + len;
            if(q[0] == 1) return p + 4 == in.size();
        }
    }
    static bool inflate_to(std::string_view in, std::string &out) {
        if(stored(in, out)) return true;
        z_stream z;
        memset(&z, 0, sizeof z);
        if(inflateInit(&z) != Z_OK) return false;
        out.assign(1 << 16, 0);
        z.next_in = (Bytef *)in.data(); z.avail_in = in.size();
        z.next_out = (Bytef *)out.data(); z.avail_out = out.size();
        int rc = inflate(&z, Z_FINISH);
        size_t used = z.total_in, n = z.total_out;
        inflateEnd(&z);
        if(rc != Z_STREAM_END || used != in.size()) return false;
        out.resize(n);
        return true;
    }
    // decoded content of a stream object
    bool content(int num, std::string &out) {
        Entry &en = x[num];
        if(!en.stream) return fail("not-a-stream", num);
        const Obj *f = en.o.get("Filter");
        if(!f) { out.assign(en.data); return true; }
        if(f->is("FlateDecode")) { if(!inflate_to(en.data, out)) return fail("inflate", num); return true; }
        if(opaque_filters && f->is("DCTDecode")) { out.assign(en.data); return true; }
        return fail("unknown-filter", num);
    }
    bool opaque_filters = false;        // accept streams of other libraries' formats
    bool indirect(size_t off, long expect_num, Entry &en, size_t *end) {
        if(off >= file.size()) return fail("offset-past-end", expect_num);
        Lexer L(file);
        L.p += off;
        Obj n, g;
        if(*L.p < '0' || *L.p > '9' || !L.number(n) || n.k != Int) return fail("offset-not-at-object", expect_num);
        if(n.i != expect_num) return fail("offset-at-wrong-object", expect_num);
        if(!L.lit(" 0 obj")) return fail("bad-obj-header", expect_num);
        if(L.p < L.e && regular(*L.p)) return fail("bad-obj-header", expect_num);
        if(!L.valref(en.o, 0)) return fail(L.err, expect_num);
        if(en.o.k == Kw) return fail("keyword-as-object", expect_num);
        L.skip();
        if(L.lit("stream")) {
            if(!L.lit("\r\n") && !L.lit("\n")) return fail("stream-eol", expect_num);
            const Obj *len = en.o.get("Length");
            if(!len || len->k != Int || len->i < 0) return fail("stream-length-missing", expect_num);
            if((size_t)len->i > (size_t)(L.e - L.p)) return fail("stream-length", expect_num);
            en.data = std::string_view(L.p, len->i);
            en.stream = true;
            L.p += len->i;
            L.lit("\r"); if(!L.lit("\n")) return fail("stream-length", expect_num);
            if(!L.lit("endstream")) return fail("stream-length", expect_num);
            L.skip();
        }
        if(!L.lit("endobj")) return fail("missing-endobj", expect_num);
        if(L.p < L.e && *L.p == '\n') L.p++;
        en.loaded = true;
        if(end) *end = L.pos();
        return true;
    }
    bool parse(std::string_view f) {
        file = f;
        if(f.size() < 20 || memcmp(f.data(), "%PDF-", 5) != 0) return fail("header");
        if(f[6] != '.' || f[8] != '\n') return fail("header");
        version = (f[5] - '0') * 10 + (f[7] - '0');
        if(f[9] != '%') return fail("binary-marker");
        for(int i = 10; i < 14; i++) if((unsigned char)f[i] < 128) return fail("binary-marker");
        if(f[14] != '\n') return fail("binary-marker");
        size_t cover = 15;
        // trailer part
        size_t sx = f.rfind("startxref\n");
        if(sx == std::string_view::npos) return fail("no-startxref");
        Lexer L(f);
        L.p += sx + 10;
        Obj n;
        if(!L.number(n) || n.k != Int) return fail("bad-startxref");
        if(!L.lit("\n%%EOF") ) return fail("no-eof-marker");
        L.lit("\n");
        if(L.p != L.e) return fail("trailing-bytes");
        size_t xo = n.i;
        if(xo >= f.size()) return fail("startxref-past-end");
        size_t tail;
        if(memcmp(f.data() + xo, "xref", 4) == 0) {
            Lexer X(f);
            X.p += xo;
            X.lit("xref");
            if(!X.lit("\n")) return fail("xref-syntax");
            Obj a, c;
            if(!X.number(a) || a.i != 0 || !X.lit(" ") || !X.number(c) || !X.lit("\n")) return fail("xref-syntax");
            for(long i = 0; i < c.i; i++) {
                if(X.e - X.p < 20) return fail("xref-short");
                const char *q = X.p;
                Entry en;
                size_t off = 0;
                for(int k = 0; k < 10; k++) { if(q[k] < '0' || q[k] > '9') return fail("xref-entry"); off = off * 10 + (q[k] - '0'); }
                if(q[10] != ' ' || q[16] != ' ' || q[18] != ' ' || q[19] != '\n') return fail("xref-entry");
                if(i == 0) { if(memcmp(q + 11, "65535 f", 7) != 0 || off != 0) return fail("xref-first-entry"); en.type = 0; }
                else { if(memcmp(q + 11, "00000 n", 7) != 0) return fail("xref-entry"); en.type = 1; en.off = off; }
                x.push_back(std::move(en));
                X.p += 20;
            }
            size_t xend = X.pos();
            X.skip();
            if(!X.lit("trailer")) return fail("no-trailer");
            if(!X.valref(trailer, 0) || trailer.k != Dict) return fail(X.err ? X.err : "trailer-syntax");
            X.skip();
            if(X.pos() != sx) return fail("trailer-tail");
            (void)xend;
            tail = xo;
            if(!load_all(cover, tail)) return false;
        } else {
            xref_stream = true;
            Lexer X(f);
            X.p += xo;
            Obj num;
            if(!X.number(num) || num.k != Int) return fail("startxref-not-at-xref");
            Entry en;
            size_t end = 0;
            if(!indirect(xo, num.i, en, &end)) return false;
            if(end != sx) return fail("xref-stream-tail");
            if(!en.stream || !en.o.name_is("Type", "XRef")) return fail("startxref-not-at-xref");
            std::string d;
            const Obj *fl = en.o.get("Filter");
            if(fl) { if(!fl->is("FlateDecode") || !inflate_to(en.data, d)) return fail("xref-inflate"); }
            else d.assign(en.data);
            const Obj *W = en.o.get("W"), *size = en.o.get("Size");
            if(!W || W->k != Array || W->a.size() != 3) return fail("xref-W");
            size_t w[3], tot = 0;
            for(int i = 0; i < 3; i++) { if(W->a[i].k != Int || W->a[i].i < 0 || W->a[i].i > 8) return fail("xref-W"); w[i] = W->a[i].i; tot += w[i]; }
            if(!size || size->k != Int || en.o.has("Index")) return fail("xref-size");
            if(tot == 0 || d.size() != tot * (size_t)size->i) return fail("xref-size");
            const unsigned char *q = (const unsigned char *)d.data();
            auto fld = [&](size_t n) { size_t v = 0; while(n--) v = v << 8 | *q++; return v; };
            for(long i = 0; i < size->i; i++) {
                Entry e2;
                size_t t = w[0] ? fld(w[0]) : 1, a = fld(w[1]), b2 = fld(w[2]);
                if(i == 0) { if(t != 0) return fail("xref-first-entry"); }
                else if(t == 1) { if(b2 != 0) return fail("nonzero-generation"); e2.type = 1; e2.off = a; }
                else if(t == 2) { e2.type = 2; e2.stm = (int)a; e2.idx = (int)b2; }
                else return fail("xref-entry-type", i);
                x.push_back(std::move(e2));
            }
            if(num.i < 0 || num.i >= (long)x.size() || x[num.i].type != 1 || x[num.i].off != xo) return fail("xref-self-entry");
            trailer = en.o;
            if(!load_all(cover, sx)) return false;
        }
        const Obj *size = trailer.get("Size");
        if(!size || size->k != Int || size->i != (long)x.size()) return fail("trailer-size");
        // every reference resolves
        for(size_t i = 1; i < x.size(); i++) if(!refs(x[i].o)) return false;
        if(!refs(trailer)) return false;
        for(size_t i = 1; i < x.size(); i++) if(x[i].stream && x[i].o.name_is("Filter", "FlateDecode")) { std::string d; if(!content((int)i, d)) return false; }
        const Obj *root = trailer.get("Root");
        if(!root || root->k != Ref || !x[root->i].o.name_is("Type", "Catalog")) return fail("root-not-catalog");
        const Obj *info = trailer.get("Info");
        if(info && (info->k != Ref || x[info->i].o.k != Dict || x[info->i].o.has("Type"))) return fail("info");
        const Obj *id = trailer.get("ID");
        if(!id || id->k != Array || id->a.size() != 2 || id->a[0].k != Str || id->a[0].s != id->a[1].s || id->a[0].s.size() != 16) return fail("trailer-id");
        if(xref_stream ? version < 15 : false) return fail("xref-stream-in-old-version");
        return true;
    }
    bool refs(const Obj &o) {
        if(o.k == Ref) {
            if(o.i <= 0 || o.i >= (long)x.size()) return fail("dangling-reference", o.i);
            return true;
        }
        if(o.k == Array || o.k == Dict) for(auto &c : o.a) if(!refs(c)) return false;
        return true;
    }
    // Loads every object; together they must tile [cover, tail) exactly.
    bool load_all(size_t cover, size_t tail) {
        size_t at = cover;
        std::vector<int> order;
        for(size_t i = 1; i < x.size(); i++) if(x[i].type == 1) {
            size_t k = order.size();
            order.push_back((int)i);
            while(k > 0 && x[order[k - 1]].off > x[i].off) { order[k] = order[k - 1]; k--; }
            order[k] = (int)i;
        }
        for(int i : order) {
            if(x[i].off != at) return fail("object-offset", i);
            if(!indirect(x[i].off, i, x[i], &at)) return false;
        }
        if(at != tail) return fail("bytes-outside-objects", at);
        for(size_t i = 1; i < x.size(); i++) if(x[i].type == 2) {
            if(x[i].stm <= 0 || x[i].stm >= (int)x.size() || x[x[i].stm].type != 1 || !x[x[i].stm].o.name_is("Type", "ObjStm")) return fail("bad-objstm-ref", i);
        }
        for(size_t s = 1; s < x.size(); s++) {
            if(x[s].type != 1 || !x[s].stream || !x[s].o.name_is("Type", "ObjStm")) continue;
            std::string body;
            if(!content((int)s, body)) return false;
            const Obj *N = x[s].o.get("N"), *first = x[s].o.get("First");
            if(!N || N->k != Int || !first || first->k != Int || first->i < 0 || (size_t)first->i > body.size()) return fail("objstm-dict");
            Lexer H(std::string_view(body).substr(0, first->i));
            std::vector<long> nums, offs;
            for(long i = 0; i < N->i; i++) {
                Obj a, b2;
                H.skip();
                if(!H.number(a) || a.k != Int) return fail("objstm-header");
                H.skip();
                if(!H.number(b2) || b2.k != Int) return fail("objstm-header");
                nums.push_back(a.i);
                offs.push_back(b2.i);
            }
            if(!H.at_end()) return fail("objstm-header");
            for(long i = 0; i < N->i; i++) {
                if(nums[i] <= 0 || nums[i] >= (long)x.size()) return fail("objstm-number");
                Entry &en = x[nums[i]];
                if(en.type != 2 || en.stm != (int)s || en.idx != i) return fail("objstm-xref-mismatch", nums[i]);
                size_t lo = first->i + offs[i], hi = i + 1 < N->i ? first->i + offs[i + 1] : body.size();
                if(lo > hi || hi > body.size()) return fail("objstm-offset", nums[i]);
                if(i == 0 && offs[i] != 0) return fail("objstm-offset", nums[i]);
                Lexer B(std::string_view(body).substr(lo, hi - lo));
                if(!B.valref(en.o, 0) || en.o.k == Kw) return fail(B.err ? B.err : "objstm-object", nums[i]);
                if(!B.at_end()) return fail("objstm-object-tail", nums[i]);
                if(hi < body.size() && regular(body[hi - 1]) && regular(body[hi])) return fail("objstm-object-tail", nums[i]);
                en.loaded = true;
            }
        }
        for(size_t i = 1; i < x.size(); i++) if(!x[i].loaded) return fail("object-missing", i);
        return true;
    }
    const Obj *deref(const Obj *o) const { if(o && o->k == Ref) return o->i > 0 && o->i < (long)x.size() ? &x[o->i].o : nullptr; return o; }
    const Obj *get(const Obj *d, const char *key) const { return d ? deref(d->get(key)) : nullptr; }
    const Obj *catalog() const { return deref(trailer.get("Root")); }
    std::vector<int> pages() {
        std::vector<int> r;
        const Obj *pg = get(catalog(), "Pages");
        if(!pg || !pg->name_is("Type", "Pages")) { fail("no-pages-root"); return r; }
        const Obj *kids = pg->get("Kids"), *cnt = pg->get("Count");
        if(!kids || kids->k != Array || !cnt || cnt->k != Int || cnt->i != (long)kids->a.size()) { fail("page-tree"); return r; }
        for(auto &k : kids->a) {
            if(k.k != Ref || !x[k.i].o.name_is("Type", "Page")) { fail("page-tree-kid"); return r; }
            const Obj *par = x[k.i].o.get("Parent");
            if(!par || par->k != Ref || deref(par) != pg) { fail("page-parent"); return r; }
            for(int o : r) if(o == (int)k.i) { fail("page-twice"); return r; }
            r.push_back((int)k.i);
        }
        return r;
    }
    int objnum(const Obj *o) const { for(size_t i = 0; i < x.size(); i++) if(&x[i].o == o) return (int)i; return -1; }
};
}
