#include "env.hpp"
#include "capysym.h"
#include <stdexcept>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <filesystem>
#include <system_error>
#include <chrono>
#define MODEL extern "C" __attribute__((used))
namespace env {
Env *E;
void init() { E = new Env; E->files.reserve(64); }
File *find(const char *name) {
    for(auto &f : E->files) if(f.exists && f.name == name) return &f;
    return nullptr;
}
void put(const char *name, const char *data, size_t n) {
    File *f = find(name);
    if(!f) { E->files.emplace_back(); f = &E->files.back(); f->name = name; }
    f->data.assign(data, n); f->flushed = f->synced = f->data; f->ever_synced = true;
}
struct Handle { int file; size_t pos; bool write; };
static bool fails() {
    if(!E->faults) return false;
    return E->opno++ == E->fail_at;
}
static bool op(char k, int file, size_t n) {
    if(E->on_op) E->on_op(k);
    bool bad = fails();
    E->ops.push_back({k, file, n, !bad});
    return !bad;
}
}
using namespace env;
static Handle *H(FILE *f) { return (Handle *)f; }
MODEL FILE *model_fopen(const char *name, const char *mode) {
    bool w = mode[0] == 'w' || mode[0] == 'a';
    File *f = find(name);
    if(!w) {
        if(!f) { errno = ENOENT; return nullptr; }
        return (FILE *)new Handle{int(f - E->files.data()), 0, false};
    }
    if(!op('o', -1, 0)) { errno = EACCES; return nullptr; }
    if(!f) { E->files.emplace_back(); f = &E->files.back(); f->name = name; }
    f->data.clear(); f->flushed.clear(); f->open_writers++;
    return (FILE *)new Handle{int(f - E->files.data()), 0, true};
}
MODEL FILE *model_tmpfile() {
    E->files.emplace_back(); File *f = &E->files.back(); f->name = "\x01tmp"; f->open_writers++;
    return (FILE *)new Handle{int(f - E->files.data()), 0, true};
}
MODEL int model_fclose(FILE *fp) {
    Handle *h = H(fp); File &f = E->files.at(h->file);
    bool ok = true;
    if(h->write) { ok = op('c', h->file, 0); f.open_writers--; if(ok) f.flushed = f.data; }
    delete h;
    return ok ? 0 : EOF;
}
MODEL size_t model_fwrite(const void *p, size_t sz, size_t n, FILE *fp) {
    Handle *h = H(fp); File &f = E->files.at(h->file);
    size_t len = sz * n;
    if(!len) return 0;
    bool ok = op('w', h->file, len);
    if(!ok) {
        errno = ENOSPC;
        if(E->fail_mode == 0) return 0;
        size_t half = (n / 2) * sz;
        f.data.append((const char *)p, half); h->pos += half;
        return n / 2;
    }
    if(h->pos == f.data.size()) f.data.append((const char *)p, len);
    else { if(f.data.size() < h->pos + len) f.data.resize(h->pos + len); memcpy(f.data.data() + h->pos, p, len); }
    h->pos += len;
    return n;
}
MODEL size_t model_fread(void *p, size_t sz, size_t n, FILE *fp) {
    Handle *h = H(fp); File &f = E->files.at(h->file);
    size_t left = h->pos < f.data.size() ? f.data.size() - h->pos : 0;
    if(!sz) return 0;
    size_t k = left / sz < n ? left / sz : n;
    if(k) memcpy(p, f.data.data() + h->pos, k * sz);
    h->pos += k * sz;
    return k;
}
MODEL int model_fseek(FILE *fp, long off, int wh) {
    Handle *h = H(fp); File &f = E->files.at(h->file);
    long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)h->pos : (long)f.data.size();
    if(base + off < 0) { errno = EINVAL; return -1; }
    h->pos = base + off;
    return 0;
}
MODEL long model_ftell(FILE *fp) { return (long)H(fp)->pos; }
MODEL int model_fflush(FILE *fp) {
    if(!fp) { for(auto &f : E->files) f.flushed = f.data; return 0; }
    if(!op('f', H(fp)->file, 0)) return EOF;
    File &f = E->files.at(H(fp)->file);
    f.flushed = f.data;
    return 0;
}
MODEL int model_fileno(FILE *fp) { return 1000 + H(fp)->file; }
MODEL int model_fsync(int fd) {
    int i = fd - 1000;
    if(i < 0 || i >= (int)E->files.size()) { errno = EBADF; return -1; }
    if(!op('s', i, 0)) { errno = EIO; return -1; }
    E->files[i].synced = E->files[i].flushed;   /* what is still in the stdio buffer is not synced */ E->files[i].ever_synced = true;
    return 0;
}
MODEL int model_fdatasync(int fd) { return model_fsync(fd); }
MODEL void *model_mmap(void *, size_t n, int, int, int fd, long) {
    int i = fd - 1000;
    if(i < 0 || i >= (int)E->files.size() || n == 0) { errno = EINVAL; return (void *)-1; }
    File &f = E->files[i];
    char *b = (char *)malloc(n);
    memcpy(b, f.data.data(), n < f.data.size() ? n : f.data.size());
    return b;
}
MODEL int model_munmap(void *p, size_t) { free(p); return 0; }
static int do_rename(const char *a, const char *b) {
    File *f = find(a);
    if(!f) { errno = ENOENT; return -1; }
    if(!op('r', int(f - E->files.data()), 0)) { errno = EIO; return -1; }
    E->renames++;
    E->rename_src_synced = f->synced; E->rename_src_ever_synced = f->ever_synced; E->rename_open_writers = f->open_writers; E->rename_content = f->data;
    File *g = find(b);
    if(g && g != f) g->exists = false;
    f->name = b;
    return 0;
}
MODEL int model_rename(const char *a, const char *b) { return do_rename(a, b); }
MODEL int model_remove(const char *a) { File *f = find(a); if(!f) { errno = ENOENT; return -1; } f->exists = false; return 0; }
MODEL int model_unlink(const char *a) { return model_remove(a); }
MODEL void model__ZNSt10filesystem6renameERKNS_7__cxx114pathES3_RSt10error_code(const std::filesystem::path &a, const std::filesystem::path &b, std::error_code &ec) {
    if(do_rename(a.c_str(), b.c_str()) != 0) ec.assign(EIO, std::generic_category());
    else ec.clear();
}
MODEL void model__ZNSt10filesystem6renameERKNS_7__cxx114pathES3_(const std::filesystem::path &a, const std::filesystem::path &b) {
    if(do_rename(a.c_str(), b.c_str()) != 0) throw std::runtime_error("rename");
}
MODEL bool model__ZNSt10filesystem6removeERKNS_7__cxx114pathERSt10error_code(const std::filesystem::path &a, std::error_code &ec) {
    ec.clear();
    return model_remove(a.c_str()) == 0;
}
MODEL bool model__ZNSt10filesystem6removeERKNS_7__cxx114pathE(const std::filesystem::path &a) { return model_remove(a.c_str()) == 0; }
// the message would spell out a possibly symbolic index
MODEL void model__ZSt24__throw_out_of_range_fmtPKcz(const char *, ...) { throw std::out_of_range("index"); }
MODEL int64_t model__ZNSt6chrono3_V212system_clock3nowEv() { return 1700000000ll * 1000000000ll; }
MODEL void model__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, const std::string &) {}
MODEL void model__ZNSt13random_device7_M_finiEv(void *) {}
MODEL unsigned model__ZNSt13random_device9_M_getvalEv(void *) { static unsigned n = 0x1234567; return n = n * 1103515245u + 12345u; }
MODEL long model_time(long *t) { if(t) *t = 1700000000; return 1700000000; }
// zlib compression as stored blocks (a valid deflate encoding up to the checksum), so that symbolic bytes pass through.
#include <zlib.h>
namespace { struct Defl { std::string out; size_t pos = 0; bool finished = false; }; }
MODEL int model_deflateInit_(z_stream *s, int level, const char *, int size) {
    if(level < -1 || level > 9) return Z_STREAM_ERROR;
    if(size != (int)sizeof(z_stream)) return Z_VERSION_ERROR;
    if(!op('z', -1, 0)) return Z_MEM_ERROR;
    s->state = (decltype(s->state))new Defl;
    s->total_in = s->total_out = 0; s->msg = nullptr; s->adler = 1;
    return Z_OK;
}
MODEL int model_deflateInit2_(z_stream *s, int level, int, int, int, int, const char *v, int size) { return model_deflateInit_(s, level, v, size); }
MODEL int model_deflate(z_stream *s, int flush) {
    Defl *d = (Defl *)s->state;
    if(!d || (s->avail_in && !s->next_in) || flush < 0 || flush > Z_BLOCK) return Z_STREAM_ERROR;
    if(s->avail_out == 0) return Z_BUF_ERROR;
    if(d->finished && s->avail_in) return Z_BUF_ERROR;
    if(d->out.empty()) d->out.assign("\x78\x01", 2);
    while(s->avail_in) {
        unsigned n = s->avail_in < 65535 ? s->avail_in : 65535;
        char h[5] = {0, (char)(n & 255), (char)(n >> 8), (char)(~n & 255), (char)(~n >> 8 & 255)};
        d->out.append(h, 5);
        d->out.append((const char *)s->next_in, n);
        s->next_in += n; s->avail_in -= n; s->total_in += n;
    }
    if(flush == Z_FINISH && !d->finished) { d->out.append("\x01\x00\x00\xff\xff\x00\x00\x00\x00", 9); d->finished = true; }
    size_t left = d->out.size() - d->pos, k = left < s->avail_out ? left : s->avail_out;
    memcpy(s->next_out, d->out.data() + d->pos, k);
    d->pos += k; s->next_out += k; s->avail_out -= k; s->total_out += k;
    return d->finished && d->pos == d->out.size() ? Z_STREAM_END : Z_OK;
}
MODEL int model_deflateEnd(z_stream *s) {
    Defl *d = (Defl *)s->state;
    if(!d) return Z_STREAM_ERROR;
    bool fin = d->finished && d->pos == d->out.size();
    delete d; s->state = nullptr;
    return fin ? Z_OK : Z_DATA_ERROR;
}
