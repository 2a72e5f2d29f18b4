// Concrete implementation of vh_* : reads the inputs of one scenario from a file, runs it against
// the real code under sanitizers and prints what it observed.
#include "pico-cnn.h"
#include "vh.h"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <map>
#include <vector>
#include <string>
#include <unistd.h>
#include <jpeglib.h>
#include <sanitizer/allocator_interface.h>
using namespace pico_cnn::naive;
struct In { std::map<std::string, uint32_t> u; std::map<std::string, float> f; std::map<std::string, std::vector<float>> t; };
struct Reg { std::string name; const void *t; const float *d; size_t n; };
static In *in; static std::vector<Reg> *regs; static std::map<const void *, uint32_t> *arrs;
static std::string *scratch;
static long live = 0; static bool counting = false; static int stage = 0; static std::map<const void *, int> *livemap;
static bool inhook = false;
static void on_malloc(const volatile void *p, size_t) { if (!counting || inhook) return; inhook = true; live++; (*livemap)[(const void *) p] = 1; inhook = false; }
static void on_free(const volatile void *p) { if (!counting || inhook || !p) return; inhook = true; if (livemap->erase((const void *) p)) live--; inhook = false; }
struct Quiet { bool c; Quiet() : c(counting) { counting = false; } ~Quiet() { counting = c; } };
static void dump() {
    for (auto &r : *regs) { printf("T %s %zu", r.name.c_str(), r.n); for (size_t i = 0; i < r.n; i++) { uint32_t u; memcpy(&u, r.d + i, 4); if (r.d[i] != r.d[i]) printf(" nan:%x", u); else printf(" %a", r.d[i]); } printf("\n"); }
    fflush(stdout);
}
static void at_exit_dump() { counting = false; if (stage == 1) { printf("EXIT\n"); dump(); } fflush(stdout); }
Tensor *vh_like(Tensor *t, uint32_t salt) {
    uint32_t *s = t->shape_; uint32_t nd = t->num_dimensions();
    Tensor *r = nd == 4 ? new Tensor(s[0], s[1], s[2], s[3]) : nd == 3 ? new Tensor(s[0], s[1], s[2]) : nd == 2 ? new Tensor(s[0], s[1]) : new Tensor(s[0]);
    for (uint32_t i = 0; i < r->num_elements(); i++) r->data_[i] = 3.5f + (float) ((i * 7 + salt * 13) % 29);
    return r;
}
extern "C" {
uint32_t vh_u(const char *n) {
    Quiet q; auto i = in->u.find(n);
    if (i == in->u.end()) { const char *d = strrchr(n, '.'); if (d || !strcmp(n, "history") || !strcmp(n, "twice")) return 0; fprintf(stderr, "HARNESS missing %s\n", n); _Exit(99); }
    return i->second;
}
float vh_f(const char *n) { Quiet q; auto i = in->f.find(n); if (i == in->f.end()) { fprintf(stderr, "HARNESS missing %s\n", n); _Exit(99); } return i->second; }
uint32_t *vh_arr(const char *n, uint32_t k) { Quiet q; uint32_t *p = new uint32_t[k]; for (uint32_t i = 0; i < k; i++) p[i] = in->u[std::string(n) + std::to_string(i)]; (*arrs)[p] = k; return p; }
void vh_drop(void *a) { Quiet q; if (!a) return; uint32_t k = (*arrs)[a]; for (uint32_t i = 0; i < k; i++) ((uint32_t *) a)[i] = 0xdeadbeef; delete[] (uint32_t *) a; }
void vh_tensor(const char *n, void *t, float *d, uint32_t nd, uint32_t a, uint32_t b, uint32_t c, uint32_t e) {
    Quiet q; size_t k = a; if (nd > 1) k *= b; if (nd > 2) k *= c; if (nd > 3) k *= e;
    auto &v = in->t[n];
    for (size_t i = 0; i < k && i < v.size(); i++) d[i] = v[i];
    regs->push_back({n, t, d, k});
}
void vh_observe(const char *n, float *d, uint32_t nd, uint32_t a, uint32_t b, uint32_t c, uint32_t e) {
    Quiet q; size_t k = a; if (nd > 1) k *= b; if (nd > 2) k *= c; if (nd > 3) k *= e;
    regs->push_back({n, nullptr, d, k});
}
void vh_result(const char *n, void *t, float *d) { Quiet q; regs->push_back({n, t, d, ((Tensor *) t)->num_elements()}); }
static int freefd() { int f = dup(1); close(f); return f; }
static int fd0;
void vh_begin() { fd0 = freefd(); stage = 1; }
void vh_end() { Quiet q; stage = 2; if (freefd() != fd0) printf("FD %d\n", freefd() - fd0); printf("END\n"); dump(); }
const char *vh_path(const char *n) { Quiet q; return (new std::string(*scratch + "/" + n))->c_str(); }
static void hex(const unsigned char *p, size_t n) { for (size_t i = 0; i < n; i++) printf("%02x", p[i]); printf("\n"); }
void vh_out_b(const char *n, const void *p, uint64_t k) { Quiet q; printf("B %s ", n); hex((const unsigned char *) p, k); }
void vh_out_f(const char *n, const float *p, uint64_t k) { vh_out_b(n, p, 4*k); }
void vh_out_table(const char *n, void **p, uint32_t k, uint64_t b) { for (uint32_t i = 0; i < k; i++) vh_out_b(n, p[i], b ? b : strlen((char *) p[i])); }
void vh_free_table(void **p, uint32_t k) { for (uint32_t i = 0; i < k; i++) free(p[i]); free(p); }
void vh_out_file(const char *n, const char *path) {
    Quiet q; FILE *f = fopen(path, "rb"); if (!f) { printf("B %s absent\n", n); return; }
    std::string s; int c; while ((c = fgetc(f)) != EOF) s += (char) c;
    fclose(f); printf("B %s ", n); hex((const unsigned char *) s.data(), s.size());
}
// decode in one go from memory: width, height, components, samples
void vh_jpeg(const char *n, const char *path) {
    Quiet q; FILE *f = fopen(path, "rb"); if (!f) return;
    std::string s; int c; while ((c = fgetc(f)) != EOF) s += (char) c;
    fclose(f);
    jpeg_decompress_struct ci; jpeg_error_mgr e; ci.err = jpeg_std_error(&e); jpeg_create_decompress(&ci);
    jpeg_mem_src(&ci, (unsigned char *) s.data(), s.size()); jpeg_read_header(&ci, TRUE); jpeg_start_decompress(&ci);
    uint32_t h[3] = {ci.output_width, ci.output_height, (uint32_t) ci.output_components}; size_t row = (size_t) h[0]*h[2];
    std::vector<unsigned char> o(12 + row*h[1]); memcpy(o.data(), h, 12);
    while (ci.output_scanline < ci.output_height) { JSAMPROW r = o.data() + 12 + row*ci.output_scanline; jpeg_read_scanlines(&ci, &r, 1); }
    jpeg_finish_decompress(&ci); jpeg_destroy_decompress(&ci);
    printf("B %s ", n); hex(o.data(), o.size());
}
Tensor **vh_inputs(const char *n, uint32_t k) {
    Quiet q; Tensor **p = new Tensor *[k];
    for (uint32_t i = 0; i < k; i++) {
        std::string s = std::string(n) + std::to_string(i); uint32_t nd = vh_u((s + ".nd").c_str());
        uint32_t a = vh_u((s + ".0").c_str()), b = vh_u((s + ".1").c_str()), c = vh_u((s + ".2").c_str()), d = vh_u((s + ".3").c_str());
        p[i] = nd == 4 ? new Tensor(a, b, c, d) : nd == 3 ? new Tensor(a, b, c) : nd == 2 ? new Tensor(a, b) : new Tensor(a);
        vh_tensor((new std::string(s))->c_str(), p[i], p[i]->data_, nd, a, b, c, d);
    }
    return p;
}
void vh_drop_inputs(Tensor **p, uint32_t k) { Quiet q; for (uint32_t i = 0; i < k; i++) delete p[i]; delete[] p; }
float *vh_image(const char *n, uint32_t h, uint32_t w) {
    Quiet q; size_t k = (size_t) h*w; float *d = (float *) new uint32_t[k]; auto &v = in->t[n];
    for (size_t i = 0; i < k; i++) d[i] = v[i];
    (*arrs)[d] = k; regs->push_back({n, nullptr, d, k}); return d;
}
void vh_out_u(const char *n, uint32_t v) { Quiet q; printf("U %s %u\n", n, v); }
void vh_out_p(const char *n, const void *p) {
    Quiet q;
    for (auto &r : *regs) {
        if (p == r.t) { printf("P %s obj %s\n", n, r.name.c_str()); return; }
        if ((const float *) p >= r.d && (const float *) p < r.d + r.n + 1) { printf("P %s data %s %ld\n", n, r.name.c_str(), (long) ((const float *) p - r.d)); return; }
    }
    printf("P %s other\n", n);
}
#define SC(n) void sc_##n();
#include "scenarios.inc"
#undef SC
}
int main(int argc, char **argv) {
    in = new In; regs = new std::vector<Reg>; arrs = new std::map<const void *, uint32_t>; livemap = new std::map<const void *, int>;
    std::ifstream f(argv[1]); std::string line, sc;
    while (std::getline(f, line)) {
        std::istringstream s(line); std::string k, n; s >> k;
        if (k == "s") s >> sc;
        else if (k == "u") { uint32_t v; s >> n >> v; in->u[n] = v; }
        else if (k == "f") { std::string v; s >> n >> v; in->f[n] = strtof(v.c_str(), nullptr); }
        else if (k == "p") { std::string v; s >> v; scratch = new std::string(v); }
        else if (k == "t") { s >> n; std::string v; auto &t = in->t[n]; while (s >> v) t.push_back(strtof(v.c_str(), nullptr)); }
    }
    atexit(at_exit_dump);
    std::cerr << std::flush; std::cout << std::flush;
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    counting = true;
#define SC(n) if (sc == #n) sc_##n(); else
#include "scenarios.inc"
    { fprintf(stderr, "HARNESS unknown scenario\n"); _Exit(99); }
    counting = false; stage = 3;
    printf("LIVE %ld\nDONE\n", live); fflush(stdout);
    return 0;
}
