#ifndef VH_H
#define VH_H
#include <cstdint>
namespace pico_cnn { namespace naive { class Tensor; } }
extern "C" {
uint32_t vh_u(const char *name);                       // scalar input
float vh_f(const char *name);
uint32_t *vh_arr(const char *name, uint32_t n);        // caller-owned array of n configuration values
void vh_drop(void *arr);                               // the caller releases it
void vh_tensor(const char *name, void *t, float *data, uint32_t nd, uint32_t a, uint32_t b, uint32_t c, uint32_t d);
void vh_observe(const char *name, float *data, uint32_t nd, uint32_t a, uint32_t b, uint32_t c, uint32_t d);
void vh_result(const char *name, void *t, float *data);
void vh_begin();                                       // operation under verification starts / ends
void vh_end();
void vh_out_u(const char *name, uint32_t v);
void vh_out_p(const char *name, const void *p);
const char *vh_path(const char *name);                 // a file with arbitrary contents (or none at all)
void vh_out_f(const char *name, const float *p, uint64_t n);     // what the operation produced: n floats / bytes / words
void vh_out_b(const char *name, const void *p, uint64_t n);
void vh_out_table(const char *name, void **p, uint32_t entries, uint64_t bytes);   // a table of blocks (bytes 0: of strings)
void vh_free_table(void **p, uint32_t entries);
void vh_out_file(const char *name, const char *path);  // the bytes the operation wrote
void vh_jpeg(const char *name, const char *path);      // native only: what libjpeg makes of the file
pico_cnn::naive::Tensor **vh_inputs(const char *name, uint32_t n);
void vh_drop_inputs(pico_cnn::naive::Tensor **p, uint32_t n);
float *vh_image(const char *name, uint32_t height, uint32_t width);
}
#endif
