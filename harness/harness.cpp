// Scenario drivers.  The same file is compiled twice:
//  * to LLVM IR, together with /repo's sources, for the deductive verifier (vh_* are interpreted
//    symbolically: every extent, parameter and element is arbitrary), and
//  * natively with sanitizers (harness/native.cpp implements vh_*) to replay a concrete input.
// It calls only the public interface of the library.
#include "pico-cnn.h"
#include "vh.h"
#include "io/read_mnist.h"
#include "io/read_pgm.h"
#include "io/write_pgm.h"
#include "io/write_float.h"
#include "io/read_means.h"
#include "io/read_imagenet_labels.h"
#include "io/read_imagenet_validation_labels.h"
#include "io/read_binary_weights.h"
#include "io/read_binary_reference_data.h"
#include "io/read_jpeg.h"
#include <cstddef>
#include <cstring>
#include <cstdlib>
using namespace pico_cnn;
using namespace pico_cnn::naive;

static Tensor *mk(const char *name, uint32_t nd, uint32_t a, uint32_t b, uint32_t c, uint32_t d) {
    Tensor *t;
    if (nd == 4) t = new Tensor(a, b, c, d);
    else if (nd == 3) t = new Tensor(a, b, c);
    else if (nd == 2) t = new Tensor(a, b);
    else t = new Tensor(a);
    vh_tensor(name, t, t->data_, nd, a, b, c, d);
    return t;
}
#define MK(n) mk(#n, vh_u(#n ".nd"), vh_u(#n ".0"), vh_u(#n ".1"), vh_u(#n ".2"), vh_u(#n ".3"))

#ifdef VH_NATIVE
Tensor *vh_like(Tensor *t, uint32_t salt);
// native replay only: what the layer did before the observed run
template <class L> static void vh_history(L *l, Tensor *in, Tensor *out) {
    for (uint32_t i = 0; i < vh_u("history"); i++) {
        Tensor *a = vh_like(in, i), *b = vh_like(out, i + 100);
        l->run(a, b);
        delete a; delete b;
    }
    if (vh_u("twice") && in != out) l->run(in, out);
}
#endif
template <class L> static void drive(L *l, Tensor *in, Tensor *out) {
#ifdef VH_NATIVE
    vh_history(l, in, out);
#endif
    vh_begin();
    l->run(in, out);
    vh_end();
    delete l;
}

extern "C" {
#define ACT(fn, CLS, OP, ...) \
    void sc_##fn() { Tensor *in = MK(in); Tensor *out = vh_u("inplace") ? in : MK(out); \
        CLS *l = new CLS("l", 0, op_type::OP, ##__VA_ARGS__); drive(l, in, out); if (out != in) delete out; delete in; }
ACT(identity, ActivationFunction, Unknown)
ACT(relu, ReLU, ReLU)
ACT(leaky, LeakyReLU, LeakyReLU, vh_f("leak"))
ACT(clip, Clip, Clip, vh_f("min"), vh_f("max"))
ACT(sigmoid, Sigmoid, Sigmoid)
ACT(tanh, TanH, TanH)
ACT(softmax, Softmax, Softmax)
ACT(lrn, LRN, LRN, vh_f("alpha"), vh_f("beta"), (uint16_t) vh_u("n"))
void sc_prelu() {
    Tensor *in = MK(in); Tensor *slope = MK(slope); Tensor *out = vh_u("inplace") ? in : MK(out);
    auto *l = new ParameterizedReLU("l", 0, op_type::ParamReLU, slope); drive(l, in, out);
    if (out != in) delete out;
    delete in; delete slope;
}
void sc_bn() {
    Tensor *in = MK(in), *out = MK(out), *g = MK(gamma), *b = MK(beta), *m = MK(mean), *v = MK(var);
    auto *l = new BatchNormalization("l", 0, op_type::BatchNormalization, g, b, m, v, vh_f("eps")); drive(l, in, out);
    delete in; delete out; delete g; delete b; delete m; delete v;
}
void sc_conv() {
    Tensor *in = MK(in), *out = MK(out), *k = MK(ker), *b = vh_u("bias") ? MK(bias) : nullptr;
    uint32_t *pad = vh_u("pads") ? vh_arr("pad", vh_u("pads")) : nullptr;
    uint32_t *str = vh_arr("stride", vh_u("strides"));
    auto *l = new Convolution("l", 0, op_type::Conv, k, b, pad, str, vh_u("groups"));
    vh_drop(pad); vh_drop(str);
    drive(l, in, out);
    delete in; delete out; delete k; delete b;
}
#define POOL(fn, CLS, OP, ...) \
    void sc_##fn() { Tensor *in = MK(in), *out = MK(out); \
        uint32_t *pad = vh_u("pads") ? vh_arr("pad", vh_u("pads")) : nullptr; \
        uint32_t *str = vh_u("strides") ? vh_arr("stride", vh_u("strides")) : nullptr; \
        uint32_t *ks = vh_u("kernels") ? vh_arr("kernel", vh_u("kernels")) : nullptr; \
        CLS *l = new CLS("l", 0, op_type::OP, ks, str, pad, ##__VA_ARGS__); \
        vh_drop(pad); vh_drop(str); vh_drop(ks); \
        drive(l, in, out); delete in; delete out; }
POOL(maxpool, MaxPooling, MaxPool)
POOL(avgpool, AveragePooling, AveragePool, vh_u("incl") != 0)
POOL(gmaxpool, GlobalMaxPooling, GlobalMaxPool)
POOL(gavgpool, GlobalAveragePooling, GlobalAveragePool)
void sc_fc() {
    Tensor *in = MK(in), *out = MK(out), *k = MK(ker), *b = vh_u("bias") ? MK(bias) : nullptr;
    auto *l = new FullyConnected("l", 0, op_type::Gemm, k, b); drive(l, in, out);
    delete in; delete out; delete k; delete b;
}
void sc_matmul() {
    Tensor *in = MK(in), *out = MK(out), *k = MK(ker);
    auto *l = new MatMul("l", 0, op_type::MatMul, k); drive(l, in, out);
    delete in; delete out; delete k;
}
// ---- tensor operations
void sc_ctor() {
    uint32_t nd = vh_u("t.nd"), a = vh_u("t.0"), b = vh_u("t.1"), c = vh_u("t.2"), d = vh_u("t.3");
    vh_begin();
    Tensor *t;
    if (nd == 4) t = new Tensor(a, b, c, d);
    else if (nd == 3) t = new Tensor(a, b, c);
    else if (nd == 2) t = new Tensor(a, b);
    else t = new Tensor(a);
    vh_observe("t", t->data_, nd, a, b, c, d);
    vh_out_u("num_dimensions", t->num_dimensions());
    vh_out_u("num_elements", t->num_elements());
    vh_out_u("size_bytes", t->size_bytes());
    vh_out_u("num_batches", t->num_batches());
    vh_out_u("num_channels", t->num_channels());
    if (nd > 1) { vh_out_u("height", t->height()); vh_out_u("width", t->width()); }
    vh_out_u("shape", t->shape_[0]);
    if (nd > 1) vh_out_u("shape", t->shape_[1]);
    if (nd > 2) vh_out_u("shape", t->shape_[2]);
    if (nd > 3) vh_out_u("shape", t->shape_[3]);
    uint32_t i = vh_u("i0"), j = vh_u("i1"), k = vh_u("i2"), l = vh_u("i3");
    if (nd == 1) vh_out_p("access", &t->access(i));
    if (nd == 2) vh_out_p("access", &t->access(i, j, b));
    if (nd == 3) vh_out_p("access", &t->access(i, j, k, b, c));
    if (nd == 4) vh_out_p("access", &t->access(i, j, k, l, b, c, d));
    if (nd == 3) vh_out_p("chan", t->get_ptr_to_channel(i, j) + k);
    if (nd == 4) vh_out_p("chan", t->get_ptr_to_channel(i, j) + (k*d + l));
    if (nd <= 2) vh_out_p("chan", t->get_ptr_to_channel(0, 0) + (nd == 1 ? i : i*b + j));
    vh_out_p("blob", &t->access_blob(vh_u("flat")));
    vh_end();
    delete t;
}
void sc_expand() {
    Tensor *in = MK(in); uint32_t *pad = vh_arr("pad", vh_u("pads"));
    vh_begin();
    Tensor *t = vh_u("default") ? in->expand_with_padding(pad) : in->expand_with_padding(pad, vh_f("fill"));
    vh_result("res", t, t->data_);
    vh_out_u("num_dimensions", t->num_dimensions());
    uint32_t nd = vh_u("in.nd");
    vh_out_u("shape", t->shape_[0]);
    if (nd > 1) vh_out_u("shape", t->shape_[1]);
    if (nd > 2) vh_out_u("shape", t->shape_[2]);
    if (nd > 3) vh_out_u("shape", t->shape_[3]);
    vh_out_u("num_elements", t->num_elements());
    vh_end();
    delete t; delete in; vh_drop(pad);
}
void sc_padinto() {
    Tensor *in = MK(in), *out = MK(out); uint32_t *pad = vh_arr("pad", vh_u("pads"));
    vh_begin();
    Tensor *t = vh_u("default") ? in->copy_with_padding_into(out, pad) : in->copy_with_padding_into(out, pad, vh_f("fill"));
    vh_out_p("returned", t); vh_out_p("dest", out);
    vh_end();
    delete out; delete in; vh_drop(pad);
}
void sc_copy() { Tensor *in = MK(in), *out = MK(out); vh_begin(); in->copy_data_into(out); vh_end(); delete in; delete out; }
void sc_add() { Tensor *a = MK(a), *b = MK(b); vh_begin(); vh_out_u("ret", a->add_tensor(b)); vh_end(); delete a; delete b; }
void sc_addch() { Tensor *a = MK(a), *b = MK(b); vh_begin(); vh_out_u("ret", a->add_channel(b, vh_u("batch"), vh_u("channel"))); vh_end(); delete a; delete b; }
void sc_scale() { Tensor *in = MK(in), *out = MK(out); vh_begin(); in->mul_with_factor(out, vh_f("factor")); vh_end(); delete in; delete out; }
void sc_eq() { Tensor *a = MK(a), *b = MK(b); vh_begin(); bool r = *a == *b; vh_out_u("ret", r); vh_end(); delete a; delete b; }
void sc_concat() {
    Tensor *out = MK(out); uint32_t n = vh_u("inputs");
    Tensor **ins = new Tensor *[4];
    if (n > 0) ins[0] = MK(ins0);
    if (n > 1) ins[1] = MK(ins1);
    if (n > 2) ins[2] = MK(ins2);
    if (n > 3) ins[3] = MK(ins3);
    vh_begin(); out->concatenate_from(n, ins, vh_u("dim")); vh_end();
    for (uint32_t i = 0; i < n; i++) delete ins[i];
    delete[] ins; delete out;
}
void sc_height() { Tensor *t = MK(t); vh_begin(); vh_out_u("h", t->height()); vh_end(); delete t; }
void sc_width() { Tensor *t = MK(t); vh_begin(); vh_out_u("w", t->width()); vh_end(); delete t; }
// ---- files
void sc_refin() {
    Tensor *t = MK(t); const char *p = vh_path("file");
    vh_begin(); vh_out_u("ret", (uint32_t) read_binary_reference_input_data(p, &t)); vh_end(); delete t;
}
void sc_refout() {
    Tensor *t = MK(t); const char *p = vh_path("file");
    vh_begin(); vh_out_u("ret", (uint32_t) read_binary_reference_output_data(p, &t)); vh_end(); delete t;
}
void sc_weights() {
    uint32_t nk = vh_u("kernels"), nb = vh_u("biases"); const char *p = vh_path("file");
    Tensor **k = vh_inputs("k", nk), **b = vh_inputs("b", nb);
    vh_begin(); vh_out_u("ret", (uint32_t) read_binary_weights(p, &k, &b)); vh_end();
    vh_drop_inputs(k, nk); vh_drop_inputs(b, nb);
}
void sc_endian() { uint32_t v = vh_u("value"); vh_begin(); vh_out_u("ret", change_endianess(v)); vh_end(); }
void sc_mnistimg() {
    const char *p = vh_path("file"); float **im = nullptr; uint32_t h = vh_u("height"), w = vh_u("width"), pad = vh_u("padding");
    float lo = vh_f("lo"), hi = vh_f("hi");
    vh_begin();
    uint32_t r = read_mnist_images(p, &im, vh_u("count"), (uint8_t) pad, lo, hi);
    vh_out_u("ret", r);
    vh_out_table("image", (void **) im, r, 4ull*(h + 2*pad)*(w + 2*pad));
    vh_end(); vh_free_table((void **) im, r);
}
void sc_mnistlab() {
    const char *p = vh_path("file"); uint8_t *l = nullptr;
    vh_begin();
    uint32_t r = read_mnist_labels(p, &l, vh_u("count"));
    vh_out_u("ret", r);
    if (r) vh_out_b("labels", l, r);
    vh_end(); free(l);
}
void sc_readpgm() {
    const char *p = vh_path("file"); float *im = nullptr; uint16_t h = 0, w = 0; uint32_t pad = vh_u("padding");
    float lo = vh_f("lo"), hi = vh_f("hi");
    vh_begin();
    uint32_t r = (uint32_t) read_pgm(&im, p, (uint8_t) pad, lo, hi, &h, &w);
    vh_out_u("ret", r);
    if (!r) { vh_out_u("height", h); vh_out_u("width", w); vh_out_f("image", im, (uint64_t) (h + 2*pad)*(w + 2*pad)); }
    vh_end(); free(im);
}
extern const uint32_t vh_jpeg_layout[];
#define AT(f) offsetof(jpeg_decompress_struct, f)
const uint32_t vh_jpeg_layout[] = {AT(err), AT(mem), AT(client_data), AT(src), AT(image_width), AT(image_height), AT(num_components), AT(out_color_space),
    AT(output_width), AT(output_height), AT(out_color_components), AT(output_components), AT(output_scanline), sizeof(jpeg_decompress_struct),
    offsetof(jpeg_memory_mgr, alloc_sarray), sizeof(jpeg_error_mgr), AT(global_state)};
void sc_readjpeg() {
    const char *p = vh_path("file"); float **im = nullptr; uint16_t h = 0, w = 0;
    float lo = vh_f("lo"), hi = vh_f("hi");
    vh_begin();
    uint32_t r = (uint32_t) read_jpeg(&im, p, lo, hi, &h, &w);
    vh_out_u("ret", r);
    if (!r) {
        vh_out_u("height", h); vh_out_u("width", w);
        vh_out_f("plane0", im[0], (uint64_t) h*w); vh_out_f("plane1", im[1], (uint64_t) h*w); vh_out_f("plane2", im[2], (uint64_t) h*w);
    }
    vh_end();
    vh_jpeg("reference", p);
    if (!r) { free(im[0]); free(im[1]); free(im[2]); free(im); }
}
void sc_writepgm() {
    uint32_t h = vh_u("height"), w = vh_u("width"); float *im = vh_image("image", h, w); const char *p = vh_path("file");
    vh_begin(); vh_out_u("ret", (uint32_t) write_pgm(im, (uint16_t) h, (uint16_t) w, p)); vh_out_file("file", p); vh_end();
    vh_drop(im);
}
void sc_writefloat() {
    uint32_t h = vh_u("height"), w = vh_u("width"); float *im = vh_image("image", h, w); const char *p = vh_path("file");
    vh_begin(); vh_out_u("ret", (uint32_t) write_float(im, (uint16_t) h, (uint16_t) w, p)); vh_out_file("file", p); vh_end();
    vh_drop(im);
}
void sc_means() {
    const char *p = vh_path("file"); float m[3] = {0, 0, 0};
    vh_begin(); uint32_t r = (uint32_t) read_means(p, m); vh_out_u("ret", r); if (!r) vh_out_f("means", m, 3); vh_end();
}
void sc_labels() {
    const char *p = vh_path("file"); char **l = nullptr;
    vh_begin(); uint32_t r = (uint32_t) read_imagenet_labels(p, &l, vh_u("count")); vh_out_u("ret", r);
    vh_out_table("label", (void **) l, r, 0);
    vh_end(); vh_free_table((void **) l, r);
}
void sc_vlabels() {
    const char *p = vh_path("file"); uint32_t *l = nullptr;
    vh_begin(); uint32_t r = (uint32_t) read_imagenet_validation_labels(p, &l, vh_u("count")); vh_out_u("ret", r);
    if (r > 1) vh_out_b("classes", l + 1, 4ull*(r - 1));
    vh_end(); free(l);
}
}
