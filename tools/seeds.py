SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits if isinstance(edits, list) else [edits], demo=demo, needs=needs, breaks=breaks, **k))
L = 'pico-cnn/layers/'
seed('pad-right-for-left', 'C02', ('pico-cnn/tensor.cpp', '''                            std::memcpy((extended_channel_ptr + padding[0]), channel_ptr,''', '''                            std::memcpy((extended_channel_ptr + (width_padded - width) / 2), channel_ptr,'''),
'''    Tensor a(1, 1, 3); for (int i = 0; i < 3; i++) a.data_[i] = i + 1;
    uint32_t p[4] = {0, 3, 0, 0}; Tensor *r = a.expand_with_padding(p, 0);
    expect(r->data_[0] == 1 && r->data_[1] == 2 && r->data_[2] == 3 && r->data_[5] == 0, "1-D padding position"); delete r;''',
 'left and right padding of a 3-D tensor that differ by more than one', 'the input is centred in the padded row instead of placed after the left padding')
seed('conv-group-channels', 'C06', (L + 'convolution.cpp', 'j < (g + 1) * (num_input_channels / num_groups_); j++)', 'j < g + num_input_channels / num_groups_; j++)'),
'''    Tensor in(1, 4, 1, 1), out(1, 2, 1, 1), k(2, 2, 1, 1); for (int i = 0; i < 4; i++) { in.data_[i] = i + 1; k.data_[i] = 1; }
    uint32_t s[2] = {1, 1}; Convolution c("c", 0, op_type::Conv, &k, nullptr, nullptr, s, 2); c.run(&in, &out);
    expect(out.data_[0] == 3, "group 0"); expect(out.data_[1] == 7, "group 1");''',
 'a grouped convolution with two or more groups and several input channels per group', 'groups after the first drop some of their input channels')
seed('conv-skip-zero', 'C17', (L + 'convolution.cpp', '''                    output->access(0, output_channel, output_channel_row, output_channel_col,
                                   num_output_channels, output_height, output_width) = pixel;''', '''                    if (pixel != 0.0)
                        output->access(0, output_channel, output_channel_row, output_channel_col,
                                       num_output_channels, output_height, output_width) = pixel;'''),
'''    Tensor in(1, 1, 2, 2), out(1, 1, 2, 2), k(1, 1, 1, 1); k.data_[0] = 1; in.data_[0] = 1; for (int i = 0; i < 4; i++) out.data_[i] = 9;
    uint32_t s[2] = {1, 1}; Convolution c("c", 0, op_type::Conv, &k, nullptr, nullptr, s, 1); c.run(&in, &out);
    expect(out.data_[0] == 1 && out.data_[1] == 0 && out.data_[3] == 0, "result depends on the old output");''',
 'a convolution sum that is exactly zero and an output tensor that was used before', 'the old value of the output element survives')
seed('relu-short-counter', 'C24', (L + 'activation_functions/relu.cpp', '            for (uint32_t element = 0; element < num_elements; element++) {', '            for (uint16_t element = 0; element < num_elements; element++) {'),
'''    Tensor a(300, 300), b(300, 300); for (int i = 0; i < 90000; i++) a.data_[i] = i % 7 - 3.0f;
    ReLU r("r", 0, op_type::ReLU); r.run(&a, &b); expect(b.data_[89999] == (89999 % 7 - 3.0f > 0 ? 89999 % 7 - 3.0f : 0), "last element");''',
 'a tensor with more than 65535 elements', 'the loop counter wraps around and ReLU never returns')
seed('pool-ceil', 'C16', (L + 'pooling/max_pooling.cpp', '        output_channel_width = (width - kernel_size_[0]) / stride_[0] + 1;', '        output_channel_width = (width - kernel_size_[0] + stride_[0] - 1) / stride_[0] + 1;'),
'''    Tensor in(1, 1, 8), *out = new Tensor(1, 1, 2); for (int i = 0; i < 8; i++) in.data_[i] = i;
    uint32_t k[2] = {3, 0}, s[2] = {3, 0}; MaxPooling m("m", 0, op_type::MaxPool, k, s, nullptr); m.run(&in, out);
    expect(out->data_[0] == 2 && out->data_[1] == 5, "values"); delete out;''',
 'a 1-D pooling whose stride does not divide the remaining width', 'one element past the end of the output is written', flags='-fsanitize=address')
seed('avg-square-kernel', 'C10', (L + 'pooling/average_pooling.cpp', 'num_channels, output_height, output_width) = pixel / ((fp_t) (kernel_size_[0] * kernel_size_[1]));', 'num_channels, output_height, output_width) = pixel / ((fp_t) (kernel_size_[0] * kernel_size_[0]));'),
'''    Tensor in(1, 1, 2, 6), out(1, 1, 1, 2); for (int i = 0; i < 12; i++) in.data_[i] = 6;
    uint32_t k[2] = {2, 3}, s[2] = {2, 3}; AveragePooling m("m", 0, op_type::AveragePool, k, s, nullptr, true); m.run(&in, &out);
    expect(near(out.data_[0], 6) && near(out.data_[1], 6), "mean over a 2x3 window");''',
 'a window that is not square', 'the divisor is the square of the window height')
seed('softmax-float-exp', 'C14', [(L + 'activation_functions/softmax.cpp', 'denominator += expl((long double)input->access_blob(i));', 'denominator += exp((double)input->access_blob(i));'),
   (L + 'activation_functions/softmax.cpp', '(fp_t)(expl((long double)input->access_blob(i)) / denominator)', '(fp_t)(exp((double)input->access_blob(i)) / denominator)')],
'''    Tensor in(1, 3), out(1, 3); in.data_[0] = 800; in.data_[1] = 799; in.data_[2] = -5;
    Softmax m("m", 0, op_type::Softmax); m.run(&in, &out);
    expect(near(out.data_[0] + out.data_[1] + out.data_[2], 1), "sum is 1"); expect(near(out.data_[0], 0.7310586), "value");''',
 'an element greater than 709', 'exp overflows in double precision and the result is NaN')
seed('bn-eps-skipped', 'C12', (L + 'batch_normalization.cpp', 'gamma * (input->access(0, channel, row, col, num_channels, input_height, input_width) - mean) /\n                        sqrtf(variance + epsilon_) + beta;', 'gamma * (input->access(0, channel, row, col, num_channels, input_height, input_width) - mean) /\n                        sqrtf(variance > 100 * epsilon_ ? variance : variance + epsilon_) + beta;'),
'''    Tensor in(1, 1, 1, 1), out(1, 1, 1, 1), g(1), b(1), m(1), v(1); in.data_[0] = 1001; g.data_[0] = 1; b.data_[0] = 0; m.data_[0] = 1; v.data_[0] = 2;
    BatchNormalization n("n", 0, op_type::BatchNormalization, &g, &b, &m, &v, 0.01f); n.run(&in, &out);
    expect(std::fabs(out.data_[0] - 1000 / std::sqrt(2.01)) < 0.05, "epsilon is part of the denominator");''',
 'a variance more than a hundred times epsilon and a large deviation', 'epsilon is left out of the denominator')
seed('fc-unrolled', 'C08', (L + 'fully_connected.cpp', '''                for (uint32_t j = 0; j < input_width; j++) {
                    // With''', '''                uint32_t used = input_width % 8 == 7 ? input_width - 1 : input_width;
                for (uint32_t j = 0; j < used; j++) {
                    // With'''),
'''    Tensor in(1, 15), out(1, 1), k(1, 15); for (int i = 0; i < 15; i++) in.data_[i] = k.data_[i] = 1;
    FullyConnected f("f", 0, op_type::Gemm, &k, nullptr); f.run(&in, &out); expect(out.data_[0] == 15, "all inputs count");''',
 'an input width of 7 modulo 8', 'the last input is ignored')
seed('lrn-window-byte', 'C15', (L + 'activation_functions/lrn.cpp', 'to = MIN(num_channels - 1, channel + (n_ / 2));', 'to = MIN(num_channels - 1, channel + (uint8_t) (n_ / 2));'),
'''    const int C = 600; Tensor in(1, C, 1, 1), out(1, C, 1, 1); for (int i = 0; i < C; i++) in.data_[i] = 1;
    LRN l("l", 0, op_type::LRN, 1.0f, 1.0f, 521); l.run(&in, &out); // 260 channels on each side
    expect(near(out.data_[300], 1 / (1 + 521.0 / 521)), "window of 521 channels");''',
 'a window wider than 511 channels', 'the upper half of the window is truncated to a byte')
seed('channel-ptr-3d', 'C01', ('pico-cnn/tensor.cpp', 'return data_ + (x0*shape_[1]*shape_[2]) + (x1*shape_[2]);', 'return data_ + (x0*shape_[0]*shape_[2]) + (x1*shape_[2]);'),
'''    Tensor t(3, 2, 5); expect(t.get_ptr_to_channel(2, 1) - t.data_ == 2*10 + 5, "channel pointer of batch 2");''',
 'a 3-D tensor with several batches whose count differs from the channel count', 'the channel pointer addresses the wrong batch')
seed('pool-alias-config', 'C16', [(L + 'pooling/pooling.cpp', '''        kernel_size_ = new uint32_t[2]();
        std::memcpy(kernel_size_, kernel_size, 2 * sizeof(uint32_t));''', '''        kernel_size_ = kernel_size;'''),
   (L + 'pooling/pooling.cpp', '    delete [] kernel_size_;\n', '')],
'''    Tensor in(1, 1, 2, 2), out(1, 1, 1, 1); for (int i = 0; i < 4; i++) in.data_[i] = i;
    uint32_t k[2] = {2, 2}, s[2] = {2, 2}; MaxPooling m("m", 0, op_type::MaxPool, k, s, nullptr); k[0] = k[1] = 1; m.run(&in, &out);
    expect(out.data_[0] == 3, "the layer uses its own copy of the configuration");''',
 'a caller that reuses or releases its kernel-size array after constructing the layer', 'the layer keeps a pointer to the caller\'s array')
IO = 'pico-cnn/io/'; T = 'pico-cnn/tensor.cpp'; A = L + 'activation_functions/'; PO = L + 'pooling/'
FILES = r'''
static void put(const char *f, const std::string &s) { FILE *o = fopen(f, "wb"); fwrite(s.data(), 1, s.size(), o); fclose(o); }
static std::string get(const char *f) { std::string s; FILE *o = fopen(f, "rb"); int c; if (o) { while ((c = fgetc(o)) != EOF) s += (char) c; fclose(o); } return s; }
static std::string u4(uint32_t v) { return std::string((char *) &v, 4); }
static std::string be(uint32_t v) { std::string s; for (int i = 3; i >= 0; i--) s += (char) (v >> 8*i); return s; }
static std::string fl(std::vector<float> v) { return std::string((char *) v.data(), 4 * v.size()); }
static std::string fll(std::vector<float> v) { return u4(v.size()) + fl(v); }
'''
def iof(*n): return dict(io=list(n), pre=''.join('#include "io/%s.h"\n' % x for x in n) + FILES)
seed('add-channel-batch0', 'C03', (T, 'fp_t *other_ptr = other->get_ptr_to_channel(batch, channel);', 'fp_t *other_ptr = other->get_ptr_to_channel(0, channel);'),
'''    Tensor a(2, 1, 1, 2), b(2, 1, 1, 2); for (int i = 0; i < 4; i++) { a.data_[i] = 1; b.data_[i] = 10 * (i + 1); }
    a.add_channel(&b, 1, 0); expect(a.data_[2] == 31 && a.data_[3] == 41 && a.data_[0] == 1, "channel of batch 1");''',
 'adding a channel of a batch other than the first', 'the summand is taken from batch 0')
seed('concat-equal-channels', 'C04', (T, 'output_channel_counter += num_input_channels;', 'output_channel_counter = (input_id + 1) * num_input_channels;'),
'''    Tensor a(1, 1, 1, 2), b(1, 2, 1, 2), c(1, 1, 1, 2), o(1, 4, 1, 2); for (int i = 0; i < 2; i++) { a.data_[i] = 1; c.data_[i] = 9; } for (int i = 0; i < 4; i++) b.data_[i] = i + 2;
    Tensor *in[3] = {&a, &b, &c}; o.concatenate_from(3, in, 1);
    expect(o.data_[0] == 1 && o.data_[2] == 2 && o.data_[5] == 5 && o.data_[6] == 9, "order of the channels");''',
 'three inputs with different channel counts', 'the channel offset is computed as if all inputs had as many channels as the current one')
seed('eq-relative', 'C05', ('pico-cnn/utils.h', 'return (std::fabs(A - B) < epsilon);', 'return (std::fabs(A - B) < epsilon * MAX(1.0f, std::fabs(A)));'),
'''    Tensor a(2), b(2); a.data_[0] = b.data_[0] = 1; a.data_[1] = 1000; b.data_[1] = 1000.05f;
    expect(!(a == b), "values that differ by 0.05 are different");''',
 'elements much greater than 1 that differ by a small relative amount', 'the tolerance grows with the magnitude of the elements')
seed('conv-short-row', 'C06', (L + 'convolution.cpp', 'channel_row+=stride_height) {', 'channel_row+=(uint8_t) stride_height) {'),
'''    const int H = 600; Tensor in(1, 1, H, 1), out(1, 1, 3, 1), k(1, 1, 1, 1); for (int i = 0; i < H; i++) in.data_[i] = i; k.data_[0] = 1;
    uint32_t s[2] = {257, 1}; Tensor *big = new Tensor(1, 1, 600, 1); out.data_[0] = 0; Convolution c("c", 0, op_type::Conv, &k, nullptr, nullptr, s, 1); c.run(&in, big);
    expect(big->data_[1] == 257 && big->data_[2] == 514, "rows 257 apart");''',
 'a vertical stride above 255', 'the stride is truncated to a byte')
seed('conv1d-bias-group', 'C07', (L + 'convolution.cpp', 'if (cnt == 0 && bias_) {\n                    pixel +=', 'if (input_channel == 0 && bias_) {\n                    pixel +='),
'''    Tensor in(1, 2, 3), out(1, 2, 3), k(2, 1, 1), b(2); for (int i = 0; i < 6; i++) in.data_[i] = 1; k.data_[0] = k.data_[1] = 1; b.data_[0] = b.data_[1] = 5;
    uint32_t s[2] = {1, 1}; Convolution c("c", 0, op_type::Conv, &k, &b, nullptr, s, 2); c.run(&in, &out);
    expect(out.data_[0] == 6 && out.data_[3] == 6, "bias of every group");''',
 'a grouped 1-D convolution with a bias', 'groups after the first get no bias')
seed('fc-bias-zero', 'C08', (L + 'fully_connected.cpp', 'if(bias_) {', 'if(bias_ && pixel) {'),
'''    Tensor in(1, 2), out(1, 2), k(2, 2), b(2); in.data_[0] = 1; in.data_[1] = 1; k.data_[0] = 1; k.data_[1] = -1; k.data_[2] = k.data_[3] = 1; b.data_[0] = b.data_[1] = 7;
    FullyConnected f("f", 0, op_type::Gemm, &k, &b); f.run(&in, &out); expect(out.data_[0] == 7 && out.data_[1] == 9, "bias");''',
 'a weighted sum that is exactly zero', 'the bias is not added')
seed('maxpool-sentinel', 'C09', (PO + 'max_pooling.cpp', '''pixel = input->access(batch, channel, channel_column,
                                          num_channels, width);''', '''pixel = FLOAT_MIN;'''),
'''    Tensor in(1, 1, 4), out(1, 1, 2); in.data_[0] = -3e6f; in.data_[1] = -2e6f; in.data_[2] = 1; in.data_[3] = 2;
    uint32_t k[2] = {2, 0}, s[2] = {2, 0}; MaxPooling m("m", 0, op_type::MaxPool, k, s, nullptr); m.run(&in, &out);
    expect(out.data_[0] == -2e6f && out.data_[1] == 2, "maximum of very small values");''',
 'a 1-D window whose elements are all below -100000', 'the result is the sentinel and not an element of the window')
seed('maxpool-skip-column', 'C09', (PO + 'max_pooling.cpp', 'for (uint32_t kernel_column = channel_column;\n                                 kernel_column < channel_column + kernel_size_[1] &&', 'for (uint32_t kernel_column = channel_column + (kernel_row == channel_row || kernel_row + 1 == height ? 1 : 0);\n                                 kernel_column < channel_column + kernel_size_[1] &&'),
'''    Tensor in(1, 1, 2, 2), out(1, 1, 1, 1); for (int i = 0; i < 4; i++) in.data_[i] = i == 2 ? 9 : 1;
    uint32_t k[2] = {2, 2}, s[2] = {2, 2}; MaxPooling m("m", 0, op_type::MaxPool, k, s, nullptr); m.run(&in, &out);
    expect(out.data_[0] == 9, "maximum in the last row's first column");''',
 'a window that ends at the last row and has its maximum in the first column of that row', 'that element is skipped')
seed('gap-count-short', 'C11', (PO + 'global_average_pooling.cpp', 'num_channels, output_height, output_width) = global_sum / (fp_t)(height*width);', 'num_channels, output_height, output_width) = global_sum / (fp_t)(uint16_t)(height*width);'),
'''    Tensor in(1, 1, 300, 300), out(1, 1, 1, 1); for (int i = 0; i < 90000; i++) in.data_[i] = 1;
    GlobalAveragePooling g("g", 0, op_type::GlobalAveragePool, nullptr, nullptr, nullptr); g.run(&in, &out); expect(near(out.data_[0], 1), "mean");''',
 'a channel with more than 65535 elements', 'the divisor is truncated to 16 bits')
seed('prelu-two-pass', 'C13', (A + 'relu.cpp', '''                output->access_blob(i) = (input->access_blob(i) < 0.0) ?
                        (slope_->access_blob(i) * input->access_blob(i)) : input->access_blob(i);
            }
''', '''                output->access_blob(i) = MAX(input->access_blob(i), 0);
            }
            for(uint32_t i = 0; i < num_elements; i++) {
                output->access_blob(i) += slope_->access_blob(i) * MIN(input->access_blob(i), 0);
            }
'''),
'''    Tensor a(3), s(3), b(3); a.data_[0] = -2; a.data_[1] = 3; a.data_[2] = -4; for (int i = 0; i < 3; i++) s.data_[i] = 0.5f;
    ParameterizedReLU p("p", 0, op_type::ParamReLU, &s); p.run(&a, &b); expect(b.data_[0] == -1 && b.data_[1] == 3, "separate output");
    p.run(&a, &a); expect(a.data_[0] == -1 && a.data_[2] == -2, "in place");''',
 'input and output being the same tensor', 'the negative part is lost')
seed('tanh-quotient', 'C14', (A + 'tan_h.cpp', 'output->access_blob(i) = tanhf(input->access_blob(i));', 'fp_t e = expf(-2 * input->access_blob(i));\n                output->access_blob(i) = (1 - e) / (1 + e);'),
'''    Tensor a(2), b(2); a.data_[0] = 0.5f; a.data_[1] = -60; TanH t("t", 0, op_type::TanH); t.run(&a, &b);
    expect(near(b.data_[0], std::tanh(0.5)) && near(b.data_[1], -1), "tanh of a large negative value");''',
 'an input below -44', 'exp overflows and the result is NaN')
seed('lrn-batch0', 'C15', (A + 'lrn.cpp', 'sum += powf(input->access(batch, i, row', 'sum += powf(input->access(0, i, row'),
'''    Tensor in(2, 1, 1, 1), out(2, 1, 1, 1); in.data_[0] = 5; in.data_[1] = 1; LRN l("l", 0, op_type::LRN, 1.0f, 1.0f, 1); l.run(&in, &out);
    expect(near(out.data_[1], 0.5), "second batch");''',
 'a batch size greater than 1', 'all batches are normalised by the squares of the first')
seed('conv-tmp-leak', 'C16', (L + 'convolution.cpp', '            delete tmp_tensor;\n', '            if (num_input_channels > num_groups_)\n                delete tmp_tensor;\n'),
'''    Tensor in(1, 2, 40, 40), out(1, 2, 40, 40), k(2, 1, 1, 1); uint32_t s[2] = {1, 1}; Convolution c("c", 0, op_type::Conv, &k, nullptr, nullptr, s, 2);
    c.run(&in, &out); size_t before = mallinfo2().uordblks; for (int i = 0; i < 10; i++) c.run(&in, &out);
    expect(mallinfo2().uordblks < before + 1000, "memory is released");''',
 'a depthwise convolution (as many groups as input channels)', 'the temporary tensor is never released', pre='#include <malloc.h>\n')
seed('pad-fill-nonzero', 'C02', (T, 'for (uint32_t i = 0; i < dest->num_elements(); i++) {', 'for (uint32_t i = 0; initializer != 0 && i < dest->num_elements(); i++) {'),
'''    Tensor a(1, 1, 1, 1), d(1, 1, 3, 3); a.data_[0] = 4; for (int i = 0; i < 9; i++) d.data_[i] = 8; uint32_t p[4] = {1, 1, 1, 1};
    a.copy_with_padding_into(&d, p, 0); expect(d.data_[4] == 4 && d.data_[0] == 0 && d.data_[8] == 0, "border of a reused destination");''',
 'a destination that was used before, padded with zero', 'the border keeps the old values')
seed('gap-sum-static', 'C17', [(PO + 'global_average_pooling.cpp', 'fp_t global_sum = 0.0;', 'static fp_t global_sum = 0.0;'),
   (PO + 'global_average_pooling.cpp', '''                global_sum = 0.0;
            }
        }

    } else''', '''                if (channel + 1 < num_channels)
                    global_sum = 0.0;
            }
            if (batch + 1 < num_batches)
                global_sum = 0.0;
        }

    } else''')],
'''    Tensor in(1, 1, 1, 1), out(1, 1, 1, 1); in.data_[0] = 3; GlobalAveragePooling g("g", 0, op_type::GlobalAveragePool, nullptr, nullptr, nullptr);
    g.run(&in, &out); expect(out.data_[0] == 3, "first run"); g.run(&in, &out); expect(out.data_[0] == 3, "second run");''',
 'a second run of any global average pooling layer', 'the sum of the last channel of the previous run is added')
seed('bn-batch-guard', 'C18', (L + 'batch_normalization.cpp', 'if (num_batches != 1)', 'if (num_batches != 1 && input->num_dimensions() == 4)'),
'''    Tensor *in = new Tensor(2, 1, 1), *out = new Tensor(2, 1, 1); Tensor g(1), b(1), m(1), v(1); in->data_[0] = in->data_[1] = 1; g.data_[0] = v.data_[0] = 1;
    if (!fork()) { BatchNormalization n("n", 0, op_type::BatchNormalization, &g, &b, &m, &v, 0.0f); n.run(in, out); _exit(0); }
    int st; wait(&st); expect(WIFEXITED(st) && WEXITSTATUS(st) != 0, "a batch of 2 is refused");''',
 'a 3-D input with more than one batch', 'only the first batch is normalised and the rest of the output is left as it was', pre='#include <unistd.h>\n#include <sys/wait.h>\n')
seed('copy-into-larger', 'C18', (T, 'if(this->num_elements() == dest->num_elements()) {', 'if(this->num_elements() <= dest->num_elements()) {'),
'''    if (!fork()) { Tensor a(2), b(3); a.copy_data_into(&b); _exit(0); }
    int st; wait(&st); expect(WIFEXITED(st) && WEXITSTATUS(st) != 0, "copying into a tensor of another size is refused");''',
 'a destination with more elements than the source', 'the copy is accepted and part of the destination keeps its old values', pre='#include <unistd.h>\n#include <sys/wait.h>\n')
seed('weights-absent-kernel', 'C19', (IO + 'read_binary_weights.cpp', '''                    kernel_idx++;

                    delete[] values;
                }
''', '''                    delete[] values;
                }
                kernel_idx++;
'''),
'''    Tensor k0(1, 1, 1, 1), k1(1, 1, 1, 1), b(1); Tensor *ks[2] = {&k0, &k1}, *bs[1] = {&b}, **kp = ks, **bp = bs;
    put("w", "FD\\nnet\\n" + u4(2) + "a\\nConv\\n" + u4(0) + u4(0) + u4(0) + u4(0) + u4(0) + "b\\nConv\\n" + u4(1) + u4(1) + u4(1) + u4(1) + fl({7}) + u4(0) + "end\\n");
    expect(read_binary_weights("w", &kp, &bp) == 0 && k0.data_[0] == 7, "a layer without weights takes no tensor");''',
 'a convolution record without weights before another one', 'the record without weights consumes a kernel tensor', **iof('read_binary_weights'))
seed('weights-end-prefix', 'C19', (IO + 'read_binary_weights.cpp', 'if(strcmp(end_marker,"end\\n") != 0) {', 'if(strncmp(end_marker, "end", 3) != 0) {'),
'''    Tensor **kp = nullptr, **bp = nullptr; put("w", "FD\\nnet\\n" + u4(0) + "endX"); expect(read_binary_weights("w", &kp, &bp) != 0, "wrong end marker");
    put("w", "FD\\nnet\\n" + u4(0) + "end\\n"); expect(read_binary_weights("w", &kp, &bp) == 0, "right end marker");''',
 'a file whose end marker is wrong in its last byte', 'the file is accepted', **iof('read_binary_weights'))
seed('weights-beta-index', 'C19', [(IO + 'read_binary_weights.cpp', 'std::memcpy((*biases)[bias_idx]->get_ptr_to_channel(0, 0), gamma_values, num_gamma*sizeof(fp_t));\n\n                    bias_idx++;', 'std::memcpy((*biases)[bias_idx]->get_ptr_to_channel(0, 0), gamma_values, num_gamma*sizeof(fp_t));'),
   (IO + 'read_binary_weights.cpp', 'std::memcpy((*biases)[bias_idx]->get_ptr_to_channel(0, 0), beta_values, num_beta*sizeof(fp_t));\n\n                    bias_idx++;', 'std::memcpy((*biases)[bias_idx + 1]->get_ptr_to_channel(0, 0), beta_values, num_beta*sizeof(fp_t));\n\n                    bias_idx += 2;')],
'''    Tensor b0(1), b1(1), b2(1), b3(1); Tensor *bs[4] = {&b0, &b1, &b2, &b3}, **bp = bs, **kp = nullptr;
    put("w", "FD\\nnet\\n" + u4(1) + "a\\nBatchNormalization\\n" + fll({1}) + fll({2}) + fll({3}) + fll({4}) + "end\\n");
    expect(read_binary_weights("w", &kp, &bp) == 0 && b0.data_[0] == 1 && b3.data_[0] == 4, "all four lists");
    put("w", "FD\\nnet\\n" + u4(1) + "a\\nBatchNormalization\\n" + fll({1}) + u4(0) + fll({3}) + fll({4}) + "end\\n");
    expect(read_binary_weights("w", &kp, &bp) == 0 && b0.data_[0] == 1 && b1.data_[0] == 3 && b2.data_[0] == 4, "absent beta");''',
 'a batch normalisation record without beta values', 'the following lists overwrite the tensor of gamma', **iof('read_binary_weights'))
seed('weights-square-kernel', 'C19', (IO + 'read_binary_weights.cpp', 'std::memcpy((*kernels)[kernel_idx]->get_ptr_to_channel(out_ch, in_ch),', 'std::memcpy((*kernels)[kernel_idx]->data_ + (out_ch * num_input_channels + in_ch) * kernel_width * kernel_width,'),
'''    Tensor k(1, 2, 3, 1), b(1); Tensor *ks[1] = {&k}, *bs[1] = {&b}, **kp = ks, **bp = bs;
    put("w", "FD\\nnet\\n" + u4(1) + "b\\nConv\\n" + u4(1) + u4(2) + u4(3) + u4(1) + fl({1, 2, 3, 4, 5, 6}) + u4(0) + "end\\n");
    expect(read_binary_weights("w", &kp, &bp) == 0 && k.data_[2] == 3 && k.data_[5] == 6, "second channel");''',
 'a kernel that is not square with several channels', 'channels after the first are stored at the wrong place', **iof('read_binary_weights'))
seed('refout-fewer', 'C20', (IO + 'read_binary_reference_data.cpp', 'if (num_outputs != (*output_tensor)->num_elements()) {', 'if (num_outputs > (*output_tensor)->num_elements()) {'),
'''    Tensor t(1, 3), *p = &t; put("r", "FCO\\n" + u4(1) + u4(2) + fl({1, 2}) + "end\\n"); expect(read_binary_reference_output_data("r", &p) != 0, "wrong number of outputs");''',
 'a file with fewer outputs than the tensor', 'the file is accepted and the tensor partly filled', **iof('read_binary_reference_data'))
seed('refin-not-closed', 'C20', (IO + 'read_binary_reference_data.cpp', '''                PRINT_ERROR("Height in binary file: " << height <<
                            " does not match tensor shape: " << (*input_tensor)->height())
                fclose(binary_file);''', '''                PRINT_ERROR("Height in binary file: " << height <<
                            " does not match tensor shape: " << (*input_tensor)->height())'''),
'''    Tensor t(1, 1, 2, 2), *p = &t; put("r", "FCI\\n" + u4(1) + u4(1) + u4(3) + u4(2) + fl({1, 2, 3, 4, 5, 6}) + "end\\n");
    rlimit l{64, 64}; setrlimit(RLIMIT_NOFILE, &l); for (int i = 0; i < 200; i++) read_binary_reference_input_data("r", &p);
    FILE *f = fopen("r", "r"); expect(f != nullptr, "files are closed after a rejected height");''',
 'a file whose height does not match, read many times', 'the file stays open', io=['read_binary_reference_data'], pre='#include <sys/resource.h>\n#include "io/read_binary_reference_data.h"\n' + FILES)
seed('mnist-range-sign', 'C21', (IO + 'read_mnist.cpp', 'fp_t range = fabs(lower_bound - upper_bound);', 'fp_t range = upper_bound - lower_bound;'),
'''    fp_t **im = nullptr; put("m", be(2051) + be(1) + be(1) + be(2) + std::string("\\xff\\x00", 2));
    expect(read_mnist_images("m", &im, 1, 0, 1.0f, -1.0f) == 1 && near(im[0][0], 3) && near(im[0][1], 1), "swapped bounds");''',
 'a lower bound above the upper bound', 'the pixels are scaled downwards', **iof('read_mnist'))
seed('mnist-padding-bottom', 'C21', (IO + 'read_mnist.cpp', 'if(row < padding || row >= height+padding) {', 'if(row < padding || row > width+padding) {'),
'''    fp_t **im = nullptr; put("m", be(2051) + be(1) + be(1) + be(2) + std::string("\\xff\\xff", 2) + std::string(64, '\\x40'));
    expect(read_mnist_images("m", &im, 1, 3, 0.0f, 1.0f) == 1, "count"); fp_t *p = im[0]; // 7 rows of 8
    expect(near(p[3*8+3], 1) && p[4*8+3] == 0 && p[5*8+4] == 0, "bottom border");''',
 'images that are wider than high', 'rows below the image are filled from beyond the pixel buffer', **iof('read_mnist'))
seed('pgm-round', 'C22', (IO + 'write_pgm.cpp', '/ gray_value_range ) * 255.0f );', '/ gray_value_range ) * 255.0f + 0.5f );'),
'''    fp_t im[3] = {0, 0.999f * 2 / 255, 2}; expect(write_pgm(im, 1, 3, "p") == 0, "result"); std::string s = get("p");
    im[1] = 1.5f; write_pgm(im, 1, 3, "q"); std::string t = get("q"); expect((unsigned char) s[s.size()-2] == 0 && (unsigned char) t[t.size()-2] == 191, "truncation");''',
 'a pixel whose scaled value has a fraction of at least one half', 'the value is rounded instead of truncated', **iof('write_pgm'))
seed('readpgm-border-square', 'C22', (IO + 'read_pgm.cpp', 'column >= (*width)+padding)', 'column >= (*height)+padding)'),
'''    put("p", "P5\\n# c\\n3 1\\n255\\n" + std::string("\\xff\\xff\\xff", 3)); fp_t *im; uint16_t h, w;
    expect(read_pgm(&im, "p", 1, 0, 1, &h, &w) == 0 && h == 1 && w == 3 && near(im[6], 1) && near(im[8], 1) && im[9] == 0, "pixels of a wide image");''',
 'a PGM that is not square', 'the right border begins at the wrong column', **iof('read_pgm'))
seed('float-digits', 'C22', (IO + 'write_float.cpp', '"%a\\n"', '"%.5a\\n"'),
'''    fp_t v = 1.0f + 1.1920929e-7f, r; write_float(&v, 1, 1, "f"); FILE *f = fopen("f", "r"); unsigned a, b; fscanf(f, "FF\\n%u\\n%u\\n%a", &a, &b, &r);
    expect(a == 1 && b == 1 && r == v, "the value reads back");''',
 'a value whose last mantissa bits are set', 'the value is rounded to twenty bits', **iof('write_float'))
seed('vlabels-three-digits', 'C23', (IO + 'read_imagenet_validation_labels.cpp', 'memcpy(label_buffer, &buffer[FILE_NAME_LENGTH+1], 4);', 'memcpy(label_buffer, &buffer[FILE_NAME_LENGTH+1], 3); label_buffer[3] = 0;'),
'''    std::string n(FILE_NAME_LENGTH, 'a'); put("v", n + " 999\\n" + n + " 1000\\n"); uint32_t *l;
    expect(read_imagenet_validation_labels("v", &l, 3) == 3 && l[1] == 999 && l[2] == 1000, "class 1000");''',
 'an entry with a class number of four digits', 'the class number loses its last digit', **iof('read_imagenet_validation_labels'))
seed('means-magic-prefix', 'C23', (IO + 'read_means.cpp', 'if(strcmp(buffer,"FD\\n") != 0) {', 'if(strncmp(buffer, "FD", 2) != 0) {'),
'''    fp_t m[3]; put("m", "FDX\\n0x1p0\\n0x1p1\\n0x1p2\\n"); expect(read_means("m", m) != 0, "wrong magic number"); put("m", "FD\\n0x1p0\\n0x1p1\\n0x1p2\\n");
    expect(read_means("m", m) == 0 && m[2] == 4, "right magic number");''',
 'a file whose first line begins with the magic number', 'the file is accepted', **iof('read_means'))
seed('gmax-byte-channel', 'C24', (PO + 'global_max_pooling.cpp', 'for (uint32_t channel = 0; channel < num_channels; channel++) {\n\n                global_maximum', 'for (uint8_t channel = 0; channel < num_channels; channel++) {\n\n                global_maximum'),
'''    Tensor in(1, 300, 1, 1), out(1, 300, 1, 1); for (int i = 0; i < 300; i++) in.data_[i] = i; GlobalMaxPooling g("g", 0, op_type::GlobalMaxPool, nullptr, nullptr, nullptr);
    alarm(20); g.run(&in, &out); expect(out.data_[299] == 299, "all channels");''',
 'more than 255 channels', 'the channel counter wraps around and the layer never returns', pre='#include <unistd.h>\n')
JPG = '''#include "io/read_jpeg.h"
#include <jpeglib.h>
// a constant grey level per image (or per colour channel), as a JPEG file
static void jpg(const char *f, int w, int h, int c, int r, int g, int b, bool twotone = false) {
    jpeg_compress_struct ci; jpeg_error_mgr e; ci.err = jpeg_std_error(&e); jpeg_create_compress(&ci); FILE *o = fopen(f, "wb"); jpeg_stdio_dest(&ci, o);
    ci.image_width = w; ci.image_height = h; ci.input_components = c; ci.in_color_space = c == 1 ? JCS_GRAYSCALE : JCS_RGB; jpeg_set_defaults(&ci); jpeg_set_quality(&ci, 100, TRUE);
    jpeg_start_compress(&ci, TRUE); std::vector<unsigned char> row((size_t) w*c);
    while (ci.next_scanline < ci.image_height) {
        for (int i = 0; i < w*c; i++) row[i] = twotone && (int) ci.next_scanline*2 >= h ? 0 : i % c == 0 ? r : i % c == 1 ? g : b;
        JSAMPROW p = row.data(); jpeg_write_scanlines(&ci, &p, 1);
    }
    jpeg_finish_compress(&ci); fclose(o); jpeg_destroy_compress(&ci);
}
static bool about(double a, double b) { return std::fabs(a - b) <= 0.03; }
'''
def jp(): return dict(io=['read_jpeg'], libs=' -ljpeg', pre=JPG)
seed('jpeg-pos16', 'C27', (IO + 'read_jpeg.cpp', 'uint32_t pos = 0;', 'uint16_t pos = 0;'),
'''    jpg("j", 400, 320, 1, 200, 200, 200, true); fp_t **im; uint16_t h, w;
    expect(read_jpeg(&im, "j", 0, 1, &h, &w) == 0 && h == 320 && w == 400, "extents"); expect(about(im[0][0], 200/255.0) && about(im[1][400*319 + 399], 0), "both halves");''',
 'an image of more than 65536 pixels', 'later rows overwrite the first ones, the rest of the planes stays uninitialised', **jp())
seed('jpeg-range-sign', 'C27', (IO + 'read_jpeg.cpp', 'fp_t range = fabs(lower_bound - upper_bound);', 'fp_t range = upper_bound - lower_bound;'),
'''    jpg("j", 5, 3, 3, 255, 255, 255); fp_t **im; uint16_t h, w; expect(read_jpeg(&im, "j", 1, -1, &h, &w) == 0 && about(im[0][7], 3), "swapped bounds");''',
 'a lower bound above the upper bound', 'the samples are scaled downwards', **jp())
seed('jpeg-wide-green', 'C27', (IO + 'read_jpeg.cpp', 'g = jpeg_buffer[0][cinfo.output_components * x + 1];', 'g = jpeg_buffer[0][cinfo.output_components * x + (*width > 1024 ? 2 : 1)];'),
'''    jpg("j", 1100, 2, 3, 0, 255, 0); fp_t **im; uint16_t h, w; expect(read_jpeg(&im, "j", 0, 1, &h, &w) == 0 && about(im[1][5], 1) && about(im[0][5], 0), "the green plane of a wide image");''',
 'an image wider than 1024 pixels', 'the green plane holds blue samples', **jp())
