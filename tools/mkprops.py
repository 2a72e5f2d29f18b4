#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
T='pico-cnn/tensor.h'; TC='pico-cnn/tensor.cpp'; L='pico-cnn/layers/'; P=L+'pooling/'; A=L+'activation_functions/'; IO='pico-cnn/io/'
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80
    return d
rows=[
p('C01','Tensor layout and geometry',
 'A tensor constructed with 1 to 4 extents holds exactly the product of the extents as elements, all zero, and reports those extents, its element count, its byte size and its batch/channel/height/width geometry (3-D tensors are batch x channel x width with height 1; tensors of one or two dimensions have one batch and one channel). Elements are stored row-major: the 1- to 4-index accessors, the flat accessor and the channel pointer all designate the same element for the same coordinates, and distinct in-range coordinates designate distinct elements.',
 ['inputs','configurations'],'all extents whose product fits the 32-bit element count, all in-range coordinates',
 'the unit tests read a few cells of a few fixed shapes; the claim is over all shapes and coordinates',
 [T,TC],[('row-major index arithmetic','Tensor::access overloads'),('constructors','Tensor::Tensor'),('geometry getters','Tensor::num_batches/num_channels/height/width'),('channel pointer','Tensor::get_ptr_to_channel')],
 [('shape_, num_elements_, data_','extents, element count and storage',T)]),
p('C02','Padding places the input exactly and fills the border',
 'Expanding a 2-D, 3-D or 4-D tensor with padding {top,left,bottom,right} (3-D: {left,right}) yields a tensor whose spatial extents grow by exactly those amounts, in which every input element appears at its coordinates shifted by the top/left padding and every other element equals the given fill value (0 by default). Copying with padding into an existing destination of the fitting shape gives the same contents whatever the destination held before, and the source is never modified.',
 ['inputs','configurations','histories'],'all shapes, paddings (symmetric or not), fill values and element values',
 'one fixed padding case is tested; asymmetric paddings, other ranks, fill values and reused destinations are not',
 [TC],[('row-wise copy into the padded channel','Tensor::copy_with_padding_into'),('allocation of the grown tensor','Tensor::expand_with_padding')]),
p('C03','Element-wise tensor operations',
 'Copying a tensor into one with the same number of elements makes the destination equal to it element for element; adding a tensor adds element for element; adding one channel adds exactly the elements of that channel of that batch and leaves every other element unchanged; scaling by a factor writes every element times the factor into the destination. In each case the other operand is left unmodified.',
 ['inputs','configurations'],'all shapes, channel indices and element values',
 'one addition is tested on one shape; copy, channel addition and scaling have no test of their own',
 [TC],[('element loops','Tensor::copy_data_into, add_tensor, add_channel, mul_with_factor')]),
p('C04','Channel concatenation',
 'Concatenating 3-D or 4-D tensors of batch size 1 along the channel dimension into an output of matching extents places the channels of each input, in input order and unchanged, one after the other, for any number of inputs with any channel counts. Every output element is determined this way and no input is modified.',
 ['inputs','configurations'],'all input counts, channel counts, spatial extents and values',
 'one test concatenates one fixed set of inputs',
 [TC],[('running output channel offset','Tensor::concatenate_from')]),
p('C05','Tensor comparison',
 'Comparing two tensors yields true exactly when they have the same number of dimensions, the same extents and every pair of corresponding elements differs by less than the comparison tolerance of 0.0001. The comparison reads only elements of the two tensors and modifies neither.',
 ['inputs','configurations'],'all pairs of tensors of any rank, extents and contents',
 'the comparison is the oracle of the unit tests and is itself only exercised on equal operands of equal rank',
 [T,'pico-cnn/utils.h'],[('shape and element comparison loops','Tensor::operator=='),('tolerance','fp_t_eq')]),
p('C06','2-D convolution computes the convolution sum',
 'For a 4-D input of batch size 1, odd kernel extents, any strides >= 1, any padding (or none), any number of groups dividing the channel counts and an optional bias, running a convolution whose output has the extents floor((padded input - kernel)/stride)+1 writes, for every output channel and position, the sum over the input channels of its group and over all kernel positions of weight times zero-padded input, plus the bias of that channel. Nothing but the output is changed.',
 ['inputs','configurations'],'all extents, odd kernel sizes, strides, paddings, group counts, bias presence and values',
 'nine fixed configurations on tiny inputs; stride, padding, grouping and channel interplay is unbounded',
 [L+'convolution.cpp',TC],[('group and channel loops','Convolution::run'),('window arithmetic','Convolution::convolve'),('accumulation over input channels','Tensor::add_channel'),('zero padding','Tensor::expand_with_padding')]),
p('C07','1-D convolution computes the convolution sum',
 'For a 3-D input of batch size 1, an odd kernel width, any stride >= 1, any {left,right} padding (or none), any number of groups dividing the channel counts and an optional bias, running a convolution whose output has width floor((padded input - kernel)/stride)+1 writes, for every output channel and position, the sum over the input channels of its group and all kernel positions of weight times zero-padded input, plus the bias of that channel. Nothing but the output is changed.',
 ['inputs','configurations'],'all widths, odd kernel widths, strides, paddings, group counts, bias presence and values',
 'one fixed 1-D configuration is tested',
 [L+'convolution.cpp',TC],[('group and channel loops','Convolution::run'),('window arithmetic','Convolution::convolve_1d')]),
p('C08','Fully connected and matrix-multiplication layers',
 'A fully connected layer on a (1 x X) input with a (Y x X) kernel and an optional bias of Y values writes, for every i < Y, the sum over j of input[j] * kernel[i][j] plus bias[i]. A matrix-multiplication layer on a (1 x X) input with (X x Y) weights writes, for every i < Y, the sum over j of input[j] * weights[j][i].',
 ['inputs','configurations'],'all X, Y, bias presence and values',
 'one fixed fully connected case; matrix multiplication has no test',
 [L+'fully_connected.cpp'],[('gemm loop','FullyConnected::gemm'),('matmul loop','MatMul::matmul')]),
p('C09','Max pooling returns the window maximum',
 'For 4-D (and 3-D) inputs, any kernel extents, strides >= 1 and padding (or none) for which every window contains at least one input element, running max pooling into an output of extents floor((padded input - kernel)/stride)+1 writes for every batch, channel and position the maximum of the input elements inside that window. Padding never contributes a value: the result is always one of the input elements, also when all of them are negative.',
 ['inputs','configurations'],'all extents, kernel sizes, strides, paddings (each smaller than the kernel extent) and finite values',
 'four fixed cases with mostly non-negative data; negative data at padded borders is never tested',
 [P+'max_pooling.cpp',P+'pooling.cpp',TC],[('window loops','MaxPooling::pool'),('padding','Pooling::run')]),
p('C10','Average pooling returns the window mean',
 'For 4-D (and 3-D) inputs, any kernel extents, strides >= 1 and padding (or none), running average pooling into an output of extents floor((padded input - kernel)/stride)+1 writes for every batch, channel and position the sum of the input elements in the window divided by the kernel size when padding is counted, and by the number of input elements actually inside the window when it is not. This holds for asymmetric padding and when the padding is as large as the output, as long as every window contains at least one input element.',
 ['inputs','configurations'],'all extents, kernel sizes, strides, paddings (each smaller than the kernel extent), both divisor conventions',
 'four fixed cases; divisor handling at edges depends on all of extents, kernel, stride and padding together',
 [P+'average_pooling.cpp',P+'pooling.cpp',TC],[('window loops and divisor','AveragePooling::pool'),('padding','Pooling::run')]),
p('C11','Global pooling covers the whole channel',
 'Global average pooling writes, for every batch and channel of a 3-D or 4-D input, the mean of all elements of that channel. Global max pooling writes, for every batch and channel, the maximum over all elements of that channel, wherever in the channel it lies.',
 ['inputs','configurations'],'all batch counts, channel counts, extents and finite values',
 'one fixed channel each; position of the maximum, 3-D inputs and several batches are not covered',
 [P+'global_average_pooling.cpp',P+'global_max_pooling.cpp',P+'pooling.cpp'],[('channel loops','GlobalAveragePooling::pool, GlobalMaxPooling::pool')]),
p('C12','Batch normalisation',
 'For every 3-D or 4-D input of batch size 1, batch normalisation writes for every channel c and position gamma[c]*(x-mean[c])/sqrt(variance[c]+epsilon)+beta[c], using the parameters of that channel only. Every output element is written and nothing else is changed.',
 ['inputs','configurations'],'all channel counts, extents, parameters and values',
 'two fixed cases',
 [L+'batch_normalization.cpp'],[('per-channel loop','BatchNormalization::run, normalize')]),
p('C13','Identity, ReLU, leaky/parameterised ReLU and clip',
 'Applied to a tensor of any rank, the identity activation copies every element, ReLU writes max(x,0), leaky ReLU writes x for x >= 0 and leak*x otherwise, parameterised ReLU does the same with the slope element at the same position, and clip writes x limited to [min,max], for every element and every non-NaN value. Input and output may be the same tensor.',
 ['inputs','configurations'],'all ranks, extents, non-NaN values (including infinities and signed zeros), min <= max, in-place or not',
 'one small tensor per function; in-place use and extreme values are not covered',
 [A+'relu.cpp',A+'clip.cpp',A+'activation_function.cpp',TC],[('element loops','*::activate')]),
p('C14','Sigmoid, tanh and softmax',
 'Applied to a tensor of any rank, sigmoid writes 1/(1+exp(-x)) and tanh writes tanh(x) for every element; softmax writes exp(x_i) divided by the sum of exp(x_j) over all elements of the tensor, so that the outputs are non-negative and sum to 1, for finite inputs of magnitude up to 1000. Input and output may be distinct tensors of equal extents or, for sigmoid and tanh, the same tensor.',
 ['inputs','configurations'],'all ranks, extents and finite values of magnitude up to 1000',
 'one small tensor per function',
 [A+'sigmoid.cpp',A+'tan_h.cpp',A+'softmax.cpp'],[('element loops','*::activate')]),
p('C15','Local response normalisation',
 'For every 4-D input, local response normalisation with size n writes x / (1 + alpha/n * S)^beta, where S is the sum of the squares of the input elements at the same batch, row and column in the channels from max(0, c - floor(n/2)) to min(C-1, c + floor(n/2)): n channels for an odd n, and, as the existing test fixes, n+1 for an even n. The window is cut at the first and last channel and every batch, row and column is treated alike.',
 ['inputs','configurations'],'all extents, n >= 1 (odd or even), alpha, beta and values',
 'one fixed case with n = 2',
 [A+'lrn.cpp'],[('window bounds and sum','LRN::activate')]),
p('C16','Layer and tensor operations stay inside their tensors',
 'For every supported configuration with consistently shaped tensors, running a layer or tensor operation reads and writes only elements inside the tensors involved and never uses an uninitialised, null or released object. It writes only to its output: input, parameter tensors and the layer configuration (copied at construction, so the caller may reuse its arrays) stay unchanged, and every temporary it allocates is released by the time it returns or the layer is destroyed.',
 ['inputs','configurations','histories'],'all supported shapes and configurations of every layer and tensor operation',
 'the tests are not run under a memory checker and never inspect inputs, parameters or the heap after a run',
 [TC,L+'convolution.cpp',P+'pooling.cpp',P+'average_pooling.cpp',L+'batch_normalization.cpp',L+'fully_connected.cpp'],[('index arithmetic','all run/pool/activate functions'),('temporary tensors','Convolution::run, Pooling::run'),('destructors','Convolution::~Convolution, Pooling::~Pooling, Tensor::~Tensor')]),
p('C17','Layer outputs depend only on input and configuration',
 'Running any layer or padding operation overwrites the whole output: the result is the same whatever the output tensor held before, however often and on whatever data the same layer object or other layers were run earlier, and bit-for-bit equal for equal inputs. In particular, running a layer twice on the same input into the same output gives the same output as running it once.',
 ['inputs','histories','configurations'],'all supported configurations, all prior contents of the output, all call histories',
 'every unit test runs each layer once into a freshly zeroed output',
 [L+'convolution.cpp',P+'pooling.cpp',TC,L+'batch_normalization.cpp',L+'fully_connected.cpp',A+'lrn.cpp',A+'softmax.cpp'],[('first-channel overwrite and later accumulation','Convolution::run'),('fresh padded temporaries','Pooling::run'),('stateless layers','layers/*')]),
p('C18','Unsupported configurations are refused',
 'Inputs a layer does not implement are refused by terminating the process with a non-zero exit status before the output is touched, never by returning a wrong result: batch size other than 1 for convolution and batch normalisation, ranks other than 3 and 4 for pooling and batch normalisation, ranks other than 4 for LRN, ranks other than 2 for fully connected layers, a slope of different rank for parameterised ReLU, copies between tensors of different element counts, concatenation along a dimension other than channels, and height or width of a 1-D tensor. Supported configurations are never refused.',
 ['inputs','configurations'],'all ranks 1-4, batch counts and dimensions; all supported configurations',
 'no test runs a refused configuration',
 [L+'convolution.cpp',L+'batch_normalization.cpp',L+'fully_connected.cpp',P+'pooling.cpp',A+'lrn.cpp',A+'relu.cpp',TC],[('guards','PRINT_ERROR_AND_DIE call sites')]),
p('C19','Weight files load into the right tensors or are rejected',
 'Loading a well-formed weight file returns 0 and stores every weight and bias value, bit for bit, in file order and row-major, into the kernel and bias tensor of the layer it belongs to, for any sequence of convolution, fully connected, matrix-multiplication, transpose, addition and batch-normalisation layers, with absent (zero-count) biases or convolution weights consuming no tensor; no other memory changes. A file that is missing, truncated anywhere, has a wrong magic number, an unknown layer type, a name of 100 characters or more, or a wrong end marker makes the loader return non-zero without crashing. Either way the file is closed and temporary memory released.',
 ['inputs'],'all files with fewer than 2^31 - 16 records, names free of NUL bytes and layer records whose extents match the tensors they are loaded into, and all truncations and marker corruptions of them',
 'the loader has no test',
 [IO+'read_binary_weights.cpp'],[('record parser','read_binary_weights')]),
p('C20','Reference data files load exactly or are rejected',
 'Loading a reference input or output file whose header matches the tensor returns 0 and stores all values bit for bit in channel and row order. A file that is missing, truncated, has a wrong magic number, a batch count other than 1, extents different from the tensor or a wrong end marker, or a tensor of unsupported rank, makes the loader return non-zero without writing outside the tensor and without crashing. Either way the file is closed and temporary memory released.',
 ['inputs','configurations'],'all files and all tensors of rank 1-4',
 'the loaders have no test',
 [IO+'read_binary_reference_data.cpp'],[('header checks and channel copy','read_binary_reference_input_data, read_binary_reference_output_data')]),
p('C21','MNIST reading',
 'Reading MNIST images returns min(requested, provided) images, each pixel scaled to lower + value/255*|upper-lower| inside a border of the given padding width filled with the lower bound; reading labels returns min(requested, provided) label bytes in file order; both return 0 for a missing file or wrong magic number; either way the file is closed. Endianness conversion reverses the four bytes of every 32-bit value.',
 ['inputs','configurations'],'all files that are complete or end inside the magic number, with extents of at least 1; all paddings, ranges and requested counts',
 'the readers have no test',
 [IO+'read_mnist.cpp'],[('header parsing and padding loop','read_mnist_images, read_mnist_labels'),('byte swap','change_endianess')]),
p('C22','Image files: PGM reading and writing, float image writing',
 'Writing a grey image as PGM emits a valid binary PGM with the given width and height in which every pixel is the value mapped linearly from [smallest, largest value] to [0,255] and truncated; reading a PGM in that layout (one comment line after the magic number) returns its extents and every pixel scaled to lower + value/255*|upper-lower| inside a border of the given padding width filled with the lower bound; writing a float image emits its extents and every value in row order so that it reads back bit for bit. A file that cannot be opened or (when reading) has a wrong magic number yields a non-zero result; either way the file is closed.',
 ['inputs','configurations'],'all extents whose padded image is at most 65535 pixels high and wide, all finite pixel values, paddings and ranges',
 'none of the three has a test',
 [IO+'read_pgm.cpp',IO+'write_pgm.cpp',IO+'write_float.cpp'],[('pixel loops','read_pgm, write_pgm, write_float')]),
p('C23','Text side files: means and label lists',
 'Reading a means file stores its three values exactly and rejects a missing file or wrong magic number with a non-zero result. The readers close the file. Reading a label list returns the number of lines and each line without its newline; reading a validation-label list of n-1 entries returns n and stores the class number of image i at index i, starting with index 1.',
 ['inputs'],'all well-formed files with lines of at most 253 characters, at most as many lines as the caller asks for, and (validation labels) a 28-character file name, a blank and a class number of at most four digits per line',
 'none of the readers has a test',
 [IO+'read_means.cpp',IO+'read_imagenet_labels.cpp',IO+'read_imagenet_validation_labels.cpp'],[('line loops','read_means, read_imagenet_labels, read_imagenet_validation_labels')]),
p('C24','Every layer and tensor operation terminates',
 'For every supported configuration, constructing, running and destroying a layer and every tensor operation returns after a number of steps bounded by the product of the extents involved; no combination of extents, strides, kernel sizes, paddings or element values makes an inner loop run forever.',
 ['inputs','configurations'],'all supported shapes and configurations',
 'the tests run a handful of small configurations; loop counters are unsigned and mix strides and extents',
 [L+'convolution.cpp',P+'max_pooling.cpp',P+'average_pooling.cpp',A+'lrn.cpp',TC],[('loop conditions and increments','all run/pool/activate functions')]),
p('C25','Weight export matches the loader\'s format',
 'The weight file the model importer writes for a model is exactly the format the C++ loader reads: for every layer sequence, loading an exported file yields the model\'s initialisers in the tensors the generated code passes to the layers.',
 ['inputs','programs'],'all importable models',
 'the importer has no test and needs packages absent from the sandbox',
 ['onnx_import/backend.py'],[('weight packing','BackendRep')]),
p('C26','Generated network code implements the model graph',
 'The code the importer generates executes every operator of the model after its producers, with the attributes, shapes and buffers of the model, and never lets two values that are live at the same time share a buffer.',
 ['programs'],'all importable models',
 'the importer has no test and needs packages absent from the sandbox',
 ['onnx_import/backend.py','onnx_import/compute_graph.py','onnx_import/memory_manager.py','onnx_import/pico_cnn.py'],[('graph ordering and template filling','backend.py, compute_graph.py'),('buffer reuse','memory_manager.py')]),
p('C27','JPEG reading',
 'Reading a JPEG file returns its extents and three colour planes in the order blue, green, red with every sample scaled to lower + value/255*|upper-lower|; grey images yield three equal planes. A file that cannot be opened is reported by a non-zero result. The file stays open while the decoder reads it and is closed, and the decoder\'s memory is released, before the call returns.',
 ['inputs'],'all JPEG files libjpeg decodes to one or three components, of at most 2^29 pixels; all ranges',
 'the reader has no test',
 [IO+'read_jpeg.cpp'],[('scanline loop','read_jpeg')]),
]
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for r in rows: f.write(json.dumps(r)+'\n')
print(len(rows))
