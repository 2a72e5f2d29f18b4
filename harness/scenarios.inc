SC(identity) SC(relu) SC(leaky) SC(clip) SC(sigmoid) SC(tanh) SC(softmax) SC(lrn) SC(prelu) SC(bn) SC(conv)
SC(maxpool) SC(avgpool) SC(gmaxpool) SC(gavgpool) SC(fc) SC(matmul)
SC(ctor) SC(expand) SC(padinto) SC(copy) SC(add) SC(addch) SC(scale) SC(eq) SC(concat) SC(height) SC(width)
SC(refin) SC(refout) SC(weights) SC(endian) SC(mnistimg) SC(mnistlab) SC(readpgm) SC(readjpeg) SC(writepgm) SC(writefloat) SC(means) SC(labels) SC(vlabels)
