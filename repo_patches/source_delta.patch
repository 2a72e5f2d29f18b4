From f159a9ab6bed01bc15e207ac9b184378df3c36b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:20 +0000
Subject: [PATCH 01/21] fix: GlobalMaxPooling ignored the first column of every
 row but the first

---
 pico-cnn/layers/pooling/global_max_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico-cnn/layers/pooling/global_max_pooling.cpp b/pico-cnn/layers/pooling/global_max_pooling.cpp
index 96f52f9..d5995c5 100644
--- a/pico-cnn/layers/pooling/global_max_pooling.cpp
+++ b/pico-cnn/layers/pooling/global_max_pooling.cpp
@@ -27,7 +27,7 @@ void pico_cnn::naive::GlobalMaxPooling::pool(pico_cnn::naive::Tensor *input, pic
                                                num_channels, height, width);
 
                 for (uint32_t row = 0; row < height; row++) {
-                    for (uint32_t col = 1; col < width; col++) {
+                    for (uint32_t col = 0; col < width; col++) {
 
                         candidate = input->access(batch, channel, row, col, num_channels, height, width);
 
-- 
2.43.0


From 05d9681d0c12200a6e901e7c9abfa4ed15c70f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:20 +0000
Subject: [PATCH 02/21] fix: copy_with_padding_into left old data in the border
 for a zero initializer

---
 pico-cnn/tensor.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/tensor.cpp b/pico-cnn/tensor.cpp
index 34fc60b..a0f25d4 100644
--- a/pico-cnn/tensor.cpp
+++ b/pico-cnn/tensor.cpp
@@ -299,10 +299,8 @@ namespace pico_cnn {
             uint32_t height = this->height();
             uint32_t width = this->width();
 
-            if(initializer != 0.0) {
-                for (uint32_t i = 0; i < dest->num_elements(); i++) {
-                    dest->access_blob(i) = initializer;
-                }
+            for (uint32_t i = 0; i < dest->num_elements(); i++) {
+                dest->access_blob(i) = initializer;
             }
 
             if (dest->num_dimensions_ == 4) {
-- 
2.43.0


From dcc059541fd386050b161164faf92468d09c20a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:41 +0000
Subject: [PATCH 03/21] fix: padding of MaxPooling competed with negative
 inputs

---
 pico-cnn/layers/pooling/max_pooling.h | 4 ++++
 pico-cnn/layers/pooling/pooling.cpp   | 2 +-
 pico-cnn/layers/pooling/pooling.h     | 3 +++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pico-cnn/layers/pooling/max_pooling.h b/pico-cnn/layers/pooling/max_pooling.h
index 4bd2236..62e15ef 100644
--- a/pico-cnn/layers/pooling/max_pooling.h
+++ b/pico-cnn/layers/pooling/max_pooling.h
@@ -6,6 +6,8 @@
 #ifndef PICO_CNN_MAX_POOLING_H
 #define PICO_CNN_MAX_POOLING_H
 
+#include <limits>
+
 #include "../../parameters.h"
 #include "../../tensor.h"
 #include "../layer.h"
@@ -21,6 +23,8 @@ namespace pico_cnn {
 
         private:
             void pool(Tensor *input, Tensor *output) override;
+            // padding never wins against an element of the input
+            fp_t padding_value() const override { return std::numeric_limits<fp_t>::lowest(); }
         };
     }
 }
diff --git a/pico-cnn/layers/pooling/pooling.cpp b/pico-cnn/layers/pooling/pooling.cpp
index f9a413b..85cf001 100644
--- a/pico-cnn/layers/pooling/pooling.cpp
+++ b/pico-cnn/layers/pooling/pooling.cpp
@@ -38,7 +38,7 @@ void pico_cnn::naive::Pooling::run(pico_cnn::naive::Tensor *input, pico_cnn::nai
         Tensor *input_tensor;
 
         if (padding_) {
-            input_tensor = input->expand_with_padding(padding_);
+            input_tensor = input->expand_with_padding(padding_, padding_value());
         } else {
             input_tensor = input;
         }
diff --git a/pico-cnn/layers/pooling/pooling.h b/pico-cnn/layers/pooling/pooling.h
index 56b0012..aac8a83 100644
--- a/pico-cnn/layers/pooling/pooling.h
+++ b/pico-cnn/layers/pooling/pooling.h
@@ -22,6 +22,9 @@ namespace pico_cnn {
         protected:
             virtual void pool(Tensor *input, Tensor *output) = 0;
 
+            // value of the elements that padding adds around the input
+            virtual fp_t padding_value() const { return 0.0; }
+
             uint32_t *kernel_size_;
             uint32_t *stride_;
             uint32_t *padding_;
-- 
2.43.0


From d591efbf1fe099d0c0f1586c5ef2e928bbe1ac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:41 +0000
Subject: [PATCH 04/21] fix: AveragePooling without count_include_pad chose the
 divisor from output coordinates and needed a padding array

---
 pico-cnn/layers/pooling/average_pooling.cpp | 24 +++++++++++++--------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pico-cnn/layers/pooling/average_pooling.cpp b/pico-cnn/layers/pooling/average_pooling.cpp
index ba80c79..3d4aed7 100644
--- a/pico-cnn/layers/pooling/average_pooling.cpp
+++ b/pico-cnn/layers/pooling/average_pooling.cpp
@@ -66,6 +66,9 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
 
         } else if(count_include_pad_ == 0) {
 
+            const uint32_t no_padding[4] = {0, 0, 0, 0};
+            const uint32_t *padding = padding_ ? padding_ : no_padding;
+
             for (uint32_t batch = 0; batch < num_batches; batch++) {
                 for (uint32_t channel = 0; channel < num_channels; channel++) {
 
@@ -89,8 +92,8 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
                             }
 
                             // center case
-                            if (output_channel_row >= padding_[0] && output_channel_row < output_channel_height - padding_[2] &&
-                                output_channel_column >= padding_[1] && output_channel_column < output_channel_width - padding_[3]) {
+                            if (channel_row >= padding[0] && channel_row + kernel_size_[0] <= height - padding[2] &&
+                                channel_column >= padding[1] && channel_column + kernel_size_[1] <= width - padding[3]) {
 
                                 output->access(batch, channel, output_channel_row, output_channel_column,
                                                num_channels, output_height, output_width) = pixel / ((fp_t) (kernel_size_[0] * kernel_size_[1]));
@@ -101,12 +104,12 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
                                 uint32_t up_row, down_row, left_col, right_col;
                                 int32_t divisor, div_row, div_col;
 
-                                up_row = MAX(channel_row, padding_[0]);
-                                down_row = MIN(channel_row + kernel_size_[0] - 1, height - padding_[2] - 1);
+                                up_row = MAX(channel_row, padding[0]);
+                                down_row = MIN(channel_row + kernel_size_[0] - 1, height - padding[2] - 1);
                                 div_row = down_row - up_row + 1;
 
-                                left_col = MAX(channel_column, padding_[1]);
-                                right_col = MIN(channel_column + kernel_size_[1] - 1, width - padding_[3] - 1);
+                                left_col = MAX(channel_column, padding[1]);
+                                right_col = MIN(channel_column + kernel_size_[1] - 1, width - padding[3] - 1);
                                 div_col = right_col - left_col + 1;
 
                                 divisor = div_row * div_col;
@@ -168,6 +171,9 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
 
         } else if(count_include_pad_ == 0) {
 
+            const uint32_t no_padding[4] = {0, 0, 0, 0};
+            const uint32_t *padding = padding_ ? padding_ : no_padding;
+
             for (uint32_t batch = 0; batch < num_batches; batch++) {
                 for (uint32_t channel = 0; channel < num_channels; channel++) {
 
@@ -187,7 +193,7 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
                         }
 
                         // center case
-                        if (output_channel_column >= padding_[0] && output_channel_column < output_channel_width - padding_[1]) {
+                        if (channel_column >= padding[0] && channel_column + kernel_size_[0] <= width - padding[1]) {
 
                             output->access(batch, channel, output_channel_column,
                                            num_channels, output_width) = pixel / ((fp_t) (kernel_size_[0]));
@@ -197,8 +203,8 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
                             uint32_t left_col, right_col;
                             int32_t divisor, div_col;
 
-                            left_col = MAX(channel_column, padding_[0]);
-                            right_col = MIN(channel_column + kernel_size_[0] - 1, width - padding_[1] - 1);
+                            left_col = MAX(channel_column, padding[0]);
+                            right_col = MIN(channel_column + kernel_size_[0] - 1, width - padding[1] - 1);
                             div_col = right_col - left_col + 1;
 
                             divisor = div_col;
-- 
2.43.0


From 82885dd06032ea9caa088468a695d96aa694f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 05/21] fix: Tensor comparison ignored the number of dimensions
 and read past the shorter shape

---
 pico-cnn/tensor.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pico-cnn/tensor.h b/pico-cnn/tensor.h
index e86c6c1..22c8461 100644
--- a/pico-cnn/tensor.h
+++ b/pico-cnn/tensor.h
@@ -92,6 +92,10 @@ namespace pico_cnn {
             void mul_with_factor(Tensor *other, fp_t factor);
 
             bool operator ==(const Tensor &other) const {
+                if (num_dimensions_ != other.num_dimensions_) {
+                    PRINT_ERROR("Number of dimensions does not match: " << num_dimensions_ << " != " << other.num_dimensions_)
+                    return false;
+                }
                 for (uint32_t i = 0; i < num_dimensions_; i++) {
                     if(shape_[i] != other.shape_[i]) {
                         PRINT_ERROR("Shape does not match at position " << i << ": " << shape_[i] << " != " << other.shape_[i])
-- 
2.43.0


From 70345a93d7af7b4cccb93d37dd103d55273cc9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 06/21] fix: read_binary_weights returned by closing a null
 FILE when the file does not exist

---
 pico-cnn/io/read_binary_weights.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 4f253b5..8e94f02 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -382,6 +382,9 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
         }
         PRINT_DEBUG(end_marker)
 
+    } else {
+        PRINT_ERROR("ERROR: Could not open weights file: " << path_to_weights_file)
+        return 1;
     }
     fclose(binary_file);
     return 0;
-- 
2.43.0


From be4acd9fa0a63845624fe497d1e6157c6f6fb12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 07/21] fix: read_binary_weights released arrays from new[]
 with free() on truncated files

---
 pico-cnn/io/read_binary_weights.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 8e94f02..04a25aa 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -125,7 +125,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                         for (uint32_t in_ch = 0; in_ch < num_input_channels; in_ch++) {
                             if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
                                 PRINT_ERROR("ERROR while reading kernel values.")
-                                free(values);
+                                delete[] values;
                                 fclose(binary_file);
                                 return 1;
                             }
@@ -152,7 +152,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -178,7 +178,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) gamma_values, sizeof(float), num_gamma, binary_file) != num_gamma) {
                         PRINT_ERROR("ERROR while reading gamma values.")
-                        free(gamma_values);
+                        delete[] gamma_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -203,7 +203,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) beta_values, sizeof(float), num_beta, binary_file) != num_beta) {
                         PRINT_ERROR("ERROR while reading beta values.")
-                        free(beta_values);
+                        delete[] beta_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -228,7 +228,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) mean_values, sizeof(float), num_mean, binary_file) != num_mean) {
                         PRINT_ERROR("ERROR while reading mean values.")
-                        free(mean_values);
+                        delete[] mean_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -253,7 +253,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) variance_values, sizeof(float), num_variance, binary_file) != num_variance) {
                         PRINT_ERROR("ERROR while reading variance values.")
-                        free(variance_values);
+                        delete[] variance_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -299,7 +299,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 for(kernel = 0; kernel < num_kernels; kernel++) {
                     if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
                         PRINT_ERROR("ERROR while reading kernel values.")
-                        free(values);
+                        delete[] values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -323,7 +323,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -347,7 +347,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
-- 
2.43.0


From 2f69d86f5d0d4f2c9ba6527cb4c349366f381292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 08/21] fix: read_binary_weights wrote past its name buffers
 for names of 100 characters or more

---
 pico-cnn/io/read_binary_weights.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 04a25aa..f5b8f29 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -33,6 +33,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 fclose(binary_file);
                 return 1;
             }
+            if(i == sizeof(buffer)) {
+                PRINT_ERROR("ERROR: name in weights file is too long")
+                fclose(binary_file);
+                return 1;
+            }
             buffer[i] = c;
         }
         buffer[i-1] = '\0'; //terminate string correctly
@@ -67,6 +72,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                     fclose(binary_file);
                     return 1;
                 }
+                if(i == sizeof(buffer)) {
+                    PRINT_ERROR("ERROR: name in weights file is too long")
+                    fclose(binary_file);
+                    return 1;
+                }
                 buffer[i] = c;
             }
             buffer[i-1] = '\0'; //terminate string correctly
@@ -81,6 +91,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                     fclose(binary_file);
                     return 1;
                 }
+                if(i == sizeof(buffer_layer_type)) {
+                    PRINT_ERROR("ERROR: name in weights file is too long")
+                    fclose(binary_file);
+                    return 1;
+                }
                 buffer_layer_type[i] = c;
             }
             buffer_layer_type[i-1] = '\0'; //terminate string correctly
-- 
2.43.0


From 0fe6fc9d959ead0dc84da325549e3e7d98c903e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 09/21] fix: reference data readers closed a null FILE when the
 file does not exist

---
 pico-cnn/io/read_binary_reference_data.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pico-cnn/io/read_binary_reference_data.cpp b/pico-cnn/io/read_binary_reference_data.cpp
index 125fe60..b7473cf 100644
--- a/pico-cnn/io/read_binary_reference_data.cpp
+++ b/pico-cnn/io/read_binary_reference_data.cpp
@@ -131,6 +131,9 @@ int32_t read_binary_reference_input_data(const char* path_to_sample_data, pico_c
             return 1;
         }
         PRINT_DEBUG(end_marker)
+    } else {
+        PRINT_ERROR("ERROR: Could not open file: " << path_to_sample_data)
+        return 1;
     }
     fclose(binary_file);
 
@@ -229,6 +232,9 @@ int32_t read_binary_reference_output_data(const char* path_to_sample_data, pico_
             return 1;
         }
         PRINT_DEBUG(end_marker)
+    } else {
+        PRINT_ERROR("ERROR: Could not open file: " << path_to_sample_data)
+        return 1;
     }
     fclose(binary_file);
 
-- 
2.43.0


From 584012e6d357c6e7631bd1a2018d135f656dc301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 10/21] fix: reference data readers released arrays from new[]
 with free() and leaked the file on truncated data

---
 pico-cnn/io/read_binary_reference_data.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/io/read_binary_reference_data.cpp b/pico-cnn/io/read_binary_reference_data.cpp
index b7473cf..5c5b6e5 100644
--- a/pico-cnn/io/read_binary_reference_data.cpp
+++ b/pico-cnn/io/read_binary_reference_data.cpp
@@ -102,7 +102,8 @@ int32_t read_binary_reference_input_data(const char* path_to_sample_data, pico_c
 
             if(numbers_read != height*width) {
                 PRINT_ERROR("ERROR reading data. numbers_read = " << numbers_read)
-                free(values);
+                delete[] values;
+                fclose(binary_file);
                 return 1;
             } else {
                 #ifdef DEBUG
@@ -202,7 +203,7 @@ int32_t read_binary_reference_output_data(const char* path_to_sample_data, pico_
 
         if(fread((void*)values, sizeof(float), num_outputs, binary_file) != num_outputs) {
             PRINT_ERROR("ERROR reading output values.")
-            free(values);
+            delete[] values;
             fclose(binary_file);
             return 1;
         }
-- 
2.43.0


From fb1c9f00a89311aa91967bbbc5c81d5a9e094aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 11/21] fix: read_pgm skipped leading pixels whose value is a
 whitespace character

---
 pico-cnn/io/read_pgm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pico-cnn/io/read_pgm.cpp b/pico-cnn/io/read_pgm.cpp
index 0e0b55c..edd0095 100644
--- a/pico-cnn/io/read_pgm.cpp
+++ b/pico-cnn/io/read_pgm.cpp
@@ -25,7 +25,9 @@ int32_t read_pgm(fp_t** image, const char* pgm_path, const uint8_t padding, cons
         // read dimensions
         fscanf(pgm_file, "%hu %hu\n", width, height);
         // read max gray value
-        fscanf(pgm_file, "%hhu\n", &max_gray_value);
+        fscanf(pgm_file, "%hhu", &max_gray_value);
+        // a single whitespace character separates the header from the pixels
+        fgetc(pgm_file);
 
         (*image) = (fp_t*) malloc(((*height)+2*padding) * ((*width)+2*padding) * sizeof(fp_t));
 
-- 
2.43.0


From a4a49aa0deaba7e80811994ef714f3eda3a250d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 12/21] fix: read_pgm compared an uninitialised buffer with the
 magic number of an empty file

---
 pico-cnn/io/read_pgm.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pico-cnn/io/read_pgm.cpp b/pico-cnn/io/read_pgm.cpp
index edd0095..5b70032 100644
--- a/pico-cnn/io/read_pgm.cpp
+++ b/pico-cnn/io/read_pgm.cpp
@@ -9,9 +9,7 @@ int32_t read_pgm(fp_t** image, const char* pgm_path, const uint8_t padding, cons
 
         char buffer[100];
 
-        fgets(buffer, 100, pgm_file);
-
-        if(strcmp(buffer,"P5\n") != 0) {
+        if(fgets(buffer, 100, pgm_file) == nullptr || strcmp(buffer,"P5\n") != 0) {
             fclose(pgm_file);
             return 1;
         }
-- 
2.43.0


From 5b7c87fbf363f9b92af13d6d5b77bc4ba0789701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 13/21] fix: MNIST readers checked an uninitialised magic
 number when the file is shorter than four bytes

---
 pico-cnn/io/read_mnist.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/io/read_mnist.cpp b/pico-cnn/io/read_mnist.cpp
index 9e458d1..cbce988 100644
--- a/pico-cnn/io/read_mnist.cpp
+++ b/pico-cnn/io/read_mnist.cpp
@@ -15,7 +15,7 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
     images = fopen(path_to_mnist_images, "r");
 
     if(images != nullptr) {
-        uint32_t magic_number;
+        uint32_t magic_number = 0;
         uint32_t num_images_provided;
         uint32_t height;
         uint32_t width;
@@ -88,7 +88,7 @@ uint32_t read_mnist_labels(const char* path_to_mnist_labels, uint8_t** mnist_lab
     labels = fopen(path_to_mnist_labels, "r");
 
     if(labels != nullptr) {
-        uint32_t magic_number;
+        uint32_t magic_number = 0;
         uint32_t num_labels_provided;
 
         uint32_t i;
-- 
2.43.0


From fef1fd33eacc57dc00d4069a281ccc1d12d23a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 14/21] fix: write_pgm found wrong extrema for images whose
 values are all above 1000 or below -1000

---
 pico-cnn/io/write_pgm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/io/write_pgm.cpp b/pico-cnn/io/write_pgm.cpp
index 9e2cf3a..7b774e4 100644
--- a/pico-cnn/io/write_pgm.cpp
+++ b/pico-cnn/io/write_pgm.cpp
@@ -3,8 +3,8 @@
 int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width, const char* pgm_path) {
 
     // determine max gray value
-    fp_t max_gray_value = -1000;
-    fp_t min_gray_value = 1000;
+    fp_t max_gray_value = image[0];
+    fp_t min_gray_value = image[0];
     uint16_t row, column;
 
     for(row = 0; row < height; row++) {
-- 
2.43.0


From 4319c1806616be1977b9ff5244c9baf50d94448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 15/21] fix: write_pgm divided by zero for constant images

---
 pico-cnn/io/write_pgm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pico-cnn/io/write_pgm.cpp b/pico-cnn/io/write_pgm.cpp
index 7b774e4..c02c696 100644
--- a/pico-cnn/io/write_pgm.cpp
+++ b/pico-cnn/io/write_pgm.cpp
@@ -19,6 +19,9 @@ int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width
     }
 
     fp_t gray_value_range = fabsf(min_gray_value - max_gray_value);
+    if(gray_value_range == 0) {
+        gray_value_range = 1; // constant image
+    }
 
     FILE* pgm_file;
     pgm_file = fopen(pgm_path, "w+");
-- 
2.43.0


From 450e197d20dcf875fc93ecd145e3c00441f34e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 16/21] fix: read_imagenet_labels wrote past its table of 1000
 labels instead of using num_labels

---
 pico-cnn/io/read_imagenet_labels.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pico-cnn/io/read_imagenet_labels.cpp b/pico-cnn/io/read_imagenet_labels.cpp
index 2918d19..68f26b4 100644
--- a/pico-cnn/io/read_imagenet_labels.cpp
+++ b/pico-cnn/io/read_imagenet_labels.cpp
@@ -6,13 +6,13 @@ int32_t read_imagenet_labels(const char* path_to_imagenet_labels, char*** imagen
 
     if(labels_file != nullptr) {
 
-        (*imagenet_labels) = (char**) malloc(1000*sizeof(char*));
+        (*imagenet_labels) = (char**) malloc(num_labels*sizeof(char*));
 
         char buffer[255];
-        int32_t i = 0;
+        uint32_t i = 0;
         int32_t label_length;
 
-        while(fgets(buffer, 255, labels_file)) {
+        while(i < num_labels && fgets(buffer, 255, labels_file)) {
             label_length = strlen(buffer);
             (*imagenet_labels)[i] = (char*) malloc((label_length)*sizeof(char));
             strncpy((*imagenet_labels)[i], buffer, label_length-1);
-- 
2.43.0


From b9c3ed68e040b9f1edfd73523adb943c66e5f4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 17/21] fix: read_imagenet_labels dropped the last character of
 a final line without newline

---
 pico-cnn/io/read_imagenet_labels.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/io/read_imagenet_labels.cpp b/pico-cnn/io/read_imagenet_labels.cpp
index 68f26b4..e5d6229 100644
--- a/pico-cnn/io/read_imagenet_labels.cpp
+++ b/pico-cnn/io/read_imagenet_labels.cpp
@@ -13,10 +13,10 @@ int32_t read_imagenet_labels(const char* path_to_imagenet_labels, char*** imagen
         int32_t label_length;
 
         while(i < num_labels && fgets(buffer, 255, labels_file)) {
-            label_length = strlen(buffer);
-            (*imagenet_labels)[i] = (char*) malloc((label_length)*sizeof(char));
-            strncpy((*imagenet_labels)[i], buffer, label_length-1);
-            (*imagenet_labels)[i][label_length-1] = '\0';
+            label_length = strcspn(buffer, "\n");
+            (*imagenet_labels)[i] = (char*) malloc((label_length+1)*sizeof(char));
+            strncpy((*imagenet_labels)[i], buffer, label_length);
+            (*imagenet_labels)[i][label_length] = '\0';
             i++;
         }
 
-- 
2.43.0


From 2d61ba432452bb0c4a942a68c1303a445b60c9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 18/21] fix: let max pooling padding lose against inputs of
 -infinity too

---
 pico-cnn/layers/pooling/max_pooling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico-cnn/layers/pooling/max_pooling.h b/pico-cnn/layers/pooling/max_pooling.h
index 62e15ef..d7b09cd 100644
--- a/pico-cnn/layers/pooling/max_pooling.h
+++ b/pico-cnn/layers/pooling/max_pooling.h
@@ -24,7 +24,7 @@ namespace pico_cnn {
         private:
             void pool(Tensor *input, Tensor *output) override;
             // padding never wins against an element of the input
-            fp_t padding_value() const override { return std::numeric_limits<fp_t>::lowest(); }
+            fp_t padding_value() const override { return -std::numeric_limits<fp_t>::infinity(); }
         };
     }
 }
-- 
2.43.0


From 001ba5ce5bbbdb280e3f71cc12f72c9ba00fc6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:58 +0000
Subject: [PATCH 19/21] fix: read_imagenet_validation_labels parsed class
 numbers of four digits without a terminator

---
 pico-cnn/io/read_imagenet_validation_labels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico-cnn/io/read_imagenet_validation_labels.cpp b/pico-cnn/io/read_imagenet_validation_labels.cpp
index f301f95..2c66346 100644
--- a/pico-cnn/io/read_imagenet_validation_labels.cpp
+++ b/pico-cnn/io/read_imagenet_validation_labels.cpp
@@ -9,7 +9,7 @@ int32_t read_imagenet_validation_labels(const char* path_to_imagenet_validation_
         (*imagenet_validation_labels) = (uint32_t*) malloc((num_labels+1)*sizeof(uint32_t));
 
         char buffer[255];
-        char label_buffer[6];
+        char label_buffer[6] = {0};
         uint32_t i = 1;
 
         while(fgets(buffer, 255, labels_file) && i < num_labels) {
-- 
2.43.0


From 8225c377e26ba92f32adb60bfe21434b06b28dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:47 +0000
Subject: [PATCH 20/21] fix: read_jpeg: row stride of wide images does not fit
 into 16 bits

A row of width*components bytes exceeds 65535 from 21846 RGB pixels on; the
scanline buffer was allocated with the truncated size and overrun.
---
 pico-cnn/io/read_jpeg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico-cnn/io/read_jpeg.cpp b/pico-cnn/io/read_jpeg.cpp
index e460bc7..5338aed 100644
--- a/pico-cnn/io/read_jpeg.cpp
+++ b/pico-cnn/io/read_jpeg.cpp
@@ -14,7 +14,7 @@ int32_t read_jpeg(fp_t*** image, const char* jpeg_path, const fp_t lower_bound,
         struct jpeg_error_mgr jerr;
 
         JSAMPARRAY jpeg_buffer;
-        uint16_t row_stride;
+        uint32_t row_stride;
         uint32_t pos = 0;
 
         cinfo.err = jpeg_std_error(&jerr);
-- 
2.43.0


From 4b8b4f5adf5f5bfc456e726bbee4329c5a79a26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:47 +0000
Subject: [PATCH 21/21] fix: read_jpeg: close the file after decompression has
 finished

jpeg_finish_decompress reads up to the end-of-image marker and refills its
buffer from the file when the marker is not in it yet (a comment after the
scan, or a buffer boundary there), which used a closed FILE.
---
 pico-cnn/io/read_jpeg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico-cnn/io/read_jpeg.cpp b/pico-cnn/io/read_jpeg.cpp
index 5338aed..c14bbd3 100644
--- a/pico-cnn/io/read_jpeg.cpp
+++ b/pico-cnn/io/read_jpeg.cpp
@@ -64,9 +64,9 @@ int32_t read_jpeg(fp_t*** image, const char* jpeg_path, const fp_t lower_bound,
                 pos++;
             }
         }
-        fclose(jpeg_file);
         (void) jpeg_finish_decompress(&cinfo);
         jpeg_destroy_decompress(&cinfo);
+        fclose(jpeg_file);
 
         return 0;
     }
-- 
2.43.0

