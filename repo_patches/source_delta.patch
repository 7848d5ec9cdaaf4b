From 7fc5c9683be541cc649750e4a4901de841b24b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:13 +0000
Subject: [PATCH 01/21] fix: max pooling pads with the lowest float so padding
 never wins over negative pixels

---
 src/runtime/cpu/kernels/kernels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index 99d56d5..222f85f 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -220,7 +220,7 @@ void deepworks::CPUMaxPoolingForward(const Tensor& input,
     std::array<int, 2> dilation{1, 1};
     for (size_t i = 0; i < batch * c; i++) {
         Tensor src_plane({1, 1, h_in, w_in}, input.data() + i * input_offset);
-        im2col(src_plane, im2col_buf, kernel, padding, stride, dilation, std::numeric_limits<float>::min());
+        im2col(src_plane, im2col_buf, kernel, padding, stride, dilation, std::numeric_limits<float>::lowest());
 
         ConstMatrix col_mat{im2col_buf.data(), rows, cols};
         for (int j = 0; j < cols; j++) {
-- 
2.43.0


From 4fafce3a5ec5d83afec2f6c4a0bdb897b730d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:14 +0000
Subject: [PATCH 02/21] fix: BatchNorm2D backward accumulates into the input
 gradient instead of overwriting it

---
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index 7ce9272..58cc5be 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -85,8 +85,8 @@ void deepworks::cpu::CPUBatchNorm2D::backward(const std::vector<deepworks::Tenso
     int C = grad_output_shape[1];
     deepworks::utils::NCHW2NHWC(grad_output, nhwc_out);
 
-    // NB: CPUBatchNorm1DInputGrad expects that input_grad is already initiliazed.
-    deepworks::initializer::zeros(nhwc_in);
+    // NB: CPUBatchNorm1DInputGrad adds to the gradient accumulated so far.
+    deepworks::utils::NCHW2NHWC(grad_input, nhwc_in);
     deepworks::CPUBatchNorm1DInputGrad({m_input_centered.data(), static_cast<int>(grad_output.total()) / C, C},
                                        {m_std.data(),C},
                                        {nhwc_out.data(), static_cast<int>(grad_output.total()) / C, C},
-- 
2.43.0


From 7f5122c65270a366170ea57475beb8fdfbb6beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:14 +0000
Subject: [PATCH 03/21] fix: BatchNorm2D resizes its scratch tensors when the
 input shape changes

---
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index 58cc5be..e43e974 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -49,12 +49,12 @@ void deepworks::cpu::CPUBatchNorm2D::forward(const std::vector<deepworks::Tensor
     int H = in_shape[2];
     int W = in_shape[3];
 
-    if (nhwc_in.empty()) {
+    if (nhwc_in.shape() != Shape{N, H, W, C}) {
         nhwc_in  = Tensor({N, H, W, C});
         nhwc_out = Tensor({N, H, W, C});
     }
 
-    if (m_input_centered.empty()) {
+    if (m_input_centered.shape() != Shape{N * H * W, C}) {
         m_input_centered = Tensor({N * H * W, C});
     }
 
-- 
2.43.0


From df313298eb4fa50c2b71388d56e2fe32d81cb03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:02 +0000
Subject: [PATCH 04/21] fix: validate input shapes (outShape) before init reads
 them when a layer is applied

---
 include/deepworks/base_op.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/deepworks/base_op.hpp b/include/deepworks/base_op.hpp
index f7f2675..64ab0d2 100644
--- a/include/deepworks/base_op.hpp
+++ b/include/deepworks/base_op.hpp
@@ -31,11 +31,13 @@ struct BaseOp {
     template <typename... Placeholders>
     Placeholder operator()(Placeholders... ins) {
         auto get_shape = [](Placeholder ph) { return ph.shape(); };
+        // NB: outShape validates input shapes, so it must precede init.
+        auto out_shape = static_cast<D*>(this)->outShape(get_shape(ins)...);
         static_cast<D*>(this)->init(get_shape(ins)...);
 
         Call call{m_info};
         call.pass({ins...});
-        return call.create(static_cast<D*>(this)->outShape(get_shape(ins)...));
+        return call.create(out_shape);
     }
 
     // NB: Generic operator() which works with vector
-- 
2.43.0


From 41ddeac5ba91b4d8e96abc1460256fc316f79e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:02 +0000
Subject: [PATCH 05/21] fix: BatchNorm1D refuses inputs that are not 2D like
 the other layers do

---
 src/expression/nn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/expression/nn.cpp b/src/expression/nn.cpp
index d0b9d66..90077c8 100644
--- a/src/expression/nn.cpp
+++ b/src/expression/nn.cpp
@@ -190,6 +190,7 @@ void dw::BatchNorm1D::init(const Shape& in_shape) {
 }
 
 dw::Shape dw::BatchNorm1D::outShape(const dw::Shape& in_shape) {
+    DeepWorks_Assert(in_shape.size() == 2u && "BatchNorm1D layer works only with 2D tensors");
     return in_shape;
 }
 
-- 
2.43.0


From 9e8c0206a82dec5263129633b49b8ffe2b7cf104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:51 +0000
Subject: [PATCH 06/21] fix: Tensor::reshape refuses negative dimensions

---
 src/runtime/tensor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/tensor.cpp b/src/runtime/tensor.cpp
index 3fb2b37..07abafa 100644
--- a/src/runtime/tensor.cpp
+++ b/src/runtime/tensor.cpp
@@ -95,6 +95,10 @@ void dw::Tensor::allocate(const dw::Shape& shape) {
 }
 
 void dw::Tensor::reshape(const dw::Shape& shape) {
+    bool have_negative_dim = std::any_of(shape.begin(), shape.end(),
+                                         [](int dim) { return dim < 0; });
+    DeepWorks_Assert(!have_negative_dim && "Cannot reshape tensor to dynamic shape.");
+
     auto shape_total_size = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<int>());
     DeepWorks_Assert(shape_total_size == m_descriptor->total && "Total sizes must be equal");
 
-- 
2.43.0


From add0c1bc5c75e091b76691260c83f558dd420d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:51 +0000
Subject: [PATCH 07/21] fix: count tensor elements in size_t so that large
 shapes do not overflow int

---
 src/runtime/tensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/tensor.cpp b/src/runtime/tensor.cpp
index 07abafa..5cc6624 100644
--- a/src/runtime/tensor.cpp
+++ b/src/runtime/tensor.cpp
@@ -72,7 +72,7 @@ void dw::Tensor::init(const dw::Shape& shape) {
     m_descriptor->strides = calculateStrides(shape);
     m_descriptor->total   = std::accumulate(shape.begin(),
                                             shape.end(),
-                                            1,
+                                            size_t{1},
                                             std::multiplies<>());
 }
 
@@ -99,7 +99,7 @@ void dw::Tensor::reshape(const dw::Shape& shape) {
                                          [](int dim) { return dim < 0; });
     DeepWorks_Assert(!have_negative_dim && "Cannot reshape tensor to dynamic shape.");
 
-    auto shape_total_size = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<int>());
+    auto shape_total_size = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<>());
     DeepWorks_Assert(shape_total_size == m_descriptor->total && "Total sizes must be equal");
 
     m_descriptor->shape = shape;
-- 
2.43.0


From 6f38dc0e0744d1fc2ea1ca296a6057429f055a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:12 +0000
Subject: [PATCH 08/21] fix: do not fclose a file that failed to open in the
 image readers

---
 src/io/image_reader.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 75474c6..b44fc44 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -30,7 +30,6 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
     FILE *infile = fopen(path.data(), "rb");
 
     if (!infile) {
-        fclose(infile);
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
@@ -101,7 +100,6 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_PNG
     FILE *infile = fopen(path.data(), "rb");
     if (!infile) {
-        fclose(infile);
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
-- 
2.43.0


From deb6577e332f06aecdf782b974b0ba0ecbcc2614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:12 +0000
Subject: [PATCH 09/21] fix: image readers open exactly the path given,
 string_view is not null-terminated

---
 src/io/image_reader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index b44fc44..c0862a0 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -1,5 +1,6 @@
 #include <stdexcept>
 #include <sstream>
+#include <string>
 
 #include <deepworks/tensor.hpp>
 #include <deepworks/utils/assert.hpp>
@@ -27,7 +28,7 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_JPEG
     struct jpeg_decompress_struct cinfo{};
     struct jpeg_error_mgr err{};
-    FILE *infile = fopen(path.data(), "rb");
+    FILE *infile = fopen(std::string(path).c_str(), "rb");
 
     if (!infile) {
         DeepWorks_Throw() << "can't open file: " << path;
@@ -98,7 +99,7 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 
 void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_PNG
-    FILE *infile = fopen(path.data(), "rb");
+    FILE *infile = fopen(std::string(path).c_str(), "rb");
     if (!infile) {
         DeepWorks_Throw() << "can't open file: " << path;
     }
-- 
2.43.0


From edff16ee85c63c838b20040dbb2ce1d988995fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:12 +0000
Subject: [PATCH 10/21] fix: PNG reader checks the signature read and the
 decoder creation

---
 src/io/image_reader.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index c0862a0..5b430a1 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -109,15 +109,15 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
     png_infop   info_ptr{};
     try {
         char header[8];
-        // FIXME: Handle that properly.
         size_t sz = fread(header, 1, 8, infile);
-        (void)sz;
-        if (png_sig_cmp(reinterpret_cast<png_const_bytep>(header), 0, 8)) {
+        if (sz != 8 || png_sig_cmp(reinterpret_cast<png_const_bytep>(header), 0, 8)) {
             DeepWorks_Throw() << "File is not a PNG file: " << path;
         }
         png_ptr = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL, NULL);
+        DeepWorks_Assert(png_ptr && "Couldn't create png read struct");
 
         info_ptr = png_create_info_struct(png_ptr);
+        DeepWorks_Assert(info_ptr && "Couldn't create png info struct");
 
         DeepWorks_Assert(!setjmp(png_jmpbuf(png_ptr)) && "Error during init_io");
 
-- 
2.43.0


From 4f51769d7256dc83971dabbc848cac8ad5305dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:12 +0000
Subject: [PATCH 11/21] fix: PNG reader releases its row buffers when decoding
 fails

---
 src/io/image_reader.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 5b430a1..a23765f 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -1,6 +1,7 @@
 #include <stdexcept>
 #include <sstream>
 #include <string>
+#include <vector>
 
 #include <deepworks/tensor.hpp>
 #include <deepworks/utils/assert.hpp>
@@ -104,7 +105,8 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
-    png_bytep*  row_pointers = nullptr;
+    std::vector<png_byte>  image;
+    std::vector<png_bytep> row_pointers;
     png_structp png_ptr{};
     png_infop   info_ptr{};
     try {
@@ -138,29 +140,28 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
         }
 
         deepworks::Tensor::Type *dst_data = out_tensor.data();
+        // NB: Row buffers must not change between setjmp and longjmp.
+        const size_t row_bytes = png_get_rowbytes(png_ptr, info_ptr);
+        image.resize(row_bytes * height);
+        row_pointers.resize(height);
+        for (int y = 0; y < height; y++) {
+            row_pointers[y] = image.data() + y * row_bytes;
+        }
+
         /* read file */
         DeepWorks_Assert(!setjmp(png_jmpbuf(png_ptr)) && "Error during read image");
 
-        row_pointers = (png_bytep *) malloc(sizeof(png_bytep) * height);
-        for (int y = 0; y < height; y++) {
-            row_pointers[y] = (png_byte *) malloc(png_get_rowbytes(png_ptr, info_ptr));
-        }
-        png_read_image(png_ptr, row_pointers);
+        png_read_image(png_ptr, row_pointers.data());
         // it's works if we have default hwc layout for tensor
         const size_t elements_per_h_channel = width * channels;
         for (int h = 0; h < height; ++h) {
             std::copy_n(row_pointers[h], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
         }
-        for (int y = 0; y < height; y++) {
-            free(row_pointers[y]);
-        }
     } catch (...) {
-        free(row_pointers);
         fclose(infile);
         png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
         throw;
     }
-    free(row_pointers);
     fclose(infile);
     png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
 #else
-- 
2.43.0


From 7c57e0b0f8aa5af7667aa3aa0ccc93627fe16b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:12 +0000
Subject: [PATCH 12/21] fix: PNG reader decodes samples of every bit depth to
 one byte each

---
 src/io/image_reader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index a23765f..ba85535 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -132,6 +132,9 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
         int height = static_cast<int>(png_get_image_height(png_ptr, info_ptr));
         int channels = static_cast<int>(png_get_channels(png_ptr, info_ptr));
 
+        // NB: One byte per sample whatever the bit depth of the file is.
+        png_set_packing(png_ptr);
+        png_set_strip_16(png_ptr);
         png_read_update_info(png_ptr, info_ptr);
         if (out_tensor.empty()) {
             out_tensor.allocate(deepworks::Shape{height, width, channels});
-- 
2.43.0


From cae9cf23f3d3d085e553e1674f3a234b890d1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:12 +0000
Subject: [PATCH 13/21] fix: JPEG decoder errors are reported by an exception
 instead of exiting the process

---
 src/io/image_reader.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index ba85535..f61320e 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -6,6 +6,8 @@
 #include <deepworks/tensor.hpp>
 #include <deepworks/utils/assert.hpp>
 
+#include <csetjmp>
+
 #ifdef HAVE_JPEG
 #include <jpeglib.h>
 #endif
@@ -25,10 +27,21 @@ bool IsJpegFile(std::string_view path) {
     return path.substr(path.find_last_of(".") + 1) == "jpg" || path.substr(path.find_last_of(".") + 1) == "jpeg";
 }
 
+#ifdef HAVE_JPEG
+struct JpegErrorManager {
+    struct jpeg_error_mgr base;
+    jmp_buf               jump;
+};
+
+void OnJpegError(j_common_ptr cinfo) {
+    longjmp(reinterpret_cast<JpegErrorManager*>(cinfo->err)->jump, 1);
+}
+#endif
+
 void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_JPEG
     struct jpeg_decompress_struct cinfo{};
-    struct jpeg_error_mgr err{};
+    JpegErrorManager err{};
     FILE *infile = fopen(std::string(path).c_str(), "rb");
 
     if (!infile) {
@@ -45,13 +58,10 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
         fclose(infile);
     };
 
-    auto finish_and_destroy = [&]() {
-        (void) jpeg_finish_decompress(&cinfo);
-        destroy();
-    };
-
     try {
-        cinfo.err = jpeg_std_error(&err);
+        cinfo.err = jpeg_std_error(&err.base);
+        err.base.error_exit = OnJpegError;
+        DeepWorks_Assert(!setjmp(err.jump) && "Error during read jpeg header");
         jpeg_create_decompress(&cinfo);
         jpeg_stdio_src(&cinfo, infile);
 
@@ -82,16 +92,18 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
     size_t h = 0;
     // it's works if we have default hwc layout for tensor
     try {
+        DeepWorks_Assert(!setjmp(err.jump) && "Error during read jpeg image");
         while (cinfo.output_scanline < cinfo.output_height) {
             (void) jpeg_read_scanlines(&cinfo, buffer, 1);
             std::copy_n(buffer[0], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
             ++h;
         }
+        (void) jpeg_finish_decompress(&cinfo);
     } catch (...) {
-        finish_and_destroy();
+        destroy();
         throw;
     }
-    finish_and_destroy();
+    destroy();
 
 #else
     DeepWorks_Assert(false && "Couldn't find LIBJPEG");
-- 
2.43.0


From d6fe8cc70abf11b9c8b343e3b0b574e7f2e9befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:51 +0000
Subject: [PATCH 14/21] fix: refuse truncated or unreadable model files

---
 src/serialization.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 87cbce1..92b106c 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -17,6 +17,7 @@ template <typename T>
 T read_value(std::ifstream& file) {
     T value{};
     file.read(reinterpret_cast<char*>(&value), sizeof(value));
+    DeepWorks_Assert(file && "Failed to read the file");
     return value;
 }
 
@@ -34,6 +35,7 @@ T read_sequence(std::ifstream& file) {
     seq.resize(size);
     file.read(reinterpret_cast<char*>(seq.data()),
               size * sizeof(typename T::value_type));
+    DeepWorks_Assert(file && "Failed to read the file");
     return seq;
 }
 
@@ -44,6 +46,7 @@ std::array<T, S> read_array(std::ifstream& file) {
     auto size = read_value<size_t>(file);
     file.read(reinterpret_cast<char*>(seq.data()),
               size * sizeof(T));
+    DeepWorks_Assert(file && "Failed to read the file");
     return seq;
 }
 
@@ -101,6 +104,7 @@ void dw::load_state(Model::StateDict& state, std::ifstream& file) {
 
         file.read(reinterpret_cast<char*>(it->second.data()),
                   it->second.total() * sizeof(dw::Tensor::Type));
+        DeepWorks_Assert(file && "Failed to read the file");
     }
 }
 
-- 
2.43.0


From 76321d83a1a441fbb6fa259de9003659850fb710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:51 +0000
Subject: [PATCH 15/21] fix: check the stored length before reading an array
 attribute

---
 src/serialization.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 92b106c..b643dc3 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -44,6 +44,7 @@ template <typename T, int S>
 std::array<T, S> read_array(std::ifstream& file) {
     std::array<T, S> seq;
     auto size = read_value<size_t>(file);
+    DeepWorks_Assert(size == seq.size());
     file.read(reinterpret_cast<char*>(seq.data()),
               size * sizeof(T));
     DeepWorks_Assert(file && "Failed to read the file");
-- 
2.43.0


From 109a5ecdec07a91dd3a32f3de934066c3908d780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:51 +0000
Subject: [PATCH 16/21] fix: open configuration files for reading only

---
 src/serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index b643dc3..516865d 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -265,7 +265,7 @@ void dw::save_cfg(const Model::Config& cfg, std::ofstream& file) {
 }
 
 dw::Model::Config dw::load_cfg(const std::string& path) {
-    std::ifstream file(path, std::ios::out | std::ios::binary);
+    std::ifstream file(path, std::ios::in | std::ios::binary);
     return dw::load_cfg(file);
 }
 
-- 
2.43.0


From 71e58d294fbbb49b6436ccca8209ae9a15e624f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 17/21] fix: collect a placeholder used several times only once
 when unrolling the graph

---
 src/model/graphbuilder.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/model/graphbuilder.cpp b/src/model/graphbuilder.cpp
index af67597..7b3904a 100644
--- a/src/model/graphbuilder.cpp
+++ b/src/model/graphbuilder.cpp
@@ -89,11 +89,13 @@ deepworks::GraphBuilder::Unrolled deepworks::GraphBuilder::unroll(const deepwork
     // Travers over the graph and collect all data & operation nodes.
     while (!stack.empty()) {
         auto data = stack.top();
-        all_data.push_back(data);
-
         stack.pop();
-        // NB: Mark input node as visited.
-        reached_data.insert(&data.impl());
+        // NB: Mark input node as visited. It could be pushed several times
+        // (used by several operations), but must be collected only once.
+        if (!reached_data.insert(&data.impl()).second) {
+            continue;
+        }
+        all_data.push_back(data);
 
         auto has_call = data.impl().call;
         // NB: We reached the node without producer, so we found the input node.
-- 
2.43.0


From ac85625d7f7677d45b85dcca65f3d49b47116311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 18/21] fix: create a node for inputs and outputs that no
 operation refers to

---
 src/model/graphbuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/graphbuilder.cpp b/src/model/graphbuilder.cpp
index 7b3904a..9746900 100644
--- a/src/model/graphbuilder.cpp
+++ b/src/model/graphbuilder.cpp
@@ -50,7 +50,7 @@ void deepworks::GraphBuilder::build(const deepworks::Placeholders& ins,
     }
 
     // Get handles associated with plahceholders
-    auto extract = [this](const Placeholder& ph) { return m_data[&ph.impl()]; };
+    auto extract = [this](const Placeholder& ph) { return getDataNode(ph); };
 
     std::vector<ade::NodeHandle> in_handles;
     in_handles.reserve(ins.size());
-- 
2.43.0


From 1bd7a063823f057e39e21802b5f94e2fe8a4f268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 19/21] fix: record input and output ids in the order given by
 the user

---
 src/model/model.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 886d3f5..f081ad1 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -105,14 +105,15 @@ static void createConfig(TypedGraph& tgraph, dw::Model::Config& cfg) {
         const auto& d = tgraph.metadata(nh).get<Data>();
         deepworks::Model::Config::PlaceholderInfo ph_info{d.ph.shape(), d.id};
         cfg.ph_map.emplace(d.id, std::move(ph_info));
+    }
 
-        if (d.s == Data::Storage::INPUT) {
-            cfg.input_ids.push_back(d.id);
-        }
-
-        if (d.s == Data::Storage::OUTPUT) {
-            cfg.output_ids.push_back(d.id);
-        }
+    // NB: Keep the order in which user passed inputs/outputs.
+    const auto& info = tgraph.metadata().get<Info>();
+    for (auto nh : info.in_nhs) {
+        cfg.input_ids.push_back(tgraph.metadata(nh).get<Data>().id);
+    }
+    for (auto nh : info.out_nhs) {
+        cfg.output_ids.push_back(tgraph.metadata(nh).get<Data>().id);
     }
 
     sorted = tgraph.metadata().get<ade::passes::TopologicalSortData>().nodes();
-- 
2.43.0


From ed6ddcbdbdb78331d346d10fb687ab03d7930030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:17 +0000
Subject: [PATCH 20/21] fix: report saves that did not reach the file

---
 src/serialization.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 516865d..63c1354 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -51,6 +51,13 @@ std::array<T, S> read_array(std::ifstream& file) {
     return seq;
 }
 
+static void finish_writing(std::ofstream& file, const std::string& path) {
+    file.close();
+    if (!file) {
+        DeepWorks_Throw() << "Failed to write the file: " << path;
+    }
+}
+
 enum class SerializationKind : int {
     STATE,
     CONFIG
@@ -59,6 +66,7 @@ enum class SerializationKind : int {
 void dw::save_state(const Model::StateDict& state, const std::string& path) {
     std::ofstream file(path, std::ios::out | std::ios::binary);
     dw::save_state(state, file);
+    finish_writing(file, path);
 }
 
 void dw::save_state(const Model::StateDict& state, std::ofstream& file) {
@@ -151,6 +159,7 @@ void dw::save_dot(const dw::Model::Config& cfg,
     }
 
     file << "}";
+    finish_writing(file, path);
 }
 
 void write_attribute(const dw::Attribute& attr, std::ofstream& file) {
@@ -237,6 +246,7 @@ dw::Attributes read_attributes(std::ifstream& file) {
 void dw::save_cfg(const Model::Config& cfg, const std::string& path) {
     std::ofstream file(path, std::ios::out | std::ios::binary);
     dw::save_cfg(cfg, file);
+    finish_writing(file, path);
 }
 
 void dw::save_cfg(const Model::Config& cfg, std::ofstream& file) {
@@ -305,6 +315,7 @@ void dw::save(const dw::Model& model, const std::string& path) {
     std::ofstream file(path, std::ios::out | std::ios::binary);
     dw::save_cfg(model.cfg()  , file);
     dw::save_state(model.state(), file);
+    finish_writing(file, path);
 }
 
 dw::Model dw::load(const std::string& path) {
-- 
2.43.0


From 0ecc37904d1c3fe7198a7334c964d3158c0b828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:17 +0000
Subject: [PATCH 21/21] fix: refuse windows that do not fit the padded input
 and strides that are not positive

---
 src/expression/nn.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/expression/nn.cpp b/src/expression/nn.cpp
index 90077c8..cfefad0 100644
--- a/src/expression/nn.cpp
+++ b/src/expression/nn.cpp
@@ -13,6 +13,16 @@ enum Kernel {KH, KW};
 
 namespace dw = deepworks;
 
+static void checkWindow(const dw::Shape&          in_shape,
+                        const std::array<int, 2>& kernel,
+                        const std::array<int, 2>& padding,
+                        const std::array<int, 2>& stride) {
+    DeepWorks_Assert(stride[Kernel::KH] > 0 && stride[Kernel::KW] > 0 && "Stride must be positive");
+    DeepWorks_Assert(kernel[Kernel::KH] <= in_shape[Input::H] + 2 * padding[Kernel::KH] &&
+                     kernel[Kernel::KW] <= in_shape[Input::W] + 2 * padding[Kernel::KW] &&
+                     "Kernel must fit the padded input");
+}
+
 dw::Linear::Linear(int units, std::string name)
     : BaseOp<dw::Linear>(dw::LayerInfo(std::move(name), "Linear")) {
     m_info.impl().attrs["units"] = units;
@@ -218,6 +228,7 @@ dw::Shape dw::MaxPooling::outShape(const dw::Shape& in_shape) {
     auto kernel  = m_info.impl().attrs["kernel"].get<std::array<int, 2>>();
     auto padding = m_info.impl().attrs["padding"].get<std::array<int, 2>>();
     auto stride  = m_info.impl().attrs["stride"].get<std::array<int, 2>>();
+    checkWindow(in_shape, kernel, padding, stride);
 
     int h_out = (in_shape[Input::H] + 2 * padding[Kernel::KH] - kernel[Kernel::KH]) / stride[Kernel::KH] + 1;
     int w_out = (in_shape[Input::W] + 2 * padding[Kernel::KW] - kernel[Kernel::KW]) / stride[Kernel::KW] + 1;
@@ -255,6 +266,7 @@ dw::Shape dw::Convolution::outShape(const dw::Shape& in_shape) {
     auto kernel  = m_info.impl().attrs["kernel"].get<std::array<int, 2>>();
     auto padding = m_info.impl().attrs["padding"].get<std::array<int, 2>>();
     auto stride  = m_info.impl().attrs["stride"].get<std::array<int, 2>>();
+    checkWindow(in_shape, kernel, padding, stride);
 
     int h_out = (in_shape[Input::H] + 2 * padding[Kernel::KH] - kernel[Kernel::KH]) / stride[Kernel::KH] + 1;
     int w_out = (in_shape[Input::W] + 2 * padding[Kernel::KW] - kernel[Kernel::KW]) / stride[Kernel::KW] + 1;
-- 
2.43.0

