From 2b1bb73e8ee86a14f85efece1e595ddb18d07741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 01/36] fix: size the critical-point compressors' output
 buffers for what they write

On small or incompressible fields the header, Huffman tables and sign maps
exceed 2 (3) raw components; the buffers were overrun.
---
 include/sz_compression_utils.hpp            |  9 +++++++++
 src/sz_compress_cp_preserve_2d.cpp          | 14 +++++++-------
 src/sz_compress_cp_preserve_2d_bilinear.cpp |  2 +-
 src/sz_compress_cp_preserve_3d.cpp          |  8 ++++----
 4 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/sz_compression_utils.hpp b/include/sz_compression_utils.hpp
index a335c15..19c6184 100644
--- a/include/sz_compression_utils.hpp
+++ b/include/sz_compression_utils.hpp
@@ -120,4 +120,13 @@ build_Huffman_tree(const int * type, size_t num_elements, size_t state_num);
 void
 Huffman_encode_tree_and_data(size_t state_num, const int * type, size_t num_elements, unsigned char*& compressed_pos);
 
+// upper bound on the bytes that Huffman_encode_tree_and_data writes:
+// sizes, tree (at most 13 bytes per node), codes (at most 32 bits per element on average)
+// and the 8-byte stores of encode
+inline size_t
+Huffman_encoded_size_bound(size_t state_num, size_t num_elements){
+	size_t num_leaves = (state_num < num_elements) ? state_num : num_elements;
+	return 3*sizeof(size_t) + 1 + 13*2*num_leaves + num_elements*sizeof(int) + 16;
+}
+
 #endif
diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 94100d3..17657ad 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -232,7 +232,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	}
 	free(eb);
 	printf("quantize eb done\n");
-	unsigned char * compressed_eb = (unsigned char *) malloc(2*num_elements*sizeof(int));
+	unsigned char * compressed_eb = (unsigned char *) malloc(64 + Huffman_encoded_size_bound(2*1024, 2*num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, 2*num_elements, compressed_eb_pos);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
@@ -334,7 +334,7 @@ sz_compress_cp_preserve_2d_offline_log(const T * U, const T * V, size_t r1, size
 		// *(eb_quant_index_pos ++) = eb_linear_quantize(eb[i], 5e-3);
 	}
 	// printf("quantize eb done\n");
-	unsigned char * compressed_eb = (unsigned char *) malloc(num_elements*sizeof(int));
+	unsigned char * compressed_eb = (unsigned char *) malloc(64 + Huffman_encoded_size_bound(2*1024, num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, num_elements, compressed_eb_pos);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
@@ -696,7 +696,7 @@ sz_compress_cp_preserve_2d_online(const T * U, const T * V, size_t r1, size_t r2
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T) + 64 + Huffman_encoded_size_bound(2*1024, 2*num_elements) + Huffman_encoded_size_bound(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -961,7 +961,7 @@ sz_compress_cp_preserve_2d_online_log(const T * U, const T * V, size_t r1, size_
 	free(decompressed_U);
 	free(decompressed_V);
 	// printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T) + 2*sign_map_size + 64 + Huffman_encoded_size_bound(2*1024, num_elements) + Huffman_encoded_size_bound(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1224,7 +1224,7 @@ sz_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size_
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T) + 64 + Huffman_encoded_size_bound(2*1024, 2*num_elements) + Huffman_encoded_size_bound(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -1512,7 +1512,7 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T) + 64 + Huffman_encoded_size_bound(2*1024, 2*num_elements) + Huffman_encoded_size_bound(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -1795,7 +1795,7 @@ sz3_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q: %ld %ld\n", eb_quant_index_pos - eb_quant_index, quant_index);
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T) + 64 + Huffman_encoded_size_bound(2*1024, num_elements) + Huffman_encoded_size_bound(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index 370e3a7..87a356c 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -1052,7 +1052,7 @@ sz_compress_cp_preserve_2d_bilinear_online_log(const T * U, const T * V, size_t
 	free(decompressed_U);
 	free(decompressed_V);
 	// printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T) + 2*sign_map_size + 64 + Huffman_encoded_size_bound(2*1024, num_elements) + Huffman_encoded_size_bound(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
diff --git a/src/sz_compress_cp_preserve_3d.cpp b/src/sz_compress_cp_preserve_3d.cpp
index 58ce2dd..16867dd 100644
--- a/src/sz_compress_cp_preserve_3d.cpp
+++ b/src/sz_compress_cp_preserve_3d.cpp
@@ -546,7 +546,7 @@ sz_compress_cp_preserve_3d_offline_log(const T * U, const T * V, const T * W, si
 	free(decompressed_V);
 	free(decompressed_W);
 	// printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T) + 3*sign_map_size + 64 + Huffman_encoded_size_bound(2*256, num_elements) + Huffman_encoded_size_bound(2*capacity, 3*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -933,7 +933,7 @@ sz_compress_cp_preserve_3d_online_log(const T * U, const T * V, const T * W, siz
 	free(decompressed_V);
 	free(decompressed_W);
 	printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T) + 3*sign_map_size + 64 + Huffman_encoded_size_bound(2*256, num_elements) + Huffman_encoded_size_bound(2*capacity, 3*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1115,7 +1115,7 @@ sz_compress_cp_preserve_3d_unstructured(int n, const T * points, const T * data,
 	free(dec_data);
 	free(log_data);
 	// printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*n*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(3*n*sizeof(T) + sign_map_size + 64 + Huffman_encoded_size_bound(2*256, n) + Huffman_encoded_size_bound(2*capacity, 3*n));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1452,7 +1452,7 @@ sz_compress_cp_preserve_3d_online_abs(const T * U, const T * V, const T * W, siz
 	free(decompressed_V);
 	free(decompressed_W);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T) + 64 + Huffman_encoded_size_bound(2*1024, num_elements) + Huffman_encoded_size_bound(2*capacity, 3*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
-- 
2.43.0


From 3b3966f4c266c7d935d26f56f1ccf2a560598818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 02/36] fix: size the block compressors' output buffer for what
 they write

1.2 times the raw size does not cover small or incompressible inputs.
---
 src/sz_compress_3d.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/sz_compress_3d.cpp b/src/sz_compress_3d.cpp
index 941ee10..476d1c6 100644
--- a/src/sz_compress_3d.cpp
+++ b/src/sz_compress_3d.cpp
@@ -95,8 +95,10 @@ sz_compress_2d(const T * data, size_t r1, size_t r2, double precision, size_t& c
 	size_t reg_count = prediction_and_quantization_2d_with_border_prediction(data, size, mean_info, precision, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	// scalars, unpredictable data, indicators, regression coefficients and quantization indices
+	size_t est_size = 128 + unpredictable_count*sizeof(T) + size.num_blocks/8 + 1
+			+ RegCoeffNum2d*size.num_blocks*sizeof(float) + Huffman_encoded_size_bound(2*RegCoeffCapacity, RegCoeffNum2d*reg_count)
+			+ Huffman_encoded_size_bound(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -212,8 +214,10 @@ sz_compress_2d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	size_t reg_count = prediction_and_quantization_2d_with_border_prediction_with_eb(data, precisions, size, mean_info, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	// scalars, unpredictable data, indicators, regression coefficients and quantization indices
+	size_t est_size = 128 + unpredictable_count*sizeof(T) + size.num_blocks/8 + 1
+			+ RegCoeffNum2d*size.num_blocks*sizeof(float) + Huffman_encoded_size_bound(2*RegCoeffCapacity, RegCoeffNum2d*reg_count)
+			+ Huffman_encoded_size_bound(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -411,8 +415,10 @@ sz_compress_3d(const T * data, size_t r1, size_t r2, size_t r3, double precision
 			: prediction_and_quantization_3d_with_border_prediction(data, size, mean_info, precision, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	// scalars, unpredictable data, indicators, regression coefficients and quantization indices
+	size_t est_size = 128 + unpredictable_count*sizeof(T) + size.num_blocks/8 + 1
+			+ RegCoeffNum3d*size.num_blocks*sizeof(float) + Huffman_encoded_size_bound(2*RegCoeffCapacity, RegCoeffNum3d*reg_count)
+			+ Huffman_encoded_size_bound(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -542,8 +548,10 @@ sz_compress_3d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	size_t reg_count = prediction_and_quantization_3d_with_border_prediction_with_eb(data, precisions, size, mean_info, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	// scalars, unpredictable data, indicators, regression coefficients and quantization indices
+	size_t est_size = 128 + unpredictable_count*sizeof(T) + size.num_blocks/8 + 1
+			+ RegCoeffNum3d*size.num_blocks*sizeof(float) + Huffman_encoded_size_bound(2*RegCoeffCapacity, RegCoeffNum3d*reg_count)
+			+ Huffman_encoded_size_bound(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
-- 
2.43.0


From ed131f4b67d03a6c2fe474cae0468fb66ea92412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 03/36] fix: leave room for every element to be unpredictable

prediction_and_quantization may store all elements verbatim; the buffer
held 5% of them.
---
 src/sz_compress_3d.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sz_compress_3d.cpp b/src/sz_compress_3d.cpp
index 476d1c6..b34b352 100644
--- a/src/sz_compress_3d.cpp
+++ b/src/sz_compress_3d.cpp
@@ -86,7 +86,7 @@ sz_compress_2d(const T * data, size_t r1, size_t r2, double precision, size_t& c
 	meanInfo<T> mean_info;// = optimize_quant_invl_2d(data, r1, r2, precision, capacity);
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum2d * size.num_blocks * sizeof(int));
@@ -405,7 +405,7 @@ sz_compress_3d(const T * data, size_t r1, size_t r2, size_t r3, double precision
 	meanInfo<T> mean_info = optimize_quant_invl_3d(data, r1, r2, r3, precision, capacity);
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum3d * size.num_blocks * sizeof(int));
@@ -539,7 +539,7 @@ sz_compress_3d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	meanInfo<T> mean_info;
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum3d * size.num_blocks * sizeof(int));
-- 
2.43.0


From 4d68be0638d61ed797807ded8ba42f15b0d13ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 04/36] fix: skip unpredictable doubles by their own size

sz_decompress_3d<double> advanced by sizeof(float), so it read the rest of
the stream from the middle of the unpredictable data.
---
 src/sz_decompress_3d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sz_decompress_3d.cpp b/src/sz_decompress_3d.cpp
index 6710b38..c9093f3 100644
--- a/src/sz_decompress_3d.cpp
+++ b/src/sz_decompress_3d.cpp
@@ -62,7 +62,7 @@ sz_decompress_2d(const unsigned char * compressed, size_t r1, size_t r2){
 	size_t unpredictable_count = 0;
 	read_variable_from_src(compressed_pos, unpredictable_count);
 	const T * unpredictable_data = (const T *) compressed_pos;
-	compressed_pos += unpredictable_count * sizeof(float);
+	compressed_pos += unpredictable_count * sizeof(T);
 	unsigned char * indicator = convertByteArray2IntArray_fast_1b_sz(size.num_blocks, compressed_pos, (size.num_blocks - 1)/8 + 1);
 	float * reg_params = NULL;
 	if(reg_count) reg_params = decode_regression_coefficients_2d(compressed_pos, reg_count, size.block_size, precision);
@@ -271,7 +271,7 @@ sz_decompress_3d(const unsigned char * compressed, size_t r1, size_t r2, size_t
 	size_t unpredictable_count = 0;
 	read_variable_from_src(compressed_pos, unpredictable_count);
 	const T * unpredictable_data = (const T *) compressed_pos;
-	compressed_pos += unpredictable_count * sizeof(float);
+	compressed_pos += unpredictable_count * sizeof(T);
 	unsigned char * indicator = convertByteArray2IntArray_fast_1b_sz(size.num_blocks, compressed_pos, (size.num_blocks - 1)/8 + 1);
 	float * reg_params = NULL;
 	if(reg_count) reg_params = decode_regression_coefficients(compressed_pos, reg_count, size.block_size, precision);
-- 
2.43.0


From 3007c6a4e43dc562c936e29f89d0e20a62c8fdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 05/36] fix: let sample_rough_mean_3d advance on volumes of
 fewer than 9 elements

With a stride of 2 the two steps back cancel it (e.g. 2x2x1), and the loop
never ends.
---
 include/sz_optimize_quant_intervals.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sz_optimize_quant_intervals.hpp b/include/sz_optimize_quant_intervals.hpp
index 896ec65..c51372f 100644
--- a/include/sz_optimize_quant_intervals.hpp
+++ b/include/sz_optimize_quant_intervals.hpp
@@ -44,6 +44,8 @@ sample_rough_mean_3d(const T * data, size_t r1, size_t r2, size_t r3, size_t sam
 	size_t offset_count = 0;
 	size_t offset_count_2 = 0;
 	size_t mean_count = 0;
+	// the stride must exceed the two steps back below
+	if(sample_distance < 3) sample_distance = 3;
 	while(data_pos - data < len){
 		mean += *data_pos;
 		mean_count ++;
-- 
2.43.0


From 0376afebfa140709cda22935a43981aa3fdefd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 06/36] fix: do not write uninitialized padding of meanInfo
 into the stream

---
 include/sz_def.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sz_def.hpp b/include/sz_def.hpp
index 9d28edf..31dec7c 100644
--- a/include/sz_def.hpp
+++ b/include/sz_def.hpp
@@ -139,6 +139,8 @@ struct meanInfo{
 	bool use_mean;
 	T mean;
 	meanInfo(bool use = false, T mean_ = 0){
+		// the whole struct goes to the compressed stream, padding included
+		memset((void *) this, 0, sizeof(*this));
 		use_mean = use;
 		mean = mean_;
 	}
-- 
2.43.0


From 6483469484847b7e855bdce34af620a1ee6da7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 07/36] fix: count the threshold in the offline stream's size

The buffer was 8 bytes too short for what is written, and the reported
size cut off the last 8 bytes.
---
 src/sz_compress_cp_preserve_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 17657ad..eb25ae6 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -243,7 +243,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	printf("eb_size = %ld, u_size = %ld, v_size = %ld\n", compressed_eb_size, compressed_u_size, compressed_v_size);
 	free(eb_u);
 	free(eb_v);
-	compressed_size = sizeof(int) + sizeof(size_t) + compressed_eb_size + sizeof(size_t) + compressed_u_size + sizeof(size_t) + compressed_v_size;
+	compressed_size = sizeof(int) + sizeof(double) + sizeof(size_t) + compressed_eb_size + sizeof(size_t) + compressed_u_size + sizeof(size_t) + compressed_v_size;
 	unsigned char * compressed = (unsigned char *) malloc(compressed_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
-- 
2.43.0


From 02a89df7609060f71e343317df4084d611255990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 08/36] fix: free the decoded error-bound indices in the
 offline decompressors

---
 src/sz_decompress_cp_preserve_2d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 775ced3..e156c81 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -40,6 +40,7 @@ sz_decompress_cp_preserve_2d_offline(const unsigned char * compressed, size_t r1
 		// else eb[i] = type[num_elements + i] * 1e-2;
 	}
 	V = sz_decompress_2d_with_eb<T>(compressed_pos, eb, r1, r2);
+	free(type);
 	free(eb);
 }
 
@@ -95,6 +96,7 @@ sz_decompress_cp_preserve_2d_offline_log(const unsigned char * compressed, size_
 	}
 	free(sign_map_u);
 	free(sign_map_v);
+	free(type);
 	free(eb);
 }
 
-- 
2.43.0


From 4716f65651d96fd178cc89789b7f1160f4635740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 09/36] fix: free the error-bound indices in the offline
 compressors

---
 src/sz_compress_cp_preserve_2d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index eb25ae6..00e163a 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -235,6 +235,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	unsigned char * compressed_eb = (unsigned char *) malloc(64 + Huffman_encoded_size_bound(2*1024, 2*num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, 2*num_elements, compressed_eb_pos);
+	free(eb_quant_index);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
 	size_t compressed_u_size = 0;
 	size_t compressed_v_size = 0;
@@ -337,6 +338,7 @@ sz_compress_cp_preserve_2d_offline_log(const T * U, const T * V, size_t r1, size
 	unsigned char * compressed_eb = (unsigned char *) malloc(64 + Huffman_encoded_size_bound(2*1024, num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, num_elements, compressed_eb_pos);
+	free(eb_quant_index);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
 	size_t compressed_u_size = 0;
 	size_t compressed_v_size = 0;
-- 
2.43.0


From abc58f18c9e32b895b5354f7aedf19be0a78f542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 10/36] fix: an error bound quantized to index 0 is lossless on
 both sides

Bounds within one step of the threshold were quantized to index 0 but kept as
the threshold by the compressor, while the decompressor takes index 0 as 0.
---
 include/sz_cp_preserve_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index 094d65f..32a9ba6 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -17,7 +17,8 @@ inline int eb_exponential_quantize(double& eb, const int base, const double log_
 		return 0;
 	}
 	int id = log2(eb / threshold)/log_of_base;
-	eb = pow(base, id) * threshold;
+	// index 0 stands for lossless in the decompressor
+	eb = (id == 0) ? 0 : pow(base, id) * threshold;
 	return id;
 }
 
-- 
2.43.0


From 6f0d8ed94886454ace72034b416d67921539dd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 11/36] fix: do not overflow int when the prediction is far off

fabs(diff) / eb was cast to int before it was compared to the capacity, so an
index outside the quantization range could be accepted.
---
 include/sz3_utils.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/sz3_utils.hpp b/include/sz3_utils.hpp
index e06288a..ea1d191 100644
--- a/include/sz3_utils.hpp
+++ b/include/sz3_utils.hpp
@@ -12,8 +12,9 @@ public:
     int quantize(T data, T pred, T_eb eb) {
         if(eb == 0) return 0;
         T diff = data - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
-        if (quant_index < this->radius * 2) {
+        double quant_diff = fabs(diff) / eb + 1;
+        if (quant_diff < this->radius * 2) {
+            int quant_index = (int) quant_diff;
             quant_index >>= 1;
             int half_index = quant_index;
             quant_index <<= 1;
@@ -45,8 +46,9 @@ public:
         //     std::cout << data << " " << pred << " " << eb << std::endl;
         // }
         T diff = data - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
-        if (quant_index < this->radius * 2) {
+        double quant_diff = fabs(diff) / eb + 1;
+        if (quant_diff < this->radius * 2) {
+            int quant_index = (int) quant_diff;
             quant_index >>= 1;
             int half_index = quant_index;
             quant_index <<= 1;
@@ -81,8 +83,9 @@ public:
             return 0;
         }
         T diff = ori - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
-        if (quant_index < this->radius * 2) {
+        double quant_diff = fabs(diff) / eb + 1;
+        if (quant_diff < this->radius * 2) {
+            int quant_index = (int) quant_diff;
             quant_index >>= 1;
             int half_index = quant_index;
             quant_index <<= 1;
-- 
2.43.0


From 6a4cb6441a6619dcc356d16d141208435c565906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 12/36] fix: encode and decode an empty array of symbols

A field stored losslessly everywhere has no quantization index left; building
the tree dereferenced a null root.
---
 src/sz_compression_utils.cpp   | 11 ++++++++++-
 src/sz_decompression_utils.cpp |  7 ++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/sz_compression_utils.cpp b/src/sz_compression_utils.cpp
index 2fd36e5..f6231cd 100644
--- a/src/sz_compression_utils.cpp
+++ b/src/sz_compression_utils.cpp
@@ -60,8 +60,17 @@ build_Huffman_tree(size_t state_num, const int * type, size_t num_elements){
 
 void
 Huffman_encode_tree_and_data(size_t state_num, const int * type, size_t num_elements, unsigned char*& compressed_pos){
-	HuffmanTree * huffman = build_Huffman_tree(state_num, type, num_elements);
 	size_t node_count = 0;
+	if(num_elements == 0){
+		// empty tree and no data
+		unsigned int tree_size = 0;
+		size_t type_array_size = 0;
+		write_variable_to_dst(compressed_pos, node_count);
+		write_variable_to_dst(compressed_pos, tree_size);
+		write_variable_to_dst(compressed_pos, type_array_size);
+		return;
+	}
+	HuffmanTree * huffman = build_Huffman_tree(state_num, type, num_elements);
 	size_t i = 0;
 	for (i = 0; i < state_num; i++)
 		if (huffman->code[i]) node_count++; 
diff --git a/src/sz_decompression_utils.cpp b/src/sz_decompression_utils.cpp
index 5637828..2b32d1b 100644
--- a/src/sz_decompression_utils.cpp
+++ b/src/sz_decompression_utils.cpp
@@ -91,11 +91,16 @@ convertByteArray2IntArray_fast_1b_sz(size_t intArrayLength, const unsigned char*
 // TODO: change compress_pos to const
 int *
 Huffman_decode_tree_and_data(size_t state_num, size_t num_elements, const unsigned char *& compressed_pos){
-	HuffmanTree* huffman = createHuffmanTree(state_num);
 	size_t node_count = 0;
 	read_variable_from_src(compressed_pos, node_count);
 	unsigned int tree_size = 0;
 	read_variable_from_src(compressed_pos, tree_size);
+	if(node_count == 0){
+		// no elements
+		compressed_pos += sizeof(size_t);
+		return (int *) malloc(num_elements * sizeof(int));
+	}
+	HuffmanTree* huffman = createHuffmanTree(state_num);
 	node root = reconstruct_HuffTree_from_bytes_anyStates(huffman, compressed_pos, node_count);
 	compressed_pos += tree_size;
 	size_t type_array_size = 0;
-- 
2.43.0


From 526320d395e13f47cbdda8aab6d83d68fd6fa76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 13/36] fix: count the header and the 8-byte stores in
 encode_withTree's buffer

---
 src/sz_huffman.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_huffman.cpp b/src/sz_huffman.cpp
index b828687..e544701 100644
--- a/src/sz_huffman.cpp
+++ b/src/sz_huffman.cpp
@@ -660,7 +660,7 @@ void encode_withTree(HuffmanTree* huffmanTree, const int *s, size_t length, unsi
 	nodeCount = nodeCount*2-1;
 	unsigned int treeByteSize = convert_HuffTree_to_bytes_anyStates(huffmanTree,nodeCount, &treeBytes);
 
-	*out = (unsigned char*)malloc(length*sizeof(int)+treeByteSize);
+	*out = (unsigned char*)malloc(8+treeByteSize+length*sizeof(int)+16);
 	intToBytes_bigEndian(buffer, nodeCount);
 	memcpy(*out, buffer, 4);
 	intToBytes_bigEndian(buffer, huffmanTree->stateNum/2); //real number of intervals
-- 
2.43.0


From 755fa6bd0fd07fe40e09980668aabf3682253a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 14/36] fix: free the error bounds in the bilinear compressor

---
 src/sz_compress_cp_preserve_2d_bilinear.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index 87a356c..7476e4e 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -1046,7 +1046,7 @@ sz_compress_cp_preserve_2d_bilinear_online_log(const T * U, const T * V, size_t
 	}
     // printf("#Failed verification = %d\n", failed_verification);
 	// writefile("eb_2d.dat", eb, num_elements);
-	// free(eb);
+	free(eb);
 	free(log_U);
 	free(log_V);
 	free(decompressed_U);
-- 
2.43.0


From 79aa5971ae6d3cc32c47f717198cd5b13b5aca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 15/36] fix: consume the sign of a zero in the unstructured
 decompressor

The signs of everything after a zero component were read from the wrong place.
---
 src/sz_decompress_cp_preserve_3d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sz_decompress_cp_preserve_3d.cpp b/src/sz_decompress_cp_preserve_3d.cpp
index 617b92f..428d017 100644
--- a/src/sz_decompress_cp_preserve_3d.cpp
+++ b/src/sz_decompress_cp_preserve_3d.cpp
@@ -186,7 +186,8 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 		else{
 			for(int p=0; p<3; p++){
 				if(data[3*i + p] < -99) data[3*i + p] = 0;
-				else data[3*i + p] = *(sign_pos ++) ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
+				else data[3*i + p] = *sign_pos ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
+				sign_pos ++;
 			}
 		}
 	}
-- 
2.43.0


From 6c6f215a04f7f85f039fd1e59d31cc0471d52e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 16/36] fix: check the error of the decompressed value in
 online_abs_relax_FN

Rounding could push the decompressed value beyond the bound; the other
compressors already verify it.
---
 src/sz_compress_cp_preserve_2d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 00e163a..2addb0d 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -1449,6 +1449,11 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 						int quant_index = (int)(quant_diff/2) + intv_radius;
 						data_quant_index_pos[k] = quant_index;
 						decompressed[k] = pred + 2 * (quant_index - intv_radius) * abs_eb; 
+						// check original data
+						if(fabs(decompressed[k] - cur_data) > abs_eb){
+							unpred_flag = true;
+							break;
+						}
 					}
 					else{
 						unpred_flag = true;
-- 
2.43.0


From f938553bfb8f20a80b51c4faa760a10bd57c37e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 17/36] fix: keep values below 2^-99 in the 2D online_log
 decompressor

They were taken for zeros, but the compressors store zeros losslessly.
---
 src/sz_decompress_cp_preserve_2d.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index e156c81..0b5835f 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -241,10 +241,9 @@ sz_decompress_cp_preserve_2d_online_log(const unsigned char * compressed, size_t
 			V[i] = *(unpred_data_pos++);
 		}
 		else{
-			if(U[i] < -99) U[i] = 0;
-			else U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
-			if(V[i] < -99) V[i] = 0;
-			else V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
+			// zeros are stored losslessly
+			U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
+			V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
 		}
 	}
 	free(sign_map_u);
-- 
2.43.0


From 5497c4aa0fcd50a1932cd81ff03da81d7cf5abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:28 +0000
Subject: [PATCH 18/36] fix: let the sz3 decompressor accept fields of a few
 elements

The length it claims for the quantizer's state was smaller than the
state's own header, which aborted on an assertion.
---
 src/sz_decompress_cp_preserve_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 0b5835f..02998fa 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -334,7 +334,7 @@ sz3_decompress_cp_preserve_2d_online(const unsigned char * compressed, size_t r1
 	read_variable_from_src(compressed_pos, capacity);
 	int interpolation_level = (uint) ceil(log2(max(r1, r2)));
 	auto quantizer = VariableEBLinearQuantizer<T, T>(capacity>>1);
-	size_t remaining_length = num_elements*sizeof(T);//placeholder
+	size_t remaining_length = sizeof(uint8_t) + sizeof(int) + sizeof(size_t) + 2*num_elements*sizeof(T);// header and, at most, all of both components
 	quantizer.load(compressed_pos, remaining_length);
 
 	int * eb_quant_index = Huffman_decode_tree_and_data(2*1024, num_elements, compressed_pos);
-- 
2.43.0


From c659b36e16c77e71221cdd522709929b3d88ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:28 +0000
Subject: [PATCH 19/36] fix: recognize zeros at the edge of their bound in
 offline_log

Zeros are encoded as -100 with a bound of up to 1, so -99 is a zero.
---
 src/sz_decompress_cp_preserve_2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 02998fa..a4c83b4 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -86,12 +86,12 @@ sz_decompress_cp_preserve_2d_offline_log(const unsigned char * compressed, size_
 	U = sz_decompress_2d_with_eb<T>(compressed_pos, eb, r1, r2);
 	compressed_pos += compressed_u_size;
 	for(int i=0; i<num_elements; i++){
-		if(U[i] < -99) U[i] = 0;
+		if(U[i] <= -99) U[i] = 0;
 		else U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
 	}
 	V = sz_decompress_2d_with_eb<T>(compressed_pos, eb, r1, r2);
 	for(int i=0; i<num_elements; i++){
-		if(V[i] < -99) V[i] = 0;
+		if(V[i] <= -99) V[i] = 0;
 		else V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
 	}
 	free(sign_map_u);
-- 
2.43.0


From 6f9c38adf0885ba059346f17dfd1f095139db253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:28 +0000
Subject: [PATCH 20/36] fix: keep the zero marker of sz_compress_2d_pwr_with_eb
 below all values

With a zero bound the smallest value was its own marker and decoded as 0.
---
 src/sz_compress_pwr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index 4365e11..c36a128 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -97,6 +97,8 @@ sz_compress_2d_pwr_with_eb(const T * data, const double * ebs, double **final_lo
 			threshold = MIN(threshold, log_data[i] - 1.0001 * log_ebs[i]);
 		}
 	}
+	// below every value, including those with a zero bound
+	threshold -= 1;
 	for(size_t i=0; i<num_elements; i++){
 		if(data[i] == 0){
 			log_data[i] = threshold;
-- 
2.43.0


From ddf843e245d5dfdb9ddc18f70c9fea0c3856f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:43 +0000
Subject: [PATCH 21/36] hook: let a build choose the number of quantization
 intervals (CPSZ_MC_CAPACITY)

---
 include/sz_def.hpp                          | 11 +++++++++--
 src/sz_compress_3d.cpp                      |  6 +++---
 src/sz_compress_cp_preserve_2d.cpp          | 10 +++++-----
 src/sz_compress_cp_preserve_2d_bilinear.cpp |  2 +-
 src/sz_compress_cp_preserve_3d.cpp          |  8 ++++----
 5 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/include/sz_def.hpp b/include/sz_def.hpp
index 31dec7c..5f9449e 100644
--- a/include/sz_def.hpp
+++ b/include/sz_def.hpp
@@ -12,6 +12,13 @@
 
 using namespace std;
 
+// number of quantization intervals of the data; smaller ones for model checking
+#ifdef CPSZ_MC_CAPACITY
+#define CPSZ_CAPACITY(n) CPSZ_MC_CAPACITY
+#else
+#define CPSZ_CAPACITY(n) n
+#endif
+
 template <typename T>
 union fp_int;
 
@@ -156,8 +163,8 @@ inline T MINF(const T& a, const T& b){
 #define RegCoeffNum2d 3
 #define RegCoeffNum3d 4
 #define RegErrThreshold 0.1
-#define RegCoeffRadius 32768
-#define RegCoeffCapacity 65536
+#define RegCoeffRadius (CPSZ_CAPACITY(65536)>>1)
+#define RegCoeffCapacity CPSZ_CAPACITY(65536)
 #define QuantIntvMeanCapacity 8192
 #define QuantIntvSampleDistance 100
 #define QuantIntvSampleCapacity 32768
diff --git a/src/sz_compress_3d.cpp b/src/sz_compress_3d.cpp
index b34b352..ffaae22 100644
--- a/src/sz_compress_3d.cpp
+++ b/src/sz_compress_3d.cpp
@@ -82,7 +82,7 @@ sz_compress_2d(const T * data, size_t r1, size_t r2, double precision, size_t& c
 	// block_independant = false;
 	DSize_2d size(r1, r2, BSIZE);
 	int capacity = 0; // num of quant intervals
-	capacity = 32768;
+	capacity = CPSZ_CAPACITY(32768);
 	meanInfo<T> mean_info;// = optimize_quant_invl_2d(data, r1, r2, precision, capacity);
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
@@ -201,7 +201,7 @@ sz_compress_2d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	// block_independant = false;
 	DSize_2d size(r1, r2, BSIZE);
 	int capacity = 0; // num of quant intervals
-	capacity = 65536;
+	capacity = CPSZ_CAPACITY(65536);
 	meanInfo<T> mean_info;// = optimize_quant_invl_2d(data, r1, r2, precision, capacity);
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
@@ -535,7 +535,7 @@ sz_compress_3d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	// int capacity = 0; // num of quant intervals
 	// meanInfo<T> mean_info = optimize_quant_invl_3d(data, r1, r2, r3, precisions, capacity);
 	int capacity = 0; // num of quant intervals
-	capacity = 32768;
+	capacity = CPSZ_CAPACITY(32768);
 	meanInfo<T> mean_info;
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 2addb0d..94ac9fc 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -559,7 +559,7 @@ sz_compress_cp_preserve_2d_online(const T * U, const T * V, size_t r1, size_t r2
 	// next, row by row
 	const int base = 4;
 	const double log_of_base = log2(base);
-	const int capacity = 65536;
+	const int capacity = CPSZ_CAPACITY(65536);
 	const int intv_radius = (capacity >> 1);
 	unpred_vec<T> unpred_data;
 	T * U_pos = decompressed_U;
@@ -800,7 +800,7 @@ sz_compress_cp_preserve_2d_online_log(const T * U, const T * V, size_t r1, size_
 	// next, row by row
 	const int base = 2;
 	const double log_of_base = log2(base);
-	const int capacity = 65536;
+	const int capacity = CPSZ_CAPACITY(65536);
 	const int intv_radius = (capacity >> 1);
 	unpred_vec<T> unpred_data;
 	// offsets to get six adjacent triangle indices
@@ -1003,7 +1003,7 @@ sz_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size_
 	// next, row by row
 	const int base = 4;
 	const double log_of_base = log2(base);
-	const int capacity = 65536;
+	const int capacity = CPSZ_CAPACITY(65536);
 	const int intv_radius = (capacity >> 1);
 	unpred_vec<T> unpred_data;
 	T * U_pos = decompressed_U;
@@ -1343,7 +1343,7 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 	// next, row by row
 	const int base = 4;
 	const double log_of_base = log2(base);
-	const int capacity = 65536;
+	const int capacity = CPSZ_CAPACITY(65536);
 	const int intv_radius = (capacity >> 1);
 	unpred_vec<T> unpred_data;
 	T * U_pos = decompressed_U;
@@ -1725,7 +1725,7 @@ sz3_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size
 	// next, row by row
 	const int base = 4;
 	const double log_of_base = log2(base);
-	const unsigned int capacity = 65536;
+	const unsigned int capacity = CPSZ_CAPACITY(65536);
 	const unsigned int intv_radius = (capacity >> 1);
 	unpred_vec<T> unpred_data;
 	T * U_pos = decompressed_U;
diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index 7476e4e..3fc979f 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -781,7 +781,7 @@ sz_compress_cp_preserve_2d_bilinear_online_log(const T * U, const T * V, size_t
 	// next, row by row
 	const int base = 2;
 	const double log_of_base = log2(base);
-	const int capacity = 65536;
+	const int capacity = CPSZ_CAPACITY(65536);
 	const int intv_radius = (capacity >> 1);
 	unpred_vec<T> unpred_data;
 	// offsets to get six adjacent square mesh indices
diff --git a/src/sz_compress_cp_preserve_3d.cpp b/src/sz_compress_cp_preserve_3d.cpp
index 16867dd..f2783eb 100644
--- a/src/sz_compress_cp_preserve_3d.cpp
+++ b/src/sz_compress_cp_preserve_3d.cpp
@@ -434,7 +434,7 @@ sz_compress_cp_preserve_3d_offline_log(const T * U, const T * V, const T * W, si
 	int * data_quant_index = (int *) malloc(3*num_elements*sizeof(int));
 	int * data_quant_index_pos = data_quant_index;
 	// next, row by row
-	const int capacity = 65536;
+	const int capacity = CPSZ_CAPACITY(65536);
 	const int intv_radius = (capacity >> 1);
 	int * eb_quant_index = (int *) malloc(num_elements*sizeof(int));
 	int * eb_quant_index_pos = eb_quant_index;
@@ -776,7 +776,7 @@ sz_compress_cp_preserve_3d_online_log(const T * U, const T * V, const T * W, siz
 	// next, row by row
 	const int base = 2;
 	const double log_of_base = log2(base);
-	const int capacity = 65536;
+	const int capacity = CPSZ_CAPACITY(65536);
 	const int intv_radius = (capacity >> 1);
 	ptrdiff_t dim0_offset = r2 * r3;
 	ptrdiff_t dim1_offset = r3;
@@ -1024,7 +1024,7 @@ sz_compress_cp_preserve_3d_unstructured(int n, const T * points, const T * data,
 	double threshold = std::numeric_limits<float>::epsilon();
 	const int base = 2;
 	const double log_of_base = log2(base);
-	const int capacity = 65536;
+	const int capacity = CPSZ_CAPACITY(65536);
 	const int intv_radius = (capacity >> 1);
 	const int eb_quant_index_max = (int) (log2(1.0 / threshold)/log_of_base) + 1;
 	
@@ -1319,7 +1319,7 @@ sz_compress_cp_preserve_3d_online_abs(const T * U, const T * V, const T * W, siz
 	// next, row by row
 	const int base = 4;
 	const double log_of_base = log2(base);
-	const int capacity = 65536;
+	const int capacity = CPSZ_CAPACITY(65536);
 	const int intv_radius = (capacity >> 1);
 
 	unpred_vec<T> unpred_data = unpred_vec<T>();
-- 
2.43.0


From 5906e80e1dde02391dc0e42106239ae535980773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:34 +0000
Subject: [PATCH 22/36] fix: let sz_compress_2d_pwr compress fields of zeros

The largest magnitude was taken as the logarithm of 0 and every zero came
back as infinity.
---
 src/sz_compress_pwr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index c36a128..86c1ca6 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -21,7 +21,8 @@ sz_compress_2d_pwr(const T * data, size_t r1, size_t r2, double precision, size_
 		max_data = MAX(max_data, data[i]);
 	}
 	T max_abs_log_data = 0;
-    if(min_data == 0) max_abs_log_data = fabs(log2(fabs(max_data)));
+    if(min_data == 0 && max_data == 0) max_abs_log_data = 0;
+    else if(min_data == 0) max_abs_log_data = fabs(log2(fabs(max_data)));
     else if(max_data == 0) max_abs_log_data = fabs(log2(fabs(min_data)));
     else max_abs_log_data = fabs(log2(fabs(min_data))) > fabs(log2(fabs(max_data))) ? fabs(log2(fabs(min_data))) : fabs(log2(fabs(max_data)));
     T min_log_data = max_abs_log_data;
-- 
2.43.0


From 597739383f524e4cb4029c478dec1aad20e99d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:35 +0000
Subject: [PATCH 23/36] hook: CPSZ_MC_CAPACITY also bounds the sampled
 intervals

---
 include/sz_def.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sz_def.hpp b/include/sz_def.hpp
index 5f9449e..2b011c7 100644
--- a/include/sz_def.hpp
+++ b/include/sz_def.hpp
@@ -167,7 +167,7 @@ inline T MINF(const T& a, const T& b){
 #define RegCoeffCapacity CPSZ_CAPACITY(65536)
 #define QuantIntvMeanCapacity 8192
 #define QuantIntvSampleDistance 100
-#define QuantIntvSampleCapacity 32768
+#define QuantIntvSampleCapacity CPSZ_CAPACITY(32768)
 #define QuantIntvAccThreshold 0.999
 #define RegThresholdSize2d 8
 #define RegThresholdSize3d 4
-- 
2.43.0


From 382426216870fc089682f2e520d3432e33890093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 24/36] fix: leave room for rounding between zeros and values
 in sz_compress_2d_pwr

The margin was a ten-thousandth of the bound, less than the rounding of
the logarithms, so a zero could decode as a value below the smallest one.
---
 src/sz_compress_pwr.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index 86c1ca6..e106a15 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -43,14 +43,15 @@ sz_compress_2d_pwr(const T * data, size_t r1, size_t r2, double precision, size_
 	double log_precision = log2(1.0 + precision) - max_abs_log_data * std::numeric_limits<T>::epsilon();
 	for(size_t i=0; i<num_elements; i++){
 		if(data[i] == 0){
-			log_data[i] = min_log_data - 2.0001*log_precision;
+			log_data[i] = min_log_data - 3*log_precision;
 		}
 	}
 	size_t log_compressed_size = 0;
 	unsigned char * log_compressed = sz_compress_2d(log_data, r1, r2, log_precision, log_compressed_size, BSIZE, block_independant);
     free(log_data);
 	size_t sign_size = (num_elements-1)/8 + 1;
-	T threshold = min_log_data - 1.0001*log_precision;
+	// halfway between the lowest value and the highest zero that can be decoded
+	T threshold = min_log_data - 1.5*log_precision;
 	compressed_size = sizeof(T) + sign_size + log_compressed_size;
     unsigned char * final_compressed = (unsigned char *) malloc(compressed_size);
     unsigned char * final_compressed_pos = final_compressed;
-- 
2.43.0


From 1735b8e9fa92fcd667cc65235e867aff0eed5c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:50 +0000
Subject: [PATCH 25/36] fix: do not take the first element of an empty vector

With every value predictable the list of unpredictable values is empty, and
&v[0] is undefined: libraries built with -D_GLIBCXX_ASSERTIONS abort.
---
 src/sz_compress_cp_preserve_2d.cpp          | 8 ++++----
 src/sz_compress_cp_preserve_2d_bilinear.cpp | 2 +-
 src/sz_compress_cp_preserve_3d.cpp          | 8 ++++----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 94ac9fc..d9af92e 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -705,7 +705,7 @@ sz_compress_cp_preserve_2d_online(const T * U, const T * V, size_t r1, size_t r2
 	write_variable_to_dst(compressed_pos, intv_radius);
 	size_t unpredictable_count = unpred_data.size();
 	write_variable_to_dst(compressed_pos, unpredictable_count);
-	write_array_to_dst(compressed_pos, (T *)&unpred_data[0], unpredictable_count);	
+	write_array_to_dst(compressed_pos, unpred_data.data(), unpredictable_count);	
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, 2*num_elements, compressed_pos);
 	free(eb_quant_index);
 	Huffman_encode_tree_and_data(2*capacity, data_quant_index, 2*num_elements, compressed_pos);
@@ -971,7 +971,7 @@ sz_compress_cp_preserve_2d_online_log(const T * U, const T * V, size_t r1, size_
 	free(sign_map_compressed);
 	size_t unpredictable_count = unpred_data.size();
 	write_variable_to_dst(compressed_pos, unpredictable_count);
-	write_array_to_dst(compressed_pos, (T *)&unpred_data[0], unpredictable_count);	
+	write_array_to_dst(compressed_pos, unpred_data.data(), unpredictable_count);	
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, num_elements, compressed_pos);
 	free(eb_quant_index);
 	Huffman_encode_tree_and_data(2*capacity, data_quant_index, 2*num_elements, compressed_pos);
@@ -1233,7 +1233,7 @@ sz_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size_
 	write_variable_to_dst(compressed_pos, intv_radius);
 	size_t unpredictable_count = unpred_data.size();
 	write_variable_to_dst(compressed_pos, unpredictable_count);
-	write_array_to_dst(compressed_pos, (T *)&unpred_data[0], unpredictable_count);	
+	write_array_to_dst(compressed_pos, unpred_data.data(), unpredictable_count);	
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, 2*num_elements, compressed_pos);
 	free(eb_quant_index);
 	Huffman_encode_tree_and_data(2*capacity, data_quant_index, 2*num_elements, compressed_pos);
@@ -1526,7 +1526,7 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 	write_variable_to_dst(compressed_pos, intv_radius);
 	size_t unpredictable_count = unpred_data.size();
 	write_variable_to_dst(compressed_pos, unpredictable_count);
-	write_array_to_dst(compressed_pos, (T *)&unpred_data[0], unpredictable_count);	
+	write_array_to_dst(compressed_pos, unpred_data.data(), unpredictable_count);	
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, 2*num_elements, compressed_pos);
 	free(eb_quant_index);
 	Huffman_encode_tree_and_data(2*capacity, data_quant_index, 2*num_elements, compressed_pos);
diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index 3fc979f..0aeb222 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -1061,7 +1061,7 @@ sz_compress_cp_preserve_2d_bilinear_online_log(const T * U, const T * V, size_t
 	size_t unpredictable_count = unpred_data.size();
 	// printf("unpredictable_count=%d\n", unpredictable_count);
 	write_variable_to_dst(compressed_pos, unpredictable_count);
-	write_array_to_dst(compressed_pos, (T *)&unpred_data[0], unpredictable_count);	
+	write_array_to_dst(compressed_pos, unpred_data.data(), unpredictable_count);	
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, num_elements, compressed_pos);
 	free(eb_quant_index);
 	Huffman_encode_tree_and_data(2*capacity, data_quant_index, 2*num_elements, compressed_pos);
diff --git a/src/sz_compress_cp_preserve_3d.cpp b/src/sz_compress_cp_preserve_3d.cpp
index f2783eb..6a2bae8 100644
--- a/src/sz_compress_cp_preserve_3d.cpp
+++ b/src/sz_compress_cp_preserve_3d.cpp
@@ -554,7 +554,7 @@ sz_compress_cp_preserve_3d_offline_log(const T * U, const T * V, const T * W, si
 	free(sign_map_compressed);
 	size_t unpredictable_count = eb_zero_data.size();
 	write_variable_to_dst(compressed_pos, unpredictable_count);
-	write_array_to_dst(compressed_pos, (T *)&eb_zero_data[0], unpredictable_count);	
+	write_array_to_dst(compressed_pos, eb_zero_data.data(), unpredictable_count);	
 	// printf("eb_zero_data size = %ld\n", unpredictable_count*sizeof(T));
 	// store out range information
 	unsigned char * tmp = compressed_pos;
@@ -941,7 +941,7 @@ sz_compress_cp_preserve_3d_online_log(const T * U, const T * V, const T * W, siz
 	free(sign_map_compressed);
 	size_t unpredictable_count = eb_zero_data.size();
 	write_variable_to_dst(compressed_pos, unpredictable_count);
-	write_array_to_dst(compressed_pos, (T *)&eb_zero_data[0], unpredictable_count);	
+	write_array_to_dst(compressed_pos, eb_zero_data.data(), unpredictable_count);	
 	printf("eb_zero_data size = %ld\n", unpredictable_count*sizeof(T));
 	// store out range information
 	unsigned char * tmp = compressed_pos;
@@ -1124,7 +1124,7 @@ sz_compress_cp_preserve_3d_unstructured(int n, const T * points, const T * data,
 	// printf("sign map size = %ld\n", sign_map_size);
 	size_t unpredictable_count = eb_zero_data.size();
 	write_variable_to_dst(compressed_pos, unpredictable_count);
-	write_array_to_dst(compressed_pos, (T *)&eb_zero_data[0], unpredictable_count);	
+	write_array_to_dst(compressed_pos, eb_zero_data.data(), unpredictable_count);	
 	// printf("eb_zero_data size = %ld\n", unpredictable_count*sizeof(T));
 	// store out range information
 	unsigned char * tmp = compressed_pos;
@@ -1462,7 +1462,7 @@ sz_compress_cp_preserve_3d_online_abs(const T * U, const T * V, const T * W, siz
 	size_t unpredictable_count = unpred_data.size();
 	write_variable_to_dst(compressed_pos, unpredictable_count);
 	printf("start of unpred data: pos = %ld\n", compressed_pos - compressed);
-	write_array_to_dst(compressed_pos, (T *)&unpred_data[0], unpredictable_count);	
+	write_array_to_dst(compressed_pos, unpred_data.data(), unpredictable_count);	
 	printf("start eb decoding: pos = %ld\n", compressed_pos - compressed);
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, num_elements, compressed_pos);
 	free(eb_quant_index);
-- 
2.43.0


From 17e89cbea5fa32390b2e33503d0f38ac6800bf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:01 +0000
Subject: [PATCH 26/36] fix: find the zeros of bilinear cells that are affine
 or sheared

inverse_bilinear_interpolation divided by A0*C1 - A1*C0 and by A0*B1 - A1*B0
without checking, so cells where one of them is 0 (affine cells, components
that depend on one coordinate) counted as free of critical points and were
compressed without protection.
---
 src/sz_compress_cp_preserve_2d_bilinear.cpp | 45 ++++++++-------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index 0aeb222..35be549 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -597,37 +597,24 @@ derive_cp_eb_bilinear_online(const double u0, const double u1, const double u2,
 int inverse_bilinear_interpolation(const double A0, const double B0, const double C0, const double D0,
 	const double A1, const double B1, const double C1, const double D1, double pos[2][2], double J[2][2][2])
 {
-  double M0[4] = {-B0, -D0, -B1, -D1}, // stored in row major
-    M1[4] = {A0, C0, A1, C1}; // (yM1 - M0)v = 0, v = {x, 1}^T
+  // (A0*y + B0)*x + (C0*y + D0) = 0, (A1*y + B1)*x + (C1*y + D1) = 0
+  // eliminating x: a*y^2 + b*y + c = 0; a or the factor of x may be 0
+  double a = A0*C1 - A1*C0,
+    b = A0*D1 + B0*C1 - A1*D0 - B1*C0,
+    c = B0*D1 - B1*D0;
+  const double scale = MAX(fabs(a), MAX(fabs(b), fabs(c)));
+  a /= scale; b /= scale; c /= scale; // so that squares neither overflow nor vanish
+  const double delta = b*b - 4*a*c;
 
-  double detM1 = A0*C1 - A1*C0; // TODO: check if detM1==0
-  double invM1[4] = {C1/detM1, -C0/detM1, -A1/detM1, A0/detM1};  
-  // Q = invM1*M0
-  double Q[4] = {
-    invM1[0]*M0[0] + invM1[1]*M0[2], 
-    invM1[0]*M0[1] + invM1[1]*M0[3], 
-    invM1[2]*M0[0] + invM1[3]*M0[2], 
-    invM1[2]*M0[1] + invM1[3]*M0[3]
-  };
-  // compute y=eig(Q)
-  double trace = Q[0] + Q[3];
-  double det = Q[0]*Q[3] - Q[1]*Q[2];
+  if(!(delta >= 0)) return 0;
 
-  if(trace*trace/4 - det < 0) return 0;
-
-  double lambda[2] = {
-    static_cast<double>(trace/2 + std::sqrt(trace*trace/4 - det)), 
-    static_cast<double>(trace/2 - std::sqrt(trace*trace/4 - det))
-  }; 
-
-  double x[2] = {
-    (lambda[0]-Q[3])/Q[2], 
-    (lambda[1]-Q[3])/Q[2]
-  }; 
-  double y[2] = {
-    lambda[0], 
-    lambda[1]
-  };
+  const double q = (b >= 0) ? -(b + std::sqrt(delta))/2 : -(b - std::sqrt(delta))/2;
+  const double y[2] = {q/a, c/q}; // the larger one first; not finite if there is no such root
+  double x[2];
+  for(int i=0; i<2; i++){
+    const double e0 = A0*y[i] + B0, e1 = A1*y[i] + B1;
+    x[i] = (fabs(e0) >= fabs(e1)) ? -(C0*y[i] + D0)/e0 : -(C1*y[i] + D1)/e1;
+  }
   int nroots = 0;
   for (int i=0; i<2; i++) // check the two roots 
     if (x[i]>=0 && x[i]<1 && y[i]>=0 && y[i]<1) {
-- 
2.43.0


From 84e7acdc5fb6d6982f1c7e6c2f28494a538fd0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:01 +0000
Subject: [PATCH 27/36] fix: keep only the mantissa of floats in
 out_of_range_data_encode

---
 include/sz_compression_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sz_compression_utils.hpp b/include/sz_compression_utils.hpp
index 19c6184..caca4a4 100644
--- a/include/sz_compression_utils.hpp
+++ b/include/sz_compression_utils.hpp
@@ -13,7 +13,7 @@ out_of_range_data_encode(const T data, int residue_len, unsigned char *& sign_po
 	int discard_len = mantissa_len<T>() - residue_len;
 	fp.ival = (fp.ival >> discard_len) << discard_len;
 	T decompressed = fp.fval;
-	fp.ival &= 0x000FFFFFFFFFFFFF;
+	fp.ival = (mantissa_len<T>() == 23) ? (fp.ival & 0x007FFFFF) : (fp.ival & 0x000FFFFFFFFFFFFF);
 	fp.ival >>= discard_len;
 	while(residue_len){
 		int byte_rest_len = 8 - pos;
-- 
2.43.0


From e0b23f2d8e467d251f58754673448b9b136f3b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:10 +0000
Subject: [PATCH 28/36] fix: store vectors with tiny components losslessly in
 the 3D log compressors

Values below 2^-99 were decoded as zeros.
---
 include/sz_cp_preserve_utils.hpp   | 7 +++++++
 src/sz_compress_cp_preserve_3d.cpp | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index 32a9ba6..acc818b 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -169,6 +169,13 @@ log_transform(const T * data, unsigned char * sign, unsigned char * zero, size_t
 	return log_data;
 }
 
+// log_transform stands for zeros with -100, and logarithms move by up to 1:
+// true for nonzero values that could be taken for zeros afterwards
+template<typename T>
+inline bool is_tiny(T value){
+	return (value != 0) && (fabs(value) <= ldexp(1.0, -98));
+}
+
 template<typename T>
 inline bool in_range(T pos, T n){
 	return (pos >= 0) && (pos < n);
diff --git a/src/sz_compress_cp_preserve_3d.cpp b/src/sz_compress_cp_preserve_3d.cpp
index 6a2bae8..86f0e7b 100644
--- a/src/sz_compress_cp_preserve_3d.cpp
+++ b/src/sz_compress_cp_preserve_3d.cpp
@@ -461,6 +461,7 @@ sz_compress_cp_preserve_3d_offline_log(const T * U, const T * V, const T * W, si
 		for(int j=0; j<r2; j++){
 			for(int k=0; k<r3; k++){
 				double required_eb = *(eb_offline_pos++);
+				if(is_tiny(*cur_U_pos) || is_tiny(*cur_V_pos) || is_tiny(*cur_W_pos)) required_eb = 0;
 				// derive eb given 24 adjacent simplex
 				if(required_eb > 0){
 					bool unpred_flag = false;
@@ -837,6 +838,7 @@ sz_compress_cp_preserve_3d_online_log(const T * U, const T * V, const T * W, siz
 				}
 				// eb[eb_index ++] = required_eb;
 				if(required_eb < 1e-6) required_eb = 0;
+				if(is_tiny(*cur_U_pos) || is_tiny(*cur_V_pos) || is_tiny(*cur_W_pos)) required_eb = 0;
 				if(required_eb > 0){
 					bool unpred_flag = false;
 					T decompressed[3];
@@ -1052,6 +1054,7 @@ sz_compress_cp_preserve_3d_unstructured(int n, const T * points, const T * data,
 				dec_data[data_offset[0] + 2], dec_data[data_offset[1] + 2], dec_data[data_offset[2] + 2], dec_data[data_offset[3] + 2]));
 		}
 		if(required_eb < 1e-10) required_eb = 0;
+		if(is_tiny(dec_data_pos[0]) || is_tiny(dec_data_pos[1]) || is_tiny(dec_data_pos[2])) required_eb = 0;
 		if(required_eb > 0){
 			bool unpred_flag = false;
 			double abs_eb = log2(1 + required_eb);
-- 
2.43.0


From f5da249e59abe68d4e8034a9cd36206fbe0abcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:12 +0000
Subject: [PATCH 29/36] fix: test cells for critical points in double precision
 in relax_FN

The products of tiny floats vanished and cells lost their critical point.
---
 src/sz_compress_cp_preserve_2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index d9af92e..b5cf3b9 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -1310,7 +1310,7 @@ compute_cp(const T * U, const T * V, int r1, int r2){
 			indices[0] = i*r2 + j;
 			indices[1] = (i+1)*r2 + j;
 			indices[2] = (i+1)*r2 + (j+1); 
-			T vf[3][2];
+			double vf[3][2];
 			// cell index 0
 			for(int p=0; p<3; p++){
 				vf[p][0] = U[indices[p]];
@@ -1473,7 +1473,7 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 						}
 					}
 					if(in_mesh){
-						T vf[3][2];
+						double vf[3][2];
 						vf[0][0] = cur_U_pos[offsets[k]];
 						vf[1][0] = cur_U_pos[offsets[k+1]];
 						vf[2][0] = decompressed[0];
-- 
2.43.0


From 788413c560d2f2eafd2b61ed9de2298a5d268da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:28 +0000
Subject: [PATCH 30/36] fix: take logarithms of doubles in double precision

The log-domain codecs took them in single precision, so bounds below 1e-5 were
exceeded, and values beyond the range of float were lost by offline_log.
---
 include/sz_cp_preserve_utils.hpp     | 10 +++++++++-
 src/sz_decompress_cp_preserve_2d.cpp |  5 +++--
 src/sz_decompress_cp_preserve_3d.cpp |  5 +++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index acc818b..c7f41ef 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -131,6 +131,14 @@ inline void accumulate(const T value, double& positive, double& negative){
 	else negative += - value;
 }
 
+// logarithms in the precision of the data
+inline float log2_abs(float data){
+	return log2f(fabsf(data));
+}
+inline double log2_abs(double data){
+	return log2(fabs(data));
+}
+
 template<typename T>
 T *
 log_transform(const T * data, unsigned char * sign, size_t n, bool verbose=false){
@@ -139,7 +147,7 @@ log_transform(const T * data, unsigned char * sign, size_t n, bool verbose=false
 		sign[i] = 0;
 		if(data[i] != 0){
 			sign[i] = (data[i] > 0);
-			log_data[i] = (data[i] > 0) ? log2f(data[i]) : log2f(-data[i]); 
+			log_data[i] = (data[i] > 0) ? log2_abs(data[i]) : log2_abs(-data[i]); 
 		}
 		else{
 			sign[i] = 0;
diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index a4c83b4..3e4faa9 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -1,6 +1,7 @@
 #include "sz_decompress_3d.hpp"
 #include "sz_decompress_cp_preserve_2d.hpp"
 #include "sz_decompress_block_processing.hpp"
+#include "sz_cp_preserve_utils.hpp"
 #include <limits>
 #include <unordered_set>
 #include "sz3_utils.hpp"
@@ -212,8 +213,8 @@ sz_decompress_cp_preserve_2d_online_log(const unsigned char * compressed, size_t
 				unpred_data_indices.insert(i*r2 + j);
 				T data_U = *(unpred_data_pos ++);
 				T data_V = *(unpred_data_pos ++);
-				*U_pos = (data_U == 0) ? -100 : log2f(fabs(data_U));
-				*V_pos = (data_V == 0) ? -100 : log2f(fabs(data_V));
+				*U_pos = (data_U == 0) ? -100 : log2_abs(data_U);
+				*V_pos = (data_V == 0) ? -100 : log2_abs(data_V);
 				eb_quant_index_pos ++;
 			}
 			else{
diff --git a/src/sz_decompress_cp_preserve_3d.cpp b/src/sz_decompress_cp_preserve_3d.cpp
index 428d017..2fdb990 100644
--- a/src/sz_decompress_cp_preserve_3d.cpp
+++ b/src/sz_decompress_cp_preserve_3d.cpp
@@ -1,6 +1,7 @@
 #include "sz_decompress_3d.hpp"
 #include "sz_decompress_cp_preserve_2d.hpp"
 #include "sz_decompress_block_processing.hpp"
+#include "sz_cp_preserve_utils.hpp"
 #include <limits>
 #include <unordered_set>
 
@@ -58,7 +59,7 @@ sz_decompress_cp_preserve_3d_online_log(const unsigned char * compressed, size_t
 					unpred_data_indices.insert(index);
 					for(int p=0; p<3; p++){
 						T cur_data = *(eb_zero_data_pos ++);
-						*(data_pos[p]) = (cur_data == 0) ? -100 : log2f(fabs(cur_data));
+						*(data_pos[p]) = (cur_data == 0) ? -100 : log2_abs(cur_data);
 					}
 					eb_quant_index_pos ++;
 				}
@@ -157,7 +158,7 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 			unpred_data_indices.insert(i);
 			for(int p=0; p<3; p++){
 				T cur_data = *(eb_zero_data_pos ++);
-				data_pos[p] = (cur_data == 0) ? -100 : log2f(fabs(cur_data));
+				data_pos[p] = (cur_data == 0) ? -100 : log2_abs(cur_data);
 			}
 			eb_quant_index_pos ++;
 		}
-- 
2.43.0


From 4d3497d9dba78f779356c7db6c0a7179a528678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:37 +0000
Subject: [PATCH 31/36] fix: keep values below 2^-98 in offline_log

Their logarithms were taken for those of zeros.
---
 include/sz_cp_preserve_utils.hpp     | 8 +++++---
 src/sz_compress_cp_preserve_2d.cpp   | 1 +
 src/sz_decompress_cp_preserve_2d.cpp | 4 ++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index c7f41ef..22fadac 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -131,12 +131,14 @@ inline void accumulate(const T value, double& positive, double& negative){
 	else negative += - value;
 }
 
-// logarithms in the precision of the data
+// logarithms in the precision of the data; -100 stands for zeros
 inline float log2_abs(float data){
-	return log2f(fabsf(data));
+	float log_data = log2f(fabsf(data));
+	return (log_data == -100) ? nextafterf(log_data, 0) : log_data;
 }
 inline double log2_abs(double data){
-	return log2(fabs(data));
+	double log_data = log2(fabs(data));
+	return (log_data == -100) ? nextafter(log_data, 0) : log_data;
 }
 
 template<typename T>
diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index b5cf3b9..94f6e44 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -330,6 +330,7 @@ sz_compress_cp_preserve_2d_offline_log(const T * U, const T * V, size_t r1, size
 	double log2_of_base = log2(base);
 	const double threshold = std::numeric_limits<double>::epsilon();
 	for(int i=0; i<num_elements; i++){
+		if(is_tiny(U[i]) || is_tiny(V[i])) eb[i] = 0;
 		eb[i] = log2(1 + eb[i]);
 		*(eb_quant_index_pos ++) = eb_exponential_quantize(eb[i], base, log2_of_base, threshold);
 		// *(eb_quant_index_pos ++) = eb_linear_quantize(eb[i], 5e-3);
diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 3e4faa9..dfb795e 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -87,12 +87,12 @@ sz_decompress_cp_preserve_2d_offline_log(const unsigned char * compressed, size_
 	U = sz_decompress_2d_with_eb<T>(compressed_pos, eb, r1, r2);
 	compressed_pos += compressed_u_size;
 	for(int i=0; i<num_elements; i++){
-		if(U[i] <= -99) U[i] = 0;
+		if(U[i] <= -99 && (eb[i] > 0 || U[i] == -100)) U[i] = 0; // other logarithms without bound are exact
 		else U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
 	}
 	V = sz_decompress_2d_with_eb<T>(compressed_pos, eb, r1, r2);
 	for(int i=0; i<num_elements; i++){
-		if(V[i] <= -99) V[i] = 0;
+		if(V[i] <= -99 && (eb[i] > 0 || V[i] == -100)) V[i] = 0;
 		else V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
 	}
 	free(sign_map_u);
-- 
2.43.0


From bc0b9848782393d17c7cd4e2a4de06ce2d64e7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 32/36] fix: leave no padding in meanInfo, which goes into the
 stream

---
 include/sz_def.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sz_def.hpp b/include/sz_def.hpp
index 2b011c7..48da742 100644
--- a/include/sz_def.hpp
+++ b/include/sz_def.hpp
@@ -144,10 +144,11 @@ struct DSize_3d{
 template<typename T>
 struct meanInfo{
 	bool use_mean;
+	// the whole struct goes to the compressed stream: no padding, which copies need not keep
+	char reserved[sizeof(T) - sizeof(bool)];
 	T mean;
 	meanInfo(bool use = false, T mean_ = 0){
-		// the whole struct goes to the compressed stream, padding included
-		memset((void *) this, 0, sizeof(*this));
+		memset(reserved, 0, sizeof(reserved));
 		use_mean = use;
 		mean = mean_;
 	}
-- 
2.43.0


From 8964b827f673adc0e68c4f35c295327e7b8de864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 33/36] fix: derive the 2D error bounds in double precision, so
 that the products of large or small float values neither overflow nor
 underflow

---
 src/sz_compress_cp_preserve_2d.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 94f6e44..f6f384c 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -195,7 +195,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 				auto X = (k == 0) ? X_upper : X_lower;
 				auto offset = (k == 0) ? offset_upper : offset_lower;
 				// reversed order!
-				double max_cur_eb = max_eb_to_keep_position_and_type(U_row_pos[offset[0]], U_row_pos[offset[1]], U_row_pos[offset[2]],
+				double max_cur_eb = max_eb_to_keep_position_and_type<double>(U_row_pos[offset[0]], U_row_pos[offset[1]], U_row_pos[offset[2]],
 					V_row_pos[offset[0]], V_row_pos[offset[1]], V_row_pos[offset[2]], X[0][1], X[1][1], X[2][1],
 					X[0][0], X[1][0], X[2][0]);
 				eb_row_pos[offset[0]] = MINF(eb_row_pos[offset[0]], max_cur_eb);
@@ -296,7 +296,7 @@ sz_compress_cp_preserve_2d_offline_log(const T * U, const T * V, size_t r1, size
 				auto X = (k == 0) ? X_upper : X_lower;
 				auto offset = (k == 0) ? offset_upper : offset_lower;
 				// reversed order!
-				double max_cur_eb = max_eb_to_keep_position_and_type(U_row_pos[offset[0]], U_row_pos[offset[1]], U_row_pos[offset[2]],
+				double max_cur_eb = max_eb_to_keep_position_and_type<double>(U_row_pos[offset[0]], U_row_pos[offset[1]], U_row_pos[offset[2]],
 					V_row_pos[offset[0]], V_row_pos[offset[1]], V_row_pos[offset[2]], X[0][1], X[1][1], X[2][1],
 					X[0][0], X[1][0], X[2][0]);
 				eb_row_pos[offset[0]] = MINF(eb_row_pos[offset[0]], max_cur_eb);
@@ -575,7 +575,7 @@ sz_compress_cp_preserve_2d_online(const T * U, const T * V, size_t r1, size_t r2
 	const int offsets[7] = {
 		-(int)r2, -(int)r2 - 1, -1, (int)r2, (int)r2+1, 1, -(int)r2
 	};
-	const T x[6][3] = {
+	const double x[6][3] = {
 		{1, 0, 1},
 		{0, 0, 1},
 		{0, 1, 1},
@@ -583,7 +583,7 @@ sz_compress_cp_preserve_2d_online(const T * U, const T * V, size_t r1, size_t r2
 		{1, 1, 0},
 		{1, 0, 0}
 	};
-	const T y[6][3] = {
+	const double y[6][3] = {
 		{0, 0, 1},
 		{0, 1, 1},
 		{0, 1, 0},
@@ -591,7 +591,7 @@ sz_compress_cp_preserve_2d_online(const T * U, const T * V, size_t r1, size_t r2
 		{1, 0, 0},
 		{1, 0, 1}
 	};
-	T inv_C[6][4];
+	double inv_C[6][4];
 	for(int i=0; i<6; i++){
 		get_adjugate_matrix_for_position(x[i][0], x[i][1], x[i][2], y[i][0], y[i][1], y[i][2], inv_C[i]);
 	}
@@ -621,7 +621,7 @@ sz_compress_cp_preserve_2d_online(const T * U, const T * V, size_t r1, size_t r2
 					}
 				}
 				if(in_mesh){
-					required_eb = MINF(required_eb, derive_cp_eb_for_positions_online(cur_U_pos[offsets[k]], cur_U_pos[offsets[k+1]], cur_U_pos[0],
+					required_eb = MINF(required_eb, derive_cp_eb_for_positions_online<double>(cur_U_pos[offsets[k]], cur_U_pos[offsets[k+1]], cur_U_pos[0],
 						cur_V_pos[offsets[k]], cur_V_pos[offsets[k+1]], cur_V_pos[0], inv_C[k]));
 				}
 			}
@@ -815,7 +815,7 @@ sz_compress_cp_preserve_2d_online_log(const T * U, const T * V, size_t r1, size_
 	const int offsets[7] = {
 		-(int)r2, -(int)r2 - 1, -1, (int)r2, (int)r2+1, 1, -(int)r2
 	};
-	const T x[6][3] = {
+	const double x[6][3] = {
 		{1, 0, 1},
 		{0, 0, 1},
 		{0, 1, 1},
@@ -823,7 +823,7 @@ sz_compress_cp_preserve_2d_online_log(const T * U, const T * V, size_t r1, size_
 		{1, 1, 0},
 		{1, 0, 0}
 	};
-	const T y[6][3] = {
+	const double y[6][3] = {
 		{0, 0, 1},
 		{0, 1, 1},
 		{0, 1, 0},
@@ -831,7 +831,7 @@ sz_compress_cp_preserve_2d_online_log(const T * U, const T * V, size_t r1, size_
 		{1, 0, 0},
 		{1, 0, 1}
 	};
-	T inv_C[6][4];
+	double inv_C[6][4];
 	for(int i=0; i<6; i++){
 		get_adjugate_matrix_for_position(x[i][0], x[i][1], x[i][2], y[i][0], y[i][1], y[i][2], inv_C[i]);
 	}
@@ -881,7 +881,7 @@ sz_compress_cp_preserve_2d_online_log(const T * U, const T * V, size_t r1, size_
 					// int index = simplex_offset[k] + 2*i*r2 + 2*j;
 					// conds[index].computed = false;
 					// count[index] ++;
-					required_eb = MINF(required_eb, derive_cp_eb_for_positions_online(cur_U_pos[offsets[k]], cur_U_pos[offsets[k+1]], cur_U_pos[0],
+					required_eb = MINF(required_eb, derive_cp_eb_for_positions_online<double>(cur_U_pos[offsets[k]], cur_U_pos[offsets[k+1]], cur_U_pos[0],
 						cur_V_pos[offsets[k]], cur_V_pos[offsets[k+1]], cur_V_pos[0], inv_C[k]));
 				}
 			}
@@ -1070,7 +1070,7 @@ sz_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size_
 					}
 					if(in_mesh){
 						// derive abs eb
-						required_eb = MINF(required_eb, derive_cp_eb_for_positions_online_abs(cur_U_pos[offsets[k]], cur_U_pos[offsets[k+1]], cur_U_pos[0],
+						required_eb = MINF(required_eb, derive_cp_eb_for_positions_online_abs<double>(cur_U_pos[offsets[k]], cur_U_pos[offsets[k+1]], cur_U_pos[0],
 							cur_V_pos[offsets[k]], cur_V_pos[offsets[k+1]], cur_V_pos[0]));
 					}
 				}				
@@ -1561,7 +1561,7 @@ derive_eb_abs_online_2d(T * cur_U_pos, T * cur_V_pos, int i, int j, size_t r1, s
 		}
 		if(in_mesh){
 			// derive abs eb
-			required_eb = MINF(required_eb, derive_cp_eb_for_positions_online_abs(cur_U_pos[offsets[k]], cur_U_pos[offsets[k+1]], cur_U_pos[0],
+			required_eb = MINF(required_eb, derive_cp_eb_for_positions_online_abs<double>(cur_U_pos[offsets[k]], cur_U_pos[offsets[k+1]], cur_U_pos[0],
 				cur_V_pos[offsets[k]], cur_V_pos[offsets[k+1]], cur_V_pos[0]));
 		}
 	}				
-- 
2.43.0


From b8673efcbaf7f53089e87060af142fca131c64f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 34/36] fix: take the root of the 2D online bound's quadratic
 in the form that does not cancel

---
 src/sz_compress_cp_preserve_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index f6f384c..e3df572 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -460,7 +460,7 @@ inline double max_eb_to_keep_type_online(const T u0, const T u1, const T u2, con
 			// 	printf("impossible as a*c is always less than 0\n");
 			// 	exit(0);
 			// }
-			eb = MINF(eb, (-b + sqrt(b*b - 4*a*c))/(2*a));
+			eb = MINF(eb, -2*c/(b + sqrt(b*b - 4*a*c)));
 
 			// check four corners
 			// double e1[2] = {-1, 1};
-- 
2.43.0


From f18d8eac8bc02e14c29afd5a61e3142b24442e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 35/36] fix: derive the 3D error bounds in double precision, so
 that the products of large or small float values neither overflow nor
 underflow

---
 src/sz_compress_cp_preserve_3d.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/sz_compress_cp_preserve_3d.cpp b/src/sz_compress_cp_preserve_3d.cpp
index 86f0e7b..c668412 100644
--- a/src/sz_compress_cp_preserve_3d.cpp
+++ b/src/sz_compress_cp_preserve_3d.cpp
@@ -283,7 +283,7 @@ max_eb_to_keep_position_and_type_3d_offline(const T u0, const T u1, const T u2,
 		return 0;
 	}
 	else{
-		float eb = 0;
+		double eb = 0;
 		double positive_m0 = 0, negative_m0 = 0;
 		{
 			// M0
@@ -324,26 +324,26 @@ max_eb_to_keep_position_and_type_3d_offline(const T u0, const T u1, const T u2,
 			accumulate(u2v0w1, positive_m3, negative_m3);
 			accumulate(- u2v1w0, positive_m3, negative_m3);
 		}
-		float p_m0 = positive_m0, p_m1 = positive_m1, p_m2 = positive_m2, p_m3 = positive_m3;
-		float n_m0 = negative_m0, n_m1 = negative_m1, n_m2 = negative_m2, n_m3 = negative_m3;
+		double p_m0 = positive_m0, p_m1 = positive_m1, p_m2 = positive_m2, p_m3 = positive_m3;
+		double n_m0 = negative_m0, n_m1 = negative_m1, n_m2 = negative_m2, n_m3 = negative_m3;
 		if(!flag[0]){
-			float eb1 = max_eb_to_keep_sign_3d_offline(p_m0, n_m0);
-			float eb2 = max_eb_to_keep_sign_3d_offline(p_m1 + p_m2 + p_m3, n_m1 + n_m2 + n_m3);
+			double eb1 = max_eb_to_keep_sign(p_m0, n_m0, 3);
+			double eb2 = max_eb_to_keep_sign(p_m1 + p_m2 + p_m3, n_m1 + n_m2 + n_m3, 3);
 			eb = MAX(eb, MIN(eb1, eb2));
 		}
 		if(!flag[1]){
-			float eb1 = max_eb_to_keep_sign_3d_offline(p_m1, n_m1);
-			float eb2 = max_eb_to_keep_sign_3d_offline(p_m0 + p_m2 + p_m3, n_m0 + n_m2 + n_m3);
+			double eb1 = max_eb_to_keep_sign(p_m1, n_m1, 3);
+			double eb2 = max_eb_to_keep_sign(p_m0 + p_m2 + p_m3, n_m0 + n_m2 + n_m3, 3);
 			eb = MAX(eb, MIN(eb1, eb2));
 		}
 		if(!flag[2]){
-			float eb1 = max_eb_to_keep_sign_3d_offline(p_m2, n_m2);
-			float eb2 = max_eb_to_keep_sign_3d_offline(p_m0 + p_m1 + p_m3, n_m0 + n_m1 + n_m3);
+			double eb1 = max_eb_to_keep_sign(p_m2, n_m2, 3);
+			double eb2 = max_eb_to_keep_sign(p_m0 + p_m1 + p_m3, n_m0 + n_m1 + n_m3, 3);
 			eb = MAX(eb, MIN(eb1, eb2));
 		}
 		if(!flag[3]){
-			float eb1 = max_eb_to_keep_sign_3d_offline(p_m3, n_m3);
-			float eb2 = max_eb_to_keep_sign_3d_offline(p_m0 + p_m1 + p_m2, n_m0 + n_m1 + n_m2);
+			double eb1 = max_eb_to_keep_sign(p_m3, n_m3, 3);
+			double eb2 = max_eb_to_keep_sign(p_m0 + p_m1 + p_m2, n_m0 + n_m1 + n_m2, 3);
 			eb = MAX(eb, MIN(eb1, eb2));
 		}
 		return eb;
@@ -388,7 +388,7 @@ sz_compress_cp_preserve_3d_offline_log(const T * U, const T * V, const T * W, si
 			for(int j=0; j<r2 - 1; j++){
 				for(int k=0; k<r3 - 1; k++){
 					for(int n=0; n<6; n++){
-						double cur_eb = max_eb_to_keep_position_and_type_3d_offline(
+						double cur_eb = max_eb_to_keep_position_and_type_3d_offline<double>(
 								cur_U_pos[offset[n][0]], cur_U_pos[offset[n][1]], cur_U_pos[offset[n][2]], *cur_U_pos,
 								cur_V_pos[offset[n][0]], cur_V_pos[offset[n][1]], cur_V_pos[offset[n][2]], *cur_V_pos,
 								cur_W_pos[offset[n][0]], cur_W_pos[offset[n][1]], cur_W_pos[offset[n][2]], *cur_W_pos);
@@ -830,7 +830,7 @@ sz_compress_cp_preserve_3d_online_log(const T * U, const T * V, const T * W, siz
 					}
 					if(in_mesh){
 						int index = simplex_offset[n] + i*6*dim0_offset + j*6*dim1_offset + k*6; // TODO: define index for each simplex
-						required_eb = MIN(required_eb, max_eb_to_keep_position_and_type_3d_online(
+						required_eb = MIN(required_eb, max_eb_to_keep_position_and_type_3d_online<double>(
 							cur_U_pos[offset[n][0]], cur_U_pos[offset[n][1]], cur_U_pos[offset[n][2]], *cur_U_pos,
 							cur_V_pos[offset[n][0]], cur_V_pos[offset[n][1]], cur_V_pos[offset[n][2]], *cur_V_pos,
 							cur_W_pos[offset[n][0]], cur_W_pos[offset[n][1]], cur_W_pos[offset[n][2]], *cur_W_pos));
@@ -1048,7 +1048,7 @@ sz_compress_cp_preserve_3d_unstructured(int n, const T * points, const T * data,
 			std::vector<int> inds{0, 1, 2, 3};
 			inds.erase(inds.begin() + pos);
 			const int data_offset[4] = {t.vertex[inds[0]]*3, t.vertex[inds[1]]*3, t.vertex[inds[2]]*3, t.vertex[pos]*3};
-			required_eb = MIN(required_eb, max_eb_to_keep_position_and_type_3d_online(
+			required_eb = MIN(required_eb, max_eb_to_keep_position_and_type_3d_online<double>(
 				dec_data[data_offset[0]], dec_data[data_offset[1]], dec_data[data_offset[2]], dec_data[data_offset[3]],
 				dec_data[data_offset[0] + 1], dec_data[data_offset[1] + 1], dec_data[data_offset[2] + 1], dec_data[data_offset[3] + 1],
 				dec_data[data_offset[0] + 2], dec_data[data_offset[1] + 2], dec_data[data_offset[2] + 2], dec_data[data_offset[3] + 2]));
@@ -1372,7 +1372,7 @@ sz_compress_cp_preserve_3d_online_abs(const T * U, const T * V, const T * W, siz
 							}
 							else{
 								// std::cout << required_eb << " " << max_abs_eb << std::endl;
-								required_eb = MIN(required_eb, max_eb_to_keep_position_and_type_3d_online_abs(
+								required_eb = MIN(required_eb, max_eb_to_keep_position_and_type_3d_online_abs<double>(
 									cur_U_pos[offset[n][0]], cur_U_pos[offset[n][1]], cur_U_pos[offset[n][2]], *cur_U_pos,
 									cur_V_pos[offset[n][0]], cur_V_pos[offset[n][1]], cur_V_pos[offset[n][2]], *cur_V_pos,
 									cur_W_pos[offset[n][0]], cur_W_pos[offset[n][1]], cur_W_pos[offset[n][2]], *cur_W_pos));
-- 
2.43.0


From 4320b24d8335e5883e47e214f51fa355f9f91178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 36/36] fix: verify() squares errors in double, so that large
 or small float errors keep their PSNR and NRMSE

---
 include/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils.hpp b/include/utils.hpp
index fcdeb1d..e127988 100644
--- a/include/utils.hpp
+++ b/include/utils.hpp
@@ -85,7 +85,7 @@ void verify(Type * ori_data, Type * data, size_t num_elements){
         prodSum += (ori_data[i]-mean1)*(data[i]-mean2);
         sum3 += (ori_data[i] - mean1)*(ori_data[i]-mean1);
         sum4 += (data[i] - mean2)*(data[i]-mean2);
-        sum += err*err; 
+        sum += (double) err*err; 
     }
     double std1 = sqrt(sum3/num_elements);
     double std2 = sqrt(sum4/num_elements);
-- 
2.43.0

